// C21: Integer/Bit comparison, logic, shifts, selection, resize, counting.
#include "sweep.h"
using namespace sw;
typedef __int128 i128;
struct Bin { const char *name; int outw; std::function<void(const Integer &, const Integer &, vector<Bit> &)> f; std::function<uint64_t(int, int64_t, int64_t)> r; };
static void same(const Integer &a, const Integer &b, const char *w) { MC_REQUIRE(a.size() == b.size() && memcmp(a.bits.data(), b.bits.data(), a.size() * sizeof(Bit)) == 0, "%s changed an operand", w); }
MC_MAIN("C21") {
	static vector<Bin> bins = {
		{"ge", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a >= b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a >= b); }},
		{"gt", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a > b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a > b); }},
		{"le", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a <= b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a <= b); }},
		{"lt", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a < b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a < b); }},
		{"eq", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a == b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a == b); }},
		{"ne", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a != b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a != b); }},
		{"geq()", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a.geq(b)); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a >= b); }},
		{"equal()", 1, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a.equal(b)); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a == b); }},
		{"self-ge", 3, [](const Integer &a, const Integer &b, vector<Bit> &o) { o.push_back(a >= a); o.push_back(b > b); o.push_back(a == a); }, [](int, int64_t, int64_t) { return (uint64_t)5; }},
		{"and", 0, [](const Integer &a, const Integer &b, vector<Bit> &o) { put(o, a & b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a & b); }},
		{"or", 0, [](const Integer &a, const Integer &b, vector<Bit> &o) { put(o, a | b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a | b); }},
		{"xor", 0, [](const Integer &a, const Integer &b, vector<Bit> &o) { put(o, a ^ b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a ^ b); }},
		{"xor=", 0, [](const Integer &a, const Integer &b, vector<Bit> &o) { Integer x = a; x ^= b; put(o, x); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a ^ b); }},
		{"xor= value", 0, [](const Integer &a, const Integer &b, vector<Bit> &o) { Integer x = a; put(o, x ^= b); }, [](int, int64_t a, int64_t b) { return (uint64_t)(a ^ b); }},
		{"xor= self", 0, [](const Integer &a, const Integer &b, vector<Bit> &o) { Integer x = a; x ^= x; put(o, x ^ b); }, [](int, int64_t, int64_t b) { return (uint64_t)b; }},
	};
	int W = mc::thorough ? 12 : 10;
	mc::explore("compare-logic", {2, 0, 120}, [&] {
		int n = 1 + mc::pick(W); Bin &b = bins[mc::pick((int)bins.size())]; mc::note("%s: all %d-bit operand pairs", b.name, n);
		all(b.name, 2 * n, [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n), y = sub(in, n, n); Integer x0 = x, y0 = y; b.f(x, y, out); same(x, x0, b.name); same(y, y0, b.name); MC_REQUIRE((int)out.size() == (b.outw ? b.outw : n), "%s has %zu result bits", b.name, out.size()); },
			[&](uint64_t x, uint64_t &w) { w = b.r(n, sx(x, n), sx(x >> n, n)) & mask(b.outw ? b.outw : n); return true; });
	});
	static vector<int> wide = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 257, 500, 512, 1000, 1025}; if (mc::thorough) for (int i : {11, 12, 13, 14, 18, 20, 24, 40, 48, 62, 66, 96, 100, 129, 191, 192, 511, 513, 1024, 2000}) wide.push_back(i);
	mc::explore("compare-logic-wide", {2, 0, 120}, [&] {
		int n = mc::choose(wide); int bi = mc::pick((int)bins.size()); Bin &b = bins[bi]; mc::note("%s: boundary alphabet at width %d", b.name, n);
		auto al = alphabet(n, mc::thorough ? n <= 72 : n <= 33); vector<BV> in; for (auto &x : al) for (auto &y : al) in.push_back(cat(x, y));
		// operands that differ in one bit only, or are neighbours, at every bit position
		{ BV z(n), o(n, true), r(n); for (int i = 0; i < n; ++i) r[i] = (i * 2654435761u >> 7) & 1; for (int i = 0; i < n; ++i) for (const BV &x : {z, o, r}) { BV y = x; y[i] = !y[i]; in.push_back(cat(x, y)); in.push_back(cat(y, x)); if (i % 8 == 0) in.push_back(cat(y, y)); } }
		list(b.name, 2 * n, [&](vector<Bit> &i, vector<Bit> &out) { b.f(sub(i, 0, n), sub(i, n, n), out); }, in, [&](const BV &v) {
			BV r; BIGNUM *x = tobn(part(v, 0, n), true), *y = tobn(part(v, n, n), true); int c = BN_cmp(x, y); BN_free(x); BN_free(y);
			if (b.outw == 3) return BV{1, 0, 1};
			if (b.outw == 1) { bool q[] = {c >= 0, c > 0, c <= 0, c < 0, c == 0, c != 0, c >= 0, c == 0}; return BV(1, q[bi]); }
			r.resize(n); for (int i = 0; i < n; ++i) { bool p = v[i], q = v[n + i]; std::string nm = b.name; r[i] = nm == "and" ? p && q : nm == "or" ? p || q : nm == "xor= self" ? q : p != q; } return r; });
	});
	// public shifts: every width, every amount 0..n+3 and huge amounts; every value (small n) or one-hot basis (wide)
	mc::explore("shift-public", {2, 0, 120}, [&] {
		int N = mc::thorough ? 140 : 70, q = mc::pick(N + 8), n = q < N ? 1 + q : std::vector<int>{127, 128, 129, 200, 255, 256, 257, 300}[q - N], left = mc::pick(2); mc::note("%s by every public amount at width %d", left ? "<<" : ">>", n);
		vector<size_t> am; for (int k = 0; k <= n + 3; ++k) am.push_back(k); for (size_t k : {(size_t)255, (size_t)256, (size_t)1 << 31, ((size_t)1 << 31) - 1, ((size_t)1 << 32), ((size_t)1 << 32) + 1, ~(size_t)0, (size_t)1 << 63}) am.push_back(k);
		for (size_t k : am) {
			auto f = [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n), x0 = x; put(out, left ? x << k : x >> k); same(x, x0, "shift"); MC_REQUIRE((int)out.size() == n, "shift changed the width"); };
			if (n <= 10) all("shift", n, f, [&](uint64_t x, uint64_t &w) { w = k >= (size_t)n ? 0 : (left ? x << k : x >> k) & mask(n); return true; });
			else { // a shift only moves wires: every one-hot value plus the all-ones value decides it
				vector<BV> in; for (int i = 0; i < n; ++i) { BV b(n, false); b[i] = true; in.push_back(b); } in.push_back(BV(n, true)); in.push_back(BV(n, false));
				list("shift", n, f, in, [&](const BV &v) { BV r(n, false); for (int i = 0; i < n; ++i) { if (left) { if ((size_t)i >= k && i - k < (size_t)n) r[i] = v[i - k]; } else if (k < (size_t)n && i + k < (size_t)n) r[i] = v[i + k]; } return r; });
			}
		}
	});
	mc::explore("shift-secret", {3, 0, 120}, [&] {
		int n = 1 + mc::pick(mc::thorough ? 12 : 9), m = 2 + mc::pick(6), left = mc::pick(2); mc::note("%d-bit value %s %d-bit secret amount, all values and amounts below the width", n, left ? "<<" : ">>", m);
		all("shift-secret", n + m, [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n), s = sub(in, n, m), x0 = x, s0 = s; put(out, left ? x << s : x >> s); same(x, x0, "shift"); same(s, s0, "shift"); },
			[&](uint64_t x, uint64_t &w) { int64_t k = sx(x >> n, m); if (k < 0 || k >= n) return false; uint64_t v = x & mask(n); w = (left ? v << k : v >> k) & mask(n); return true; });
	});
	mc::explore("shift-secret-wide", {2, 0, 120}, [&] {
		static vector<int> ws = {16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300, 512}; int n = mc::choose(ws), left = mc::pick(2); int m = mc::pick(2) ? n : n > 256 ? 11 : 9; mc::note("width %d secret %s, every amount below the width", n, left ? "<<" : ">>");
		vector<BV> in; for (auto &a : alphabet(n, false)) for (int k = 0; k < n; ++k) in.push_back(cat(a, bv(m, k)));
		list("shift-secret", n + m, [&](vector<Bit> &i, vector<Bit> &out) { Integer x = sub(i, 0, n), s = sub(i, n, m); put(out, left ? x << s : x >> s); }, in, [&](const BV &v) { int k = 0; for (int i = 0; i < m; ++i) if (v[n + i]) k |= 1 << i; BV r(n, false); for (int i = 0; i < n; ++i) { int j = left ? i - k : i + k; if (j >= 0 && j < n) r[i] = v[j]; } return r; });
	});
	mc::explore("select-swap", {2, 0, 120}, [&] {
		int n = 1 + mc::pick(9), k = mc::pick(6); static const char *kn[] = {"a.select(c,b)", "a.If(c,b)", "If(c,a,b)", "swap(c,a,b)", "swap with public true", "swap with public false"}; mc::note("%s at width %d, all values", kn[k], n);
		all(kn[k], 2 * n + 1, [&](vector<Bit> &in, vector<Bit> &out) { Integer a = sub(in, 0, n), b = sub(in, n, n), a0 = a, b0 = b; Bit c = in[2 * n];
				switch (k) { case 0: put(out, a.select(c, b)); same(a, a0, kn[k]); break; case 1: put(out, a.If(c, b)); same(a, a0, kn[k]); break; case 2: put(out, If(c, a, b)); same(a, a0, kn[k]); break; case 3: swap(c, a, b); put(out, a); put(out, b); break; case 4: swap(Bit(true, PUBLIC), a, b); put(out, a); put(out, b); break; default: swap(Bit(false, PUBLIC), a, b); put(out, a); put(out, b); } if (k < 3) same(b, b0, kn[k]); },
			[&](uint64_t x, uint64_t &w) { uint64_t a = x & mask(n), b = (x >> n) & mask(n); bool c = x >> (2 * n); if (k == 4) c = true; if (k == 5) c = false; if (k <= 1) w = c ? b : a; else if (k == 2) w = c ? a : b; else w = c ? (b | a << n) : (a | b << n); return true; });
	});
	mc::explore("select-swap-wide", {2, 0, 120}, [&] {
		int n = mc::choose(wide), k = mc::pick(3); mc::note("select/If/swap form %d at width %d", k, n); auto al = alphabet(n, false); vector<BV> in; for (auto &a : al) for (auto &b : al) for (int c = 0; c < 2; ++c) in.push_back(cat(cat(a, b), bv(1, -c)));
		list("select", 2 * n + 1, [&](vector<Bit> &i, vector<Bit> &out) { Integer a = sub(i, 0, n), b = sub(i, n, n); Bit c = i[2 * n]; if (k == 0) put(out, a.select(c, b)); else if (k == 1) put(out, If(c, a, b)); else { swap(c, a, b); put(out, a); put(out, b); } }, in,
			[&](const BV &v) { BV a = part(v, 0, n), b = part(v, n, n); bool c = v[2 * n]; if (k == 0) return c ? b : a; if (k == 1) return c ? a : b; return c ? cat(b, a) : cat(a, b); });
	});
	mc::explore("bit-ops", {1, 0, 60}, [&] {
		int k = mc::pick(12); static const char *kn[] = {"&", "|", "^", "==", "!=", "!", "^=", "select", "If(c,a,b)", "swap", "self", "constants"}; mc::note("Bit %s on all values", kn[k]);
		all(kn[k], 3, [&](vector<Bit> &in, vector<Bit> &o) { Bit a = in[0], b = in[1], c = in[2];
			switch (k) { case 0: o.push_back(a & b); break; case 1: o.push_back(a | b); break; case 2: o.push_back(a ^ b); break; case 3: o.push_back(a == b); break; case 4: o.push_back(a != b); break; case 5: o.push_back(!a); break; case 6: { Bit t = a; Bit r = (t ^= b); o.push_back(t); o.push_back(r); break; }
				case 7: o.push_back(a.select(c, b)); break; case 8: o.push_back(If(c, a, b)); o.push_back(a.If(c, b)); break; case 9: swap(c, a, b); o.push_back(a); o.push_back(b); break; case 10: o.push_back(a & a); o.push_back(a ^ a); o.push_back(a | a); break;
				default: { Bit t(true, PUBLIC), f(false, PUBLIC), d; o.push_back(a & t); o.push_back(a & f); o.push_back(a ^ t); o.push_back(a ^ f); o.push_back(t | a); o.push_back(f | a); o.push_back(!t); o.push_back(!f); o.push_back(d); o.push_back(t & f); } } },
			[&](uint64_t x, uint64_t &w) { bool a = x & 1, b = x & 2, c = x & 4;
			switch (k) { case 0: w = a && b; break; case 1: w = a || b; break; case 2: w = a != b; break; case 3: w = a == b; break; case 4: w = a != b; break; case 5: w = !a; break; case 6: w = (a != b) * 3; break; case 7: w = c ? b : a; break; case 8: w = (c ? a : b) | (c ? b : a) << 1; break; case 9: w = c ? (b | a << 1) : (a | b << 1); break; case 10: w = a | 0 << 1 | a << 2; break;
				default: w = (uint64_t)a | 0 << 1 | (!a) << 2 | a << 3 | 1 << 4 | a << 5 | 0 << 6 | 1 << 7; } return true; });
	});
	mc::explore("resize", {3, 0, 60}, [&] {
		int n = 1 + mc::pick(10), m = 1 + mc::pick(14), sg = mc::pick(3); mc::note("resize %d -> %d (%s), all values", n, m, sg == 2 ? "default" : sg ? "signed" : "unsigned");
		all("resize", n, [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n); Integer &r = sg == 2 ? x.resize(m) : x.resize(m, sg == 1); MC_REQUIRE(&r == &x && (int)x.size() == m, "resize size/return wrong"); put(out, x); },
			[&](uint64_t x, uint64_t &w) { w = sg ? (uint64_t)sx(x, n) : x; w &= mask(m); return true; });
	});
	mc::explore("resize-wide", {2, 0, 60}, [&] {
		static vector<int> ws = {1, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000}; int n = mc::choose(ws), m = mc::choose(ws), sg = mc::pick(2); mc::note("resize %d -> %d (%s), alphabet", n, m, sg ? "signed" : "unsigned");
		list("resize", n, [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n); x.resize(m, sg == 1); MC_REQUIRE((int)x.size() == m, "resize size"); put(out, x); }, alphabet(n, false), [&](const BV &v) { BV r(m); for (int i = 0; i < m; ++i) r[i] = i < n ? (bool)v[i] : sg ? (bool)v[n - 1] : false; return r; });
	});
	mc::explore("counting", {2, 0, 120}, [&] {
		int n = 1 + mc::pick(mc::thorough ? 20 : 16), k = mc::pick(2); mc::note("%s at width %d, all values", k ? "leading_zeros" : "hamming_weight", n);
		all(k ? "leading_zeros" : "hamming_weight", n, [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n), x0 = x; Integer r = k ? x.leading_zeros() : x.hamming_weight(); same(x, x0, "counting"); r.resize(32, false); put(out, r); },
			[&](uint64_t x, uint64_t &w) { w = k ? (x ? n - 1 - (63 - __builtin_clzll(x)) : n) : __builtin_popcountll(x); return true; });
	});
	mc::explore("counting-wide", {2, 0, 120}, [&] {
		static vector<int> ws = {17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025}; int n = mc::choose(ws), k = mc::pick(2); mc::note("%s at width %d", k ? "leading_zeros" : "hamming_weight", n);
		vector<BV> in = alphabet(n, true);
		list("counting", n, [&](vector<Bit> &i, vector<Bit> &out) { Integer x = sub(i, 0, n); Integer r = k ? x.leading_zeros() : x.hamming_weight(); r.resize(32, false); put(out, r); }, in,
			[&](const BV &v) { int c = 0; if (k) { for (int i = n - 1; i >= 0 && !v[i]; --i) ++c; } else for (int i = 0; i < n; ++i) c += v[i]; return bv(32, c); });
	});
	// element access: index i is bit i (indices past the top read/write the top bit)
	mc::explore("index", {1, 0, 60}, [&] {
		int n = 1 + mc::pick(10); mc::note("operator[] at width %d", n);
		for (int i = 0; i < n + 3; ++i) all("index", n + 1, [&](vector<Bit> &in, vector<Bit> &out) { Integer x = sub(in, 0, n); const Integer &cx = x; out.push_back(cx[i]); if (i < n) { x[i] = in[n]; put(out, x); } }, [&](uint64_t x, uint64_t &w) { uint64_t v = x & mask(n); int j = std::min(i, n - 1); w = (v >> j) & 1; if (i < n) { uint64_t b = x >> n; w |= ((v & ~(1ULL << i)) | b << i) << 1; } return true; });
	});
}
