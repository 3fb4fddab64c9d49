// C20: Integer arithmetic == two's-complement arithmetic.
#include "sweep.h"
using namespace sw;
enum { ADD, SUB, MUL, DIV, MOD, NEG, ABS, NOPS };
static const char *nm[] = {"add", "sub", "mul", "div", "mod", "neg", "abs"};
static Integer apply(int op, const Integer &a, const Integer &b) {
	Integer x = a, y = b; Integer r;
	switch (op) { case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case DIV: r = x / y; break; case MOD: r = x % y; break; case NEG: r = -x; break; default: r = x.abs(); }
	// operands must be unchanged
	MC_REQUIRE(x.size() == a.size() && y.size() == b.size() && memcmp(x.bits.data(), a.bits.data(), a.size() * sizeof(Bit)) == 0 && memcmp(y.bits.data(), b.bits.data(), b.size() * sizeof(Bit)) == 0, "%s changed an operand", nm[op]);
	MC_REQUIRE(r.size() == a.size(), "%s of %zu-bit operands has %zu bits", nm[op], a.size(), r.size());
	return r;
}
static bool ref(int op, int n, uint64_t a, uint64_t b, uint64_t &w) {
	__int128 x = sx(a, n), y = sx(b, n), r;
	switch (op) { case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case DIV: if (!y) return false; r = x / y; break; case MOD: if (!y) return false; r = x % y; break; case NEG: r = -x; break; default: r = x < 0 ? -x : x; }
	w = (uint64_t)r & mask(n); return true;
}
static BV bigref(int op, int n, const BV &v) {
	BIGNUM *x = tobn(part(v, 0, n), true), *y = (op == NEG || op == ABS) ? BN_new() : tobn(part(v, n, n), true), *r = BN_new(), *q = BN_new(); static BN_CTX *c = BN_CTX_new(); bool ok = true;
	switch (op) { case ADD: BN_add(r, x, y); break; case SUB: BN_sub(r, x, y); break; case MUL: BN_mul(r, x, y, c); break; case DIV: if (BN_is_zero(y)) ok = false; else BN_div(r, q, x, y, c); break; case MOD: if (BN_is_zero(y)) ok = false; else BN_div(q, r, x, y, c); break; case NEG: BN_copy(r, x); BN_set_negative(r, !BN_is_negative(x)); break; default: BN_copy(r, x); BN_set_negative(r, 0); }
	BV o; if (ok) o = frombn(r, n); BN_free(x); BN_free(y); BN_free(r); BN_free(q); return o;
}
#ifdef LIGHT   // address-sanitizer pass over small widths
#define T(a, b) 6
#else
#define T(a, b) (mc::thorough ? (a) : (b))
#endif
MC_MAIN("C20") {
	int W = T(13, 11);
	mc::explore("binary-exhaustive", {3, 0, 120}, [&] {
		int n = 1 + mc::pick(W), op = mc::pick(5), parts = n >= 9 ? 64 : (n >= 7 ? 8 : 1), p = parts > 1 ? mc::pick(parts) : 0;
		mc::note("all %d-bit operand pairs of %s, part %d/%d", n, nm[op], p, parts);
		all(nm[op], 2 * n, [&](vector<Bit> &in, vector<Bit> &out) { put(out, apply(op, sub(in, 0, n), sub(in, n, n))); }, [&](uint64_t x, uint64_t &w) { return ref(op, n, x & mask(n), x >> n, w); }, p, parts);
	});
	mc::explore("unary-exhaustive", {2, 0, 120}, [&] {
		int n = 1 + mc::pick(T(27, 20)), op = NEG + mc::pick(2); mc::note("all %d-bit operands of %s", n, nm[op]);
		all(nm[op], n, [&](vector<Bit> &in, vector<Bit> &out) { put(out, apply(op, sub(in, 0, n), Integer())); }, [&](uint64_t x, uint64_t &w) { return ref(op, n, x, 0, w); });
	});
	mc::explore("aliased", {2, 0, 120}, [&] {        // both operands the same object; result assigned over an operand; longer expressions
		int n = 1 + mc::pick(T(10, 10)), k = mc::pick(9); mc::note("aliased form %d at width %d, all values", k, n);
		auto f = [&](vector<Bit> &in, vector<Bit> &out) {
			Integer a = sub(in, 0, n), b = sub(in, n, n), r;
			switch (k) { case 0: r = a + a; break; case 1: r = a - a; break; case 2: r = a * a; break; case 3: r = a / a; break; case 4: r = a % a; break;
				case 5: a = a + b; r = a; break; case 6: b = a - b; r = b; break; case 7: a = a * b; r = a; break; default: r = (a + b) * (a - b) - b; }
			put(out, r); };
		auto rf = [&](uint64_t x, uint64_t &w) { int64_t a = sx(x, n), b = sx(x >> n, n), r;
			switch (k) { case 0: r = 2 * a; break; case 1: r = 0; break; case 2: r = a * a; break; case 3: if (!a) return false; r = 1; break; case 4: if (!a) return false; r = 0; break; case 5: r = a + b; break; case 6: r = a - b; break; case 7: r = a * b; break; default: r = (a + b) * (a - b) - b; }
			w = (uint64_t)r & mask(n); return true; };
		if (n > 8 && !mc::thorough) { all("aliased", 2 * n, f, rf, 0, 16); } else all("aliased", 2 * n, f, rf);
	});
	static vector<int> wide = {11, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192, 255, 256, 257, 400, 512};
	if (mc::thorough) { wide.clear(); for (int i = 10; i <= 70; ++i) wide.push_back(i); for (int i : {95, 96, 97, 127, 128, 129, 191, 192, 255, 256, 257, 384, 400, 511, 512, 513, 700}) wide.push_back(i); }
	mc::explore("wide-boundary", {2, 0, 300}, [&] {
		int n = mc::choose(wide), op = mc::pick(NOPS);
#ifdef LIGHT
		if (n > 33) return;
#endif
		 mc::note("width %d, %s on all pairs of the boundary alphabet", n, nm[op]);
		auto al = alphabet(n, T(1, 0) == 6 ? 0 : mc::thorough ? n <= 72 : n <= 33); vector<BV> in;
		bool un = op == NEG || op == ABS;
		if (un) in = al; else for (auto &a : al) for (auto &b : al) in.push_back(cat(a, b));
		list(nm[op], un ? n : 2 * n, [&](vector<Bit> &i, vector<Bit> &out) { put(out, apply(op, sub(i, 0, n), un ? Integer() : sub(i, n, n))); }, in, [&](const BV &v) { return bigref(op, n, v); });
	});
	// every single bit position of wide operands: a bit set or cleared alone, carries and borrows starting and ending there
	mc::explore("wide-each-bit", {2, 0, 300}, [&] {
#ifdef LIGHT
		return;
#endif
		static const vector<int> lin = {40, 65, 100, 129, 200, 257, 384, 513, 777, 1000, 1024, 1025, 1537, 2049, 3000, 4097, 8193}, quad = {40, 65, 100, 129, 193, 257}; int op = mc::pick(NOPS); int n = mc::choose(op >= MUL && op <= MOD ? quad : lin); if (n > 4097 && !mc::thorough) return;
		mc::note("width %d, %s around every bit position", n, nm[op]); bool un = op == NEG || op == ABS, q = op >= MUL && op <= MOD; vector<BV> in; int step = q && !mc::thorough ? n / 24 + 1 : n > 1100 && !mc::thorough ? 3 : 1;
		BV one(n), ones(n, true), alt(n), z(n); one[0] = true; for (int i = 0; i < n; ++i) alt[i] = (i * 2654435761u >> 9) & 1;
		for (int i = 0; i < n; i += step) { BV h(n), c(n, true), lo(n), f = alt, m(n); h[i] = true; c[i] = false; for (int j = 0; j < i; ++j) lo[j] = true; f[i] = !f[i]; for (int j = i; j < n; ++j) m[j] = true;
			if (un) { in.push_back(h); in.push_back(c); in.push_back(lo); in.push_back(f); in.push_back(m); continue; }
			for (auto &pr : vector<std::pair<const BV *, const BV *>>{{&h, &h}, {&h, &one}, {&z, &h}, {&c, &h}, {&lo, &one}, {&one, &lo}, {&alt, &h}, {&h, &alt}, {&f, &alt}, {&m, &h}, {&h, &m}, {&c, &c}, {&lo, &lo}, {&m, &ones}, {&alt, &lo}}) in.push_back(cat(*pr.first, *pr.second)); }
		list(nm[op], un ? n : 2 * n, [&](vector<Bit> &i, vector<Bit> &out) { put(out, apply(op, sub(i, 0, n), un ? Integer() : sub(i, n, n))); }, in, [&](const BV &v) { return bigref(op, n, v); });
	});
	// public operands: constants built through the API mixed with secrets (every constant of small widths)
	mc::explore("constants", {2, 0, 120}, [&] {
		int n = 1 + mc::pick(5), op = mc::pick(5); mc::note("width %d, %s with every public constant on either side", n, nm[op]);
		for (int64_t c = -(1 << (n - 1)); c < (1 << (n - 1)); ++c) {
			all("const-rhs", n, [&](vector<Bit> &in, vector<Bit> &out) { put(out, apply(op, sub(in, 0, n), Integer(n, c, PUBLIC))); }, [&](uint64_t x, uint64_t &w) { return ref(op, n, x, c & mask(n), w); });
			all("const-lhs", n, [&](vector<Bit> &in, vector<Bit> &out) { put(out, apply(op, Integer(n, c, PUBLIC), sub(in, 0, n))); }, [&](uint64_t x, uint64_t &w) { return ref(op, n, c & mask(n), x, w); });
		}
	});
	mc::explore("modexp-wide", {2, 0, 300}, [&] {     // exponents longer than the base, and wide operands
#ifdef LIGHT
		return;
#endif
		static const vector<std::pair<int, int>> sh{{5, 6}, {5, 8}, {6, 7}, {6, 10}, {7, 9}, {8, 17}, {16, 40}, {33, 8}, {64, 8}, {64, 70}, {65, 66}, {96, 33}, {130, 5}}; auto s = mc::choose(sh); int n = s.first, m = s.second; mc::note("modExp width %d, exponent width %d, alphabet triples", n, m);
		int h = (n - 1) / 2; vector<BV> vb, vq, vp; auto num = [](int n, uint64_t v) { BV r(n); for (int i = 0; i < n && i < 64; ++i) r[i] = v >> i & 1; return r; };
		for (uint64_t v : {0ULL, 1ULL, 2ULL, 3ULL, 7ULL, 10ULL, 65537ULL}) if (h >= 20 || v < (1ULL << h)) vb.push_back(num(n, v)); for (uint64_t v : {2ULL, 3ULL, 4ULL, 7ULL, 11ULL, 13ULL, 251ULL, 65521ULL}) if (h >= 20 || v < (1ULL << h)) vq.push_back(num(n, v)); { BV t(n); for (int i = 0; i < h; ++i) t[i] = true; vb.push_back(t); vq.push_back(t); t[0] = false; t[1] = true; vb.push_back(t); if (h > 1) vq.push_back(t); }
		for (int k = 0; k < m; ++k) { BV t(m); t[k] = true; vp.push_back(t); t[0] = !t[0]; vp.push_back(t); } vp.push_back(BV(m)); vp.push_back(BV(m, true)); { BV t(m); for (int i = 0; i < m; ++i) t[i] = i & 1; vp.push_back(t); t.flip(); vp.push_back(t); }
		if (n > 60 && !mc::thorough) { vb.erase(vb.begin() + 2, vb.begin() + 4); vq.erase(vq.begin() + 1, vq.begin() + 5); } vector<BV> in; for (auto &a : vb) for (auto &b : vq) for (auto &c : vp) in.push_back(cat(cat(a, b), c));
		list("modExp", 2 * n + m, [&](vector<Bit> &i, vector<Bit> &out) { Integer b = sub(i, 0, n), q = sub(i, n, n), p = sub(i, 2 * n, m); put(out, b.modExp(p, q)); }, in, [&](const BV &v) { static BN_CTX *cx = BN_CTX_new(); BIGNUM *b = tobn(part(v, 0, n), false), *q = tobn(part(v, n, n), false), *p = tobn(part(v, 2 * n, m), false), *r = BN_new(); BN_mod_exp(r, b, p, q, cx); BV o = frombn(r, n); BN_free(b); BN_free(q); BN_free(p); BN_free(r); return o; });
	});
	mc::explore("modexp", {3, 0, 300}, [&] {          // base^p mod q, all values whose products fit
		int n = 4 + mc::pick(T(7, 5) == 6 ? 2 : T(7, 5)), m = 1 + mc::pick(mc::thorough ? 5 : 4), sh = mc::pick(4); mc::note("modExp width %d, exponent width %d, part %d/4", n, m, sh);
		all("modExp", 2 * n + m, [&](vector<Bit> &in, vector<Bit> &out) { Integer b = sub(in, 0, n), q = sub(in, n, n), p = sub(in, 2 * n, m); put(out, b.modExp(p, q)); },
			[&](uint64_t x, uint64_t &w) { int64_t b = sx(x, n), q = sx(x >> n, n); uint64_t p = (x >> (2 * n)) & mask(m); int64_t mx = 1LL << (n - 1);
				if (b < 0 || q < 2 || b * b >= mx || (q - 1) * std::max<int64_t>(q - 1, b) >= mx) return false;
				uint64_t r = 1; if (p == 0) r = 1 % q; else for (uint64_t i = 0; i < p; ++i) r = r * b % q; w = r; return true; }, sh, 4);
	});
}
