// C25: float comparison, sign, selection, bitwise operators, conversion.
#include "sweep.h"
#include <cmath>
using namespace sw; using std::string;
static float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t canon(uint32_t u) { uint32_t e = u >> 23 & 255; return e == 0 || e == 255 ? u & 0xff800000 : u; }
static Float F(const vector<Bit> &v, int o) { Float f; for (int i = 0; i < 32; ++i) f[i] = v[o + i]; return f; }
static void putf(vector<Bit> &o, const Float &f) { for (int i = 0; i < 32; ++i) o.push_back(f[i]); }
static nl::Net &net(int op) { static std::unique_ptr<nl::Net> n[3]; if (!n[op]) n[op].reset(new nl::Net(nl::extract(64, [&](vector<Bit> &i, vector<Bit> &o) { Float a = F(i, 0), b = F(i, 32); o.push_back(op == 0 ? a.equal(b) : op == 1 ? a.less_equal(b) : a.less_than(b)); }))); return *n[op]; }
static const char *NM[3] = {"equal", "less_equal", "less_than"};
struct Cmp {
	nl::Net *n[3]; vector<v4> s[3]; uint64_t buf[256]; int k = 0;
	Cmp() { for (int i = 0; i < 3; ++i) { n[i] = &net(i); s[i] = n[i]->mk(); } }
	void add(uint32_t a, uint32_t b) { buf[k++] = a | (uint64_t)b << 32; if (k == 256) flush(); }
	void flush() {
		if (!k) return; int m = k; while (k < 256) buf[k++] = 0; v4 in[64]; nl::slice(buf, 64, in);
		for (int o = 0; o < 3; ++o) { for (int i = 0; i < 64; ++i) s[o][2 + i] = in[i]; n[o]->eval(s[o].data()); v4 r = s[o][n[o]->out[0]]; for (int i = 0; i < m; ++i) { float x = bf(canon((uint32_t)buf[i])), y = bf(canon(buf[i] >> 32)); bool w = o == 0 ? x == y : o == 1 ? x <= y : x < y, g = r[i / 64] >> (i % 64) & 1; if (g != w) mc::fail("0x%08x %s 0x%08x (%.9g, %.9g): got %d", (uint32_t)buf[i], NM[o], (uint32_t)(buf[i] >> 32), x, y, g); } mc::step((uint64_t)m * n[o]->gates.size()); }
		mc::points(m); k = 0;
	}
};
static const vector<uint32_t> &ma() { static vector<uint32_t> v; if (v.empty()) { v = {0, 1, 2, 3, 0x400000, 0x400001, 0x3fffff, 0x7fffff, 0x7ffffe, 0x2aaaaa, 0x555555}; for (int i = 2; i < 22; ++i) { v.push_back(1u << i); if (mc::thorough) { v.push_back(0x7fffff ^ (1u << i)); v.push_back((1u << i) - 1); } } } return v; }
static const vector<uint32_t> &rich() { static vector<uint32_t> v; if (v.empty()) { v = ma(); for (int i = 0; i < 23; ++i) for (int j = i; j < 23; ++j) { v.push_back(1u << i | 1u << j); v.push_back(((2u << j) - 1) & ~((1u << i) - 1) & 0x7fffff); v.push_back(0x7fffff ^ (1u << i | 1u << j)); } uint32_t x = 12345; for (int i = 0; i < 60; ++i) { x = x * 1664525u + 1013904223u; v.push_back(x >> 9); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); } return v; }
static const vector<uint32_t> SV{0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x80800000, 0x3f800000, 0xbf800000, 0x3fc00000, 0x40490fdb, 0xc0490fdb, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x42f6e979, 0x4b7fffff, 0x4b800001, 0x3dcccccd, 0x358637bd, 0x33d6bf95, 0xcf000000, 0x5f000000, 0x12345678, 0x89abcdef};
static uint32_t raw(const Float &f) { uint32_t r = 0; for (int i = 0; i < 32; ++i) r |= (uint32_t)f[i].reveal<bool>(PUBLIC) << i; return r; }
MC_MAIN("C25") {
	mc::explore("compare", {1, 0, 300}, [] { int e = mc::pick(512); mc::note("sign/exponent 0x%x against every sign/exponent", e); Cmp c; const auto &m = ma(); for (uint32_t f = 0; f < 512; ++f) for (uint32_t x : m) for (uint32_t y : m) if (mc::thorough || (f & 255) == (e & 255u) || x < 4 || y < 4 || x == y) c.add((uint32_t)e << 23 | x, f << 23 | y); c.flush(); });
	mc::explore("patterns", {1, 0, 300}, [] {      // one and two bits, runs of ones and mixed patterns against each other
		static const vector<uint32_t> ex{0, 1, 2, 100, 126, 127, 128, 254, 255}; int i0 = mc::pick((int)ex.size()), dd = mc::pick(3) - 1, sg = mc::pick(4); uint32_t e = ex[i0]; int f = (int)e + dd; if (f < 0 || f > 255) return; mc::note("exponents %u and %d, signs %d", e, f, sg); Cmp c; const auto &m = rich(); uint32_t hi = e << 23 | (sg & 1 ? 0x80000000 : 0), hj = (uint32_t)f << 23 | (sg & 2 ? 0x80000000 : 0); for (uint32_t x : m) for (uint32_t y : m) c.add(hi | x, hj | y); c.flush(); });
	mc::explore("neighbours", {1, 0, 300}, [] { int e = mc::pick(512), t = mc::pick(3); mc::note("sign/exponent 0x%x: every mantissa against the next", e); Cmp c; for (uint32_t x = 0; x < (1u << 23); x += mc::thorough ? 1 : 61) { uint32_t a = (uint32_t)e << 23 | x; c.add(a, t == 0 ? a : t == 1 ? a + 1 : a ^ 0x80000000); } c.flush(); });
	mc::explore("bitflip", {1, 0, 300}, [] { uint32_t a = mc::choose(SV); mc::note("0x%08x against every value at distance one and two bits", a); Cmp c; for (int i = 0; i < 32; ++i) for (int j = 0; j < 32; ++j) { uint32_t b = a ^ (1u << i) ^ (i == j ? 0 : 1u << j); c.add(a, b); c.add(b, a); } c.flush(); });
	// negation, abs, selection, swap, bitwise: which input bit reaches which output bit, for all values: evaluate on all one/two-hot patterns
	mc::explore("bitwise", {1, 0, 60}, [] {
		int op = mc::pick(9); static const char *N[9] = {"neg", "abs", "^", "^=", "&", "If member", "If function", "swap", "copy/assign/index"}; mc::note("%s", N[op]); vector<BV> in; for (uint32_t a : SV) for (uint32_t b : SV) for (int s = 0; s < 2; ++s) in.push_back(cat(cat(bv(32, a), bv(32, b)), BV(1, s))); for (int i = 0; i < 65; ++i) for (int j = 0; j <= i; ++j) { BV v(65, false); v[i] = v[j] = true; in.push_back(v); v.flip(); in.push_back(v); }
		sw::list(N[op], 65, [&](vector<Bit> &i, vector<Bit> &o) { Float a = F(i, 0), b = F(i, 32); Bit s = i[64]; switch (op) { case 0: putf(o, -a); break; case 1: putf(o, a.abs()); break; case 2: putf(o, a ^ b); break; case 3: { Float r = (a ^= b); putf(o, a); putf(o, r); break; } case 4: putf(o, a & b); break; case 5: putf(o, a.If(s, b)); break; case 6: putf(o, If(s, a, b)); break; case 7: { Float x(a), y(b); swap(s, x, y); putf(o, x); putf(o, y); break; } case 8: { Float x(a), y; y = b; Float z(std::move(x)); z[3] = y[31]; const Float &cz = z; putf(o, cz); putf(o, y); if (a.size() != 32) mc::fail("size() is %zu", a.size()); } } if (op != 3) { putf(o, a); } putf(o, b); },
			in, [&](const BV &v) { BV a = part(v, 0, 32), b = part(v, 32, 32), r; bool s = v[64]; switch (op) { case 0: r = a; r[31] = !a[31]; break; case 1: r = a; r[31] = false; break; case 2: case 3: r = a; for (int i = 0; i < 32; ++i) r[i] = a[i] ^ b[i]; if (op == 3) r = cat(r, r); break; case 4: r = a; for (int i = 0; i < 32; ++i) r[i] = a[i] & b[i]; break; case 5: r = s ? b : a; break; case 6: r = s ? a : b; break; case 7: r = s ? cat(b, a) : cat(a, b); break; case 8: r = a; r[3] = b[31]; r = cat(r, b); } if (op != 3) r = cat(r, a); return cat(r, b); }); });
	mc::explore("feed-reveal", {1, 0, 60}, [] {          // every exponent, sign and mantissa bit; every owner and recipient
		int hi = mc::pick(512), own = mc::choose(vector<int>{PUBLIC, ALICE, BOB}), to = mc::choose(vector<int>{PUBLIC, ALICE, BOB}); mc::note("sign/exponent 0x%x owner %d revealed to %d", hi, own, to); setup_plain_prot(false, ""); { vector<uint32_t> m = ma(); for (uint32_t x : m) { uint32_t u = (uint32_t)hi << 23 | x; float f = bf(u); Float a(f, own); uint32_t g = 0; for (int i = 0; i < 32; ++i) g |= (uint32_t)a[i].reveal<bool>(to) << i; MC_REQUIRE(g == u, "bits of 0x%08x come back as 0x%08x", u, g); double d = a.reveal<double>(to), w = (double)f; MC_REQUIRE(memcmp(&d, &w, 8) == 0 || (std::isnan(d) && std::isnan(w)), "0x%08x revealed as double %.17g", u, d); string s = a.reveal<string>(to); MC_REQUIRE(s == std::to_string(f) || (std::isnan(f) && (s == "nan" || s == "-nan")), "0x%08x revealed as string %s", u, s.c_str()); mc::step(); mc::points(1); } } finalize_plain_prot(); });
	mc::explore("plain compare", {1, 0, 60}, [] { uint32_t a = mc::choose(SV), b = mc::choose(SV); mc::note("0x%08x 0x%08x", a, b); setup_plain_prot(false, ""); { Float x(bf(a), ALICE), y(bf(b), BOB); float p = bf(canon(a)), q = bf(canon(b)); MC_REQUIRE(x.equal(y).reveal<bool>(PUBLIC) == (p == q), "equal"); MC_REQUIRE(x.less_equal(y).reveal<bool>(PUBLIC) == (p <= q), "less_equal"); MC_REQUIRE(x.less_than(y).reveal<bool>(PUBLIC) == (p < q), "less_than"); MC_REQUIRE(raw(x) == a && raw(y) == b && raw(-x) == (a ^ 0x80000000) && raw(y.abs()) == (b & 0x7fffffff), "sign operations"); } finalize_plain_prot(); mc::step(3); mc::points(1); });
}
