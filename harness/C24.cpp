// C24: secret float arithmetic equals IEEE-754 binary32.
#include "sweep.h"
#include <cmath>
using namespace sw; using std::string;
static float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static bool nan32(uint32_t u) { return (u & 0x7fffffff) > 0x7f800000; }
static Float F(const vector<Bit> &v, int o) { Float f; for (int i = 0; i < 32; ++i) f[i] = v[o + i]; return f; }
static void putf(vector<Bit> &o, const Float &f) { for (int i = 0; i < 32; ++i) o.push_back(f[i]); }
typedef uint32_t (*Ref)(uint32_t, uint32_t);
// The binary netlists use the hardware convention without subnormals and NaNs: a subnormal operand is a zero, a NaN operand an infinity of its sign,
// an invalid operation gives +infinity, and a result that is tiny after rounding to 24 bits is a zero of its sign.  Everything else is IEEE-754.
static uint32_t canon(uint32_t u) { uint32_t e = u >> 23 & 255; return e == 0 || e == 255 ? u & 0xff800000 : u; }
static uint32_t fin(double d, float f) { if (std::isnan(f)) return 0x7f800000; if (d != 0 && std::fabs(d) < 0x1p-126 * (1 - 0x1p-25)) return std::signbit(d) ? 0x80000000 : 0; return fb(f); }
__attribute__((noinline)) static uint32_t r_add(uint32_t a, uint32_t b) { float x = bf(canon(a)), y = bf(canon(b)); return fin((double)x + y, x + y); }
__attribute__((noinline)) static uint32_t r_sub(uint32_t a, uint32_t b) { float x = bf(canon(a)), y = bf(canon(b)); return fin((double)x - y, x - y); }
__attribute__((noinline)) static uint32_t r_mul(uint32_t a, uint32_t b) { float x = bf(canon(a)), y = bf(canon(b)); return fin((double)x * y, x * y); }
__attribute__((noinline)) static uint32_t r_div(uint32_t a, uint32_t b) { float x = bf(canon(a)), y = bf(canon(b)); return fin((double)x / y, x / y); }
__attribute__((noinline)) static uint32_t r_sqr(uint32_t a) { float x = bf(a); return fb(x * x); }
static const char *NM[6] = {"+", "-", "*", "/", "sqr", "sqrt"}; static const Ref RF[4] = {r_add, r_sub, r_mul, r_div};
static nl::Net &net(int op) { static std::unique_ptr<nl::Net> n[6]; if (!n[op]) n[op].reset(new nl::Net(nl::extract(op < 4 ? 64 : 32, [&](vector<Bit> &i, vector<Bit> &o) { Float a = F(i, 0); if (op < 4) { Float b = F(i, 32); putf(o, op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b); } else putf(o, op == 4 ? a.sqr() : a.sqrt()); }))); return *n[op]; }
struct Bin {
	nl::Net &n; int op; vector<v4> s; vector<const v4 *> out; uint64_t buf[256]; int k = 0;
	Bin(int op) : n(net(op)), op(op), s(n.mk()) { MC_REQUIRE(n.out.size() == 32, "result has %zu bits", n.out.size()); for (auto o : n.out) out.push_back(&s[o]); }
	void add(uint32_t a, uint32_t b) { buf[k++] = a | (uint64_t)b << 32; if (k == 256) flush(); }
	void flush() {
		if (!k) return; int m = k; while (k < 256) buf[k++] = 0; v4 in[64]; nl::slice(buf, 64, in); for (int i = 0; i < 64; ++i) s[2 + i] = in[i]; n.eval(s.data()); uint64_t r[256]; nl::unslice(out.data(), 32, r);
		for (int i = 0; i < m; ++i) { uint32_t a = buf[i], b = buf[i] >> 32, w = RF[op](a, b), g = r[i]; if (g != w) mc::fail("0x%08x %s 0x%08x (%.9g, %.9g): got 0x%08x (%.9g), IEEE gives 0x%08x (%.9g)", a, NM[op], b, bf(a), bf(b), g, bf(g), w, bf(w)); }
		mc::step((uint64_t)m * n.gates.size()); mc::points(m); k = 0;
	}
};
static const vector<uint32_t> &ma(int size) { static vector<uint32_t> v[3]; if (v[0].empty()) { v[0] = {0, 1, 2, 0x400000, 0x7fffff, 0x7ffffe, 0x3fffff, 0x2aaaaa}; v[1] = v[0]; for (uint32_t x : {3u, 4u, 5u, 7u, 8u, 0x400001u, 0x3ffffeu, 0x555555u, 0x600000u, 0x200000u, 0x7ffff0u, 0x7ff000u, 0x000fffu, 0x001000u, 0x35a5a5u, 0x7fffffu ^ 4u}) v[1].push_back(x); v[2] = v[1]; for (int i = 0; i < 23; ++i) { v[2].push_back(1u << i); v[2].push_back(0x7fffff ^ (1u << i)); v[2].push_back((1u << i) - 1); v[2].push_back(0x7fffff & ~((1u << i) - 1)); v[2].push_back(0x7fffff & (0x123457u * (i + 1))); } for (auto &w : v) { std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); } } return v[size]; }
// one, two and three bits, runs of ones, and mixed patterns: everything that has to survive alignment shifts, guard and sticky bits
static const vector<uint32_t> &rich() { static vector<uint32_t> v; if (v.empty()) { v = ma(2); for (int i = 0; i < 23; ++i) for (int j = i; j < 23; ++j) { v.push_back(1u << i | 1u << j); uint32_t run = ((2u << j) - 1) & ~((1u << i) - 1); v.push_back(run & 0x7fffff); } uint32_t x = 12345; for (int i = 0; i < 60; ++i) { x = x * 1664525u + 1013904223u; v.push_back(x >> 9); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); } return v; }
static const vector<uint32_t> &mixed() { static vector<uint32_t> v; if (v.empty()) { v = rich(); uint64_t x = 88172645463325252ull; for (int i = 0; i < (mc::thorough ? 16000 : 6000); ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v.push_back(x >> 20 & 0x7fffff); } } return v; }
static void unary(int op, uint64_t base) {      // 256 consecutive operands
	static int cur = -1; static vector<v4> s; static vector<const v4 *> out; nl::Net &n = net(op); if (cur != op) { s = n.mk(); out.clear(); for (auto o : n.out) out.push_back(&s[o]); cur = op; }
	nl::slice_range(&s[2], base, 32); n.eval(s.data()); uint64_t r[256]; nl::unslice(out.data(), 32, r);
	for (int i = 0; i < 256; ++i) { uint32_t a = base + i, g = r[i], w = op == 4 ? r_sqr(a) : fb(sqrtf(bf(a))); if (g != w && !(nan32(w) && nan32(g))) mc::fail("%s(0x%08x) (%.9g): got 0x%08x (%.9g), IEEE gives 0x%08x (%.9g)", NM[op], a, bf(a), g, bf(g), w, bf(w)); }
	mc::step(256 * n.gates.size()); mc::points(256);
}
MC_MAIN("C24") {
	for (int op = 0; op < 4; ++op) {
		mc::explore((string("exponents ") + NM[op]).c_str(), {1, 0, 300}, [&] { int e = mc::pick(512); mc::note("first operand sign/exponent 0x%x against every sign/exponent", e); Bin b(op); const auto &m = ma(mc::thorough ? 2 : 1); for (uint32_t f = 0; f < 512; ++f) for (uint32_t x : m) for (uint32_t y : m) b.add((uint32_t)e << 23 | x, f << 23 | y); b.flush(); });
		mc::explore((string("mantissas ") + NM[op]).c_str(), {1, 0, 300}, [&] {     // rich mantissa alphabet at exponents around alignment, underflow and overflow limits
			static const vector<int> ex{0, 1, 2, 24, 63, 64, 102, 103, 104, 105, 110, 125, 126, 127, 128, 129, 130, 149, 150, 151, 152, 190, 191, 253, 254, 255}; int e = mc::choose(ex), sg = mc::pick(2); mc::note("first exponent %d, signs %d", e, sg); Bin b(op); const auto &m = ma(2); for (int f : ex) for (uint32_t x : m) for (uint32_t y : m) b.add((uint32_t)e << 23 | x, (uint32_t)f << 23 | y | (sg ? 0x80000000 : 0)); b.flush(); });
		if (op < 2) mc::explore((string("alignment ") + NM[op]).c_str(), {1, 0, 300}, [&] {      // every exponent distance, both signs, rich patterns on both sides
			int d = mc::pick(57) - 28, sg = mc::pick(2), pt = mc::pick(4); mc::note("exponent distance %d, signs %s", d, sg ? "differ" : "equal"); Bin b(op); const auto &m = rich(); uint32_t e = 127, f = 127 + d; for (size_t i = pt; i < m.size(); i += 4) for (uint32_t y : m) b.add(e << 23 | m[i], f << 23 | y | (sg ? 0x80000000 : 0)); b.flush(); });
		mc::explore((string("patterns ") + NM[op]).c_str(), {1, 0, 300}, [&] {      // all pairs of several thousand mantissas
			static const uint32_t X[4][2] = {{127, 127}, {127, 383}, {128, 125}, {70, 190}}; int k = mc::pick(4), pt = mc::pick(16); mc::note("sign/exponents %u and %u, mantissas %d mod 16", X[k][0], X[k][1], pt); Bin b(op); const auto &m = mixed(); for (size_t i = pt; i < m.size(); i += 16) for (uint32_t y : m) b.add(X[k][0] << 23 | m[i], X[k][1] << 23 | y); b.flush(); });
		mc::explore((string("full mantissa ") + NM[op]).c_str(), {1, 0, 600}, [&] { int hi = mc::pick(256), ci = mc::pick(6); static const uint32_t other[6] = {0x3f800001, 0x3fffffff, 0xbf2aaaaa, 0x3f400003, 0x40000000, 0x00000001}; mc::note("all first mantissas with top byte 0x%x against 0x%08x", hi, other[ci]); Bin b(op); for (uint32_t lo = 0; lo < 32768; ++lo) { b.add(0x3f800000 | hi << 15 | lo, other[ci]); b.add(other[ci], 0x3f800000 | hi << 15 | lo); } b.flush(); });
	}
	for (int op = 4; op < 6; ++op)
		if (!mc::thorough) mc::explore((string(NM[op]) + " operands").c_str(), {1, 0, 300}, [&] { int e = mc::pick(512); mc::note("%s: sign/exponent 0x%x, every fourth group of 256 mantissas", NM[op], e); const auto &m = ma(2); uint32_t last = ~0u; for (uint32_t hi = 0; hi < 32768; ++hi) { bool in = hi % 4 == 0 || hi < 32 || hi >= 32736; for (uint32_t x : m) if ((x >> 8) == hi) in = true; if (in) unary(op, (uint64_t)e << 23 | hi << 8); } (void)last; });
		else mc::explore((string(NM[op]) + " all operands").c_str(), {1, 0, 300}, [&] { int e = mc::pick(512); mc::note("%s: sign/exponent 0x%x, all mantissas", NM[op], e); for (uint32_t hi = 0; hi < 32768; ++hi) unary(op, (uint64_t)e << 23 | hi << 8); });
	mc::explore("plain backend", {1, 0, 60}, [] {        // the values the plain backend reveals, operands of either owner
		static const vector<uint32_t> V{0, 0x80000000, 1, 0x007fffff, 0x00800000, 0x3f800000, 0xbf800001, 0x40490fdb, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x3eaaaaab}; uint32_t a = mc::choose(V), b = mc::choose(V); mc::note("0x%08x, 0x%08x", a, b); setup_plain_prot(false, ""); { Float x(bf(a), ALICE), y(bf(b), BOB); for (int op = 0; op < 6; ++op) { Float r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : op == 4 ? x.sqr() : x.sqrt(); uint32_t g = 0; for (int i = 0; i < 32; ++i) g |= (uint32_t)r[i].reveal<bool>(PUBLIC) << i; uint32_t w = op < 4 ? RF[op](a, b) : op == 4 ? r_sqr(a) : fb(sqrtf(bf(a))); MC_REQUIRE(g == w || (nan32(g) && nan32(w)), "%s: got 0x%08x expected 0x%08x", NM[op], g, w); mc::step(); } for (int i = 0; i < 32; ++i) MC_REQUIRE(x[i].reveal<bool>(PUBLIC) == (a >> i & 1) && y[i].reveal<bool>(PUBLIC) == (b >> i & 1), "operand changed"); } finalize_plain_prot(); mc::points(1); });
}
