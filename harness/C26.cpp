// C26: accuracy of sin, cos, exp, exp2, ln, log2.
#include "sweep.h"
#include <cmath>
using namespace sw; using std::string;
static float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static Float F(const vector<Bit> &v, int o) { Float f; for (int i = 0; i < 32; ++i) f[i] = v[o + i]; return f; }
static const char *NM[6] = {"sin", "cos", "exp", "exp2", "ln", "log2"};
static nl::Net &net(int op) { static std::unique_ptr<nl::Net> n[6]; if (!n[op]) n[op].reset(new nl::Net(nl::extract(32, [&](vector<Bit> &i, vector<Bit> &o) { Float a = F(i, 0), r; switch (op) { case 0: r = a.sin(); break; case 1: r = a.cos(); break; case 2: r = a.exp(); break; case 3: r = a.exp2(); break; case 4: r = a.ln(); break; case 5: r = a.log2(); } for (int k = 0; k < 32; ++k) o.push_back(r[k]); }))); return *n[op]; }
// nullptr if g is an acceptable result for operand u
static bool ok(int op, uint32_t u, uint32_t g, double &y) {
	float x = bf(u), r = bf(g); double d = x; y = 0;
	if (op < 2) {                                   // of pi * x
		if (std::isnan(x) || std::isinf(x)) return std::isnan(r);
		if (std::fabs(d) < 0x1p-40) y = op ? 1 : d * M_PI; else { double t = std::fmod(d, 2.0) * M_PI; y = op ? std::cos(t) : std::sin(t); }
		return std::fabs(r - y) <= 1e-6;
	}
	if (op < 4) {
		if (std::isnan(x)) return true;
		y = op == 2 ? std::exp(d) : std::exp2(d); if (y > 3.4028235677973366e38 * (1 - 1e-6)) return std::isinf(r) && r > 0 || std::fabs(r - y) <= 1e-6 * y;     // at and beyond the largest float
		if (y < 0x1p-126 * (1 + 1e-6)) return r >= 0 && std::fabs(r - y) <= 0x1p-126;                                                                            // tiny results may become zero
		return std::fabs(r - y) <= 1e-6 * y;
	}
	if (u == 0) return g == 0xff800000; if (u == 0x7f800000) return g == 0x7f800000;
	if (u >> 31 || u < 0x00800000 || std::isnan(x)) return true;
	y = op == 4 ? std::log(d) : std::log2(d); return std::fabs(r - y) <= 1e-6 * std::max(1.0, std::fabs(y));
}
static void page(int op, uint64_t base) {
	static int cur = -1; static vector<v4> s; static vector<const v4 *> out; nl::Net &n = net(op); if (cur != op) { MC_REQUIRE(n.out.size() == 32, "result width"); s = n.mk(); out.clear(); for (auto o : n.out) out.push_back(&s[o]); cur = op; }
	nl::slice_range(&s[2], base, 32); n.eval(s.data()); uint64_t r[256]; nl::unslice(out.data(), 32, r);
	for (int i = 0; i < 256; ++i) { uint32_t a = base + i; double y; if (!ok(op, a, r[i], y)) mc::fail("%s(0x%08x = %.9g): got 0x%08x = %.9g, true value %.12g", NM[op], a, bf(a), (uint32_t)r[i], bf(r[i]), y); }
	mc::step(256 * n.gates.size()); mc::points(256);
}
MC_MAIN("C26") {
	for (int op = 0; op < 6; ++op) mc::explore(NM[op], {1, 0, 300}, [&] {
		int e = mc::pick(512); mc::note("%s: sign/exponent 0x%x%s", NM[op], e, mc::thorough ? ", all mantissas" : ""); if (op >= 4 && e >= 256) return;
		for (uint32_t hi = 0; hi < 32768; ++hi) if (mc::thorough || hi % 32 == 5 || hi < 4 || hi >= 32764 || !(hi & (hi - 1)) || !((hi ^ 0x7fff) & ((hi ^ 0x7fff) - 1))) page(op, (uint64_t)e << 23 | hi << 8); });
	mc::explore("critical", {1, 0, 300}, [] {            // dense neighbourhoods of the points where the functions change regime
		int op = mc::pick(6); static const vector<uint32_t> C{0x3f800000, 0x3f000000, 0x40000000, 0x3fc00000, 0x40200000, 0x42b17218, 0xc2aeac50, 0xc2cff1b5, 0x43000000, 0xc2fc0000, 0xc3150000, 0x3f7fff00, 0x3f3504f3, 0x3fb504f3, 0x402df854, 0xbf800000, 0xbf000000, 0xc0000000, 0x41200000, 0x4b800000, 0x4b000000, 0x00800000, 0x7f7fff00, 0x33800000, 0xb3800000}; uint32_t c = mc::choose(C) & ~0xffu; mc::note("%s around 0x%08x", NM[op], c); int w = mc::thorough ? 2000 : 64; for (int k = -w; k <= w; ++k) page(op, (uint32_t)(c + k * 256)); });
	mc::explore("plain backend", {1, 0, 60}, [] { static const vector<uint32_t> V{0, 0x80000000, 0x3f800000, 0xbf000000, 0x3e99999a, 0x40490fdb, 0x41200000, 0xc1200000, 0x42c80000, 0x00800000, 0x7f7fffff, 0x7f800000, 0x358637bd}; uint32_t a = mc::choose(V); int op = mc::pick(6), own = mc::choose(vector<int>{PUBLIC, ALICE, BOB}); mc::note("%s(0x%08x) owner %d", NM[op], a, own); setup_plain_prot(false, ""); { Float x(bf(a), own), r; switch (op) { case 0: r = x.sin(); break; case 1: r = x.cos(); break; case 2: r = x.exp(); break; case 3: r = x.exp2(); break; case 4: r = x.ln(); break; case 5: r = x.log2(); } uint32_t g = 0; for (int i = 0; i < 32; ++i) g |= (uint32_t)r[i].reveal<bool>(PUBLIC) << i; double y; MC_REQUIRE(ok(op, a, g, y), "%s(%.9g): got 0x%08x, true value %.12g", NM[op], bf(a), g, y); } finalize_plain_prot(); mc::step(); mc::points(1); });
}
