// Shared machinery for the garbling properties: an in-memory channel, deterministic entropy, gate programs.
#pragma once
#include "mc.h"
#include "ref.h"
#include <memory>
namespace gc {
using namespace emp; using ref::eq; using ref::bx; using ref::blk; using ref::hex; using std::vector; using std::string;
// ---- entropy under the explorer's control (link with --wrap=_ZNSt13random_device9_M_getvalEv)
static bool env_on = false; static uint64_t env_state = 1;
extern "C" unsigned int __real__ZNSt13random_device9_M_getvalEv(void *);
extern "C" unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void *self) { return env_on ? (uint32_t)ref::sm(env_state) : __real__ZNSt13random_device9_M_getvalEv(self); }
inline void entropy(uint64_t s) { env_on = true; env_state = s * 0x12345677 + 99; }

struct Tape { vector<unsigned char> d; size_t rd = 0; bool under = false; };
struct TapeIO : public IOChannel<TapeIO> {
	Tape *t; TapeIO(Tape *t) : t(t) {}
	void send_data_internal(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; t->d.insert(t->d.end(), c, c + n); }
	void recv_data_internal(void *p, size_t n) { MC_REQUIRE(t->rd + n <= t->d.size(), "the evaluator wants %zu bytes beyond the %zu the generator sent", t->rd + n - t->d.size(), t->d.size()); memcpy(p, t->d.data() + t->rd, n); t->rd += n; }
	void flush() {}
	void sync() {}
};
struct Gate { int op, a, b; };                 // 0 AND, 1 XOR, 2 NOT
struct Prog { int nin; vector<Gate> g; bool consts; };   // wires: inputs, then (if consts) public 0 and 1, then gates
inline string show(const Prog &p) { string s = std::to_string(p.nin) + " inputs" + (p.consts ? "+consts" : "") + ":"; int w = p.nin + (p.consts ? 2 : 0); for (auto &g : p.g) { char b[64]; if (g.op == 2) snprintf(b, 64, " w%d=NOT w%d", w++, g.a); else snprintf(b, 64, " w%d=w%d %s w%d", w++, g.a, g.op ? "XOR" : "AND", g.b); s += b; } return s; }
inline vector<char> clear(const Prog &p, unsigned in) { vector<char> v; for (int i = 0; i < p.nin; ++i) v.push_back(in >> i & 1); if (p.consts) { v.push_back(0); v.push_back(1); } for (auto &g : p.g) v.push_back(g.op == 0 ? v[g.a] & v[g.b] : g.op == 1 ? v[g.a] ^ v[g.b] : !v[g.a]); return v; }
inline vector<block> run(CircuitExecution *c, const Prog &p, const vector<block> &in) { vector<block> w(in); if (p.consts) { w.push_back(c->public_label(false)); w.push_back(c->public_label(true)); } for (auto &g : p.g) { block r = g.op == 0 ? c->and_gate(w[g.a], w[g.b]) : g.op == 1 ? c->xor_gate(w[g.a], w[g.b]) : c->not_gate(w[g.a]); w.push_back(r); } return w; }
inline int ands(const Prog &p) { int n = 0; for (auto &g : p.g) n += g.op == 0; return n; }
// one more gate chosen among all gates over all existing wires (XOR/AND unordered when sym)
inline void pick_gate(Prog &p) {
	int w = p.nin + (p.consts ? 2 : 0) + (int)p.g.size(); int k = mc::pick(2 * w * w + w); Gate g; if (k < 2 * w * w) { g.op = k / (w * w); g.a = k % (w * w) / w; g.b = k % w; } else { g.op = 2; g.a = k - 2 * w * w; g.b = 0; } p.g.push_back(g);
}
struct HG { typedef HalfGateGen<TapeIO> Gen; typedef HalfGateEva<TapeIO> Eva; enum { per_and = 2, lsb_value = 0 }; static const char *name() { return "half-gates"; } };
struct PF { typedef PrivacyFreeGen<TapeIO> Gen; typedef PrivacyFreeEva<TapeIO> Eva; enum { per_and = 1, lsb_value = 1 }; static const char *name() { return "privacy-free"; } };
// one garbled execution, generator first, then evaluator on the recorded bytes
template <class S> struct Exec {
	Tape tape; TapeIO gio, eio; std::unique_ptr<typename S::Gen> gen; std::unique_ptr<typename S::Eva> eva; size_t setup = 0; vector<block> z, gw, ew;
	Exec(uint64_t seed) : gio(&tape), eio(&tape) { entropy(seed); gen.reset(new typename S::Gen(&gio)); setup = tape.d.size(); eva.reset(new typename S::Eva(&eio)); }
	// zero labels of the inputs; colours choose their least significant bits where the scheme leaves them free
	void inputs(int n, unsigned colours, uint64_t seed) { z.clear(); for (int i = 0; i < n; ++i) { block b = ref::pat(seed * 1000 + i + 1); uint64_t v[2]; memcpy(v, &b, 16); v[0] &= ~1ULL; if (!S::lsb_value) v[0] |= colours >> i & 1; z.push_back(blk(v[1], v[0])); } }
	void garble(const Prog &p) { gw = run(gen.get(), p, z); mc::step(p.g.size()); }
	void eval(const Prog &p, unsigned in) { vector<block> e; for (int i = 0; i < p.nin; ++i) e.push_back((in >> i & 1) ? bx(z[i], gen->delta) : z[i]); ew = run(eva.get(), p, e); mc::step(p.g.size()); }
	void check(const Prog &p, unsigned in) {
		vector<char> v = clear(p, in);
		for (size_t i = 0; i < v.size(); ++i) { block e = v[i] ? bx(gw[i], gen->delta) : gw[i]; MC_REQUIRE(eq(ew[i], e), "wire %zu carries %d on input %x but the evaluator holds %s (zero label %s, offset %s)", i, v[i], in, hex(ew[i]).c_str(), hex(gw[i]).c_str(), hex(gen->delta).c_str());
			if (S::lsb_value) MC_REQUIRE((((unsigned char *)&ew[i])[0] & 1) == v[i], "wire %zu carries %d on input %x but the evaluator's label shows %d", i, v[i], in, v[i] ^ 1); }
		MC_REQUIRE(tape.rd == tape.d.size(), "the evaluator consumed %zu of the %zu bytes the generator sent", tape.rd, tape.d.size());
	}
};
// rank / span over GF(2)
struct Span { vector<block> b; // reduced
	static int top(const block &x) { uint64_t v[2]; memcpy(v, &x, 16); if (v[1]) return 127 - __builtin_clzll(v[1]); if (v[0]) return 63 - __builtin_clzll(v[0]); return -1; }
	block piv[128]; bool has[128]; Span() { memset(has, 0, sizeof has); }
	bool reduce(block &x) { int t; while ((t = top(x)) >= 0 && has[t]) x = bx(x, piv[t]); return t < 0; }     // true: x was in the span
	bool add(block x) { if (reduce(x)) return false; int t = top(x); piv[t] = x; has[t] = true; return true; }
};
template <class S> inline void correctness() {
	// every circuit of up to G gates over two inputs and the public constants, every input, both colour choices of inputs and constants
	mc::explore("circuits", {2, 0, 60}, [] {
		Prog p{2, {}, true}; int G = mc::thorough ? 4 : 3; for (int i = 0; i < G; ++i) pick_gate(p); mc::note("%s ", show(p).c_str()); uint64_t h = mc::hbytes(p.g.data(), p.g.size() * sizeof(Gate));
		for (unsigned in = 0; in < 4; ++in) { unsigned col = (in ^ (unsigned)(h >> 7)) & 3; Exec<S> x(h % 16); x.inputs(2, col, 1 + h % 7); x.garble(p); x.eval(p, in); x.check(p, in); }
		mc::points(1);
	});
	// all two-gate circuits on three inputs with every colour combination and several entropy seeds (colours of the constants)
	mc::explore("colours", {2, 0, 60}, [] {
		Prog p{3, {}, true}; pick_gate(p); pick_gate(p); unsigned col = S::lsb_value ? 0 : mc::pick(8); int seed = mc::pick(8); mc::note("%s colours %u seed %d ", show(p).c_str(), col, seed); for (unsigned in = 0; in < 8; in += 1 + (seed & 1)) { Exec<S> x(seed + 20); x.inputs(3, col, 3); x.garble(p); x.eval(p, in); x.check(p, in); } mc::points(1);
	});
	// gate counts crossing every batching/rekeying boundary, several circuit shapes
	mc::explore("lengths", {2, 0, 120}, [] {
		int n = mc::pick(mc::thorough ? 300 : 70), shape = mc::pick(6), in = mc::pick(4), seed = mc::pick(2); mc::note("%d AND gates shape %d input %d", n, shape, in); Prog p{2, {}, true}; int last = 0, prev = 1;
		for (int i = 0; i < n; ++i) { int w = p.nin + 2 + (int)p.g.size(); switch (shape) { case 0: p.g.push_back({0, 0, 1}); break; case 1: p.g.push_back({0, last, 1}); last = w; break; case 2: p.g.push_back({0, last, prev}); prev = last; last = w; break;
			case 3: p.g.push_back({0, last, 3}); p.g.push_back({1, w, 1}); last = w + 1; break; case 4: p.g.push_back({0, last, last}); p.g.push_back({2, w, 0}); p.g.push_back({1, w + 1, 0}); last = w + 2; break; default: p.g.push_back({2, last, 0}); p.g.push_back({0, w, prev}); prev = last; last = w + 1; } }
		Exec<S> x(seed + 50); x.inputs(2, seed * 3, 9); x.garble(p); x.eval(p, in); x.check(p, in); mc::points(1);
	});
	mc::explore("long", {1, 0, 120}, [] { int in = mc::pick(4); int n = mc::thorough ? 200000 : 30000; mc::note("%d AND gates", n); Prog p{2, {}, true}; int last = 0; for (int i = 0; i < n; ++i) { int w = p.nin + 2 + (int)p.g.size(); p.g.push_back({0, last, i % 3 == 0 ? 1 : 3}); p.g.push_back({1, w, i % 2}); last = w + 1; } Exec<S> x(in + 60); x.inputs(2, in, 4); x.garble(p); mc::beat(); x.eval(p, in); x.check(p, in); mc::points(1); });
	// sessions of millions of gates, both parties in step, every label compared
	mc::explore("streams", {1, 0, 600}, [] {
		int shape = mc::pick(3), in = mc::pick(4);
#ifdef LIGHT
		long n = 1 << 14;
#else
		long n = mc::thorough ? (1L << 26) + 300 : (1L << 20) + 300;
#endif
		mc::note("%ld gates, shape %d, input %d", n, shape, in); Exec<S> x(in + 90); x.inputs(2, in, 8); block D = x.gen->delta; block g[4], e[4]; char v[4]; for (int i = 0; i < 4; ++i) { v[i] = i < 2 ? in >> i & 1 : i - 2; g[i] = i < 2 ? x.z[i] : x.gen->public_label(i - 2); e[i] = i < 2 ? (v[i] ? bx(g[i], D) : g[i]) : x.eva->public_label(i - 2); }
		for (long i = 0; i < n; ++i) { int a = shape == 0 ? 0 : i % 3, b = shape == 2 ? (i * 7 + (i >> 5)) % 4 : 1 + i % 2, to = shape == 0 ? (int)(i % 2) : (int)(i % 3 == 0), op = shape == 0 ? 0 : shape == 1 ? (i % 4 == 3 ? 1 : 0) : (i % 5 == 4 ? 2 : i % 5 == 2 ? 1 : 0); block gg, ee; char vv;
			if (op == 0) { gg = x.gen->and_gate(g[a], g[b]); ee = x.eva->and_gate(e[a], e[b]); vv = v[a] & v[b]; } else if (op == 1) { gg = x.gen->xor_gate(g[a], g[b]); ee = x.eva->xor_gate(e[a], e[b]); vv = v[a] ^ v[b]; } else { gg = x.gen->not_gate(g[a]); ee = x.eva->not_gate(e[a]); vv = !v[a]; }
			if (!eq(ee, vv ? bx(gg, D) : gg) || (S::lsb_value && (((unsigned char *)&ee)[0] & 1) != vv)) mc::fail("gate %ld of the session: the value is %d but the evaluator holds another label", i, vv);
			if (x.tape.rd != x.tape.d.size()) mc::fail("gate %ld: the evaluator consumed %zu of %zu bytes", i, x.tape.rd, x.tape.d.size()); if ((i & 0xfff) == 0) { x.tape.d.clear(); x.tape.rd = 0; }
			int k = to; g[k] = gg; e[k] = ee; v[k] = vv; if ((i & 15) == 9) { block t = ref::pat(i); ((unsigned char *)&t)[0] &= ~1; g[k] = bx(g[k], t); if (S::lsb_value) ((unsigned char *)&g[k])[0] &= ~1; v[k] = i >> 4 & 1; e[k] = v[k] ? bx(g[k], D) : g[k]; if ((i & 0xfffff) == 9) mc::beat(); } }
		mc::step(n); mc::points(1); });
	// a global difference chosen by the protocol (any value), set any number of times, before and between gates
	mc::explore("set_delta", {2, 0, 60}, [] {
		static const vector<block> ds{blk(0, 0), blk(~0ULL, ~0ULL), blk(0, 1), blk(1, 0), ref::pat(3), ref::pat(4)}; int times = mc::pick(3); Exec<S> x(70); vector<block> given; for (int i = 0; i < times; ++i) { block d = mc::choose(ds); mc::note("set_delta(%s) ", hex(d).c_str()); x.gen->set_delta(d); given.push_back(d); x.eva->set_delta(); }
		MC_REQUIRE(((unsigned char *)&x.gen->delta)[0] & 1, "the global difference has least significant bit 0"); if (times) { block e = given.back(); ((unsigned char *)&e)[0] |= 1; MC_REQUIRE(eq(x.gen->delta, e), "set_delta(%s) installed %s", hex(given.back()).c_str(), hex(x.gen->delta).c_str()); }
		Prog p{2, {}, true}; pick_gate(p); mc::note("%s", show(p).c_str()); p.g.push_back({0, 4, 3}); p.g.push_back({2, 5, 0}); p.g.push_back({0, 6, 2}); p.g.push_back({1, 7, 3}); x.inputs(2, times, 5); size_t start = x.tape.rd; for (unsigned in = 0; in < 4; ++in) { Exec<S> y(70); for (auto &d : given) { y.gen->set_delta(d); y.eva->set_delta(); } y.inputs(2, times, 5); y.garble(p); y.eval(p, in); y.check(p, in); } (void)start; mc::points(1);
	});
	// whole Integer operations through the circuit library, every value
	mc::explore("integers", {2, 0, 60}, [] {
		int w = mc::thorough ? 4 : 3, op = mc::pick(12); unsigned a = mc::pick(1 << w), b = mc::pick(1 << w); mc::note("op %d on %u,%u width %d", op, a, b, w);
		Exec<S> x(80 + op); x.inputs(2 * w, 0x2d5, 6); auto go = [&](CircuitExecution *c, const vector<block> &in) { CircuitExecution *o = CircuitExecution::circ_exec; CircuitExecution::circ_exec = c; vector<block> r; { Integer A, B; A.bits.resize(w); B.bits.resize(w); for (int i = 0; i < w; ++i) { A[i].bit = in[i]; B[i].bit = in[w + i]; } Integer R; Bit q; bool one = false; switch (op) { case 0: R = A + B; break; case 1: R = A - B; break; case 2: R = A * B; break; case 3: R = A / B; break; case 4: R = A % B; break; case 5: q = A > B; one = true; break; case 6: q = A == B; one = true; break; case 7: R = A << B; break; case 8: R = A.abs(); break; case 9: R = A.select(B[0], B); break; case 10: R = A.hamming_weight(); break; default: R = -A; } if (one) r.push_back(q.bit); else for (auto &t : R.bits) r.push_back(t.bit); } CircuitExecution::circ_exec = o; return r; };
		vector<block> g = go(x.gen.get(), x.z), ein; for (int i = 0; i < 2 * w; ++i) ein.push_back(((i < w ? a >> i : b >> (i - w)) & 1) ? bx(x.z[i], x.gen->delta) : x.z[i]); vector<block> e = go(x.eva.get(), ein); MC_REQUIRE(x.tape.rd == x.tape.d.size(), "the evaluator consumed %zu of %zu bytes", x.tape.rd, x.tape.d.size());
		auto sx = [&](unsigned v) { return (v >> (w - 1) & 1) ? (int)v - (1 << w) : (int)v; }; int A = sx(a), B = sx(b); if ((op == 3 || op == 4) && B == 0) return; if (op == 7 && (B < 0)) return; long r; bool one = false; switch (op) { case 0: r = A + B; break; case 1: r = A - B; break; case 2: r = A * B; break; case 3: r = A / B; break; case 4: r = A % B; break; case 5: r = A > B; one = true; break; case 6: r = A == B; one = true; break; case 7: r = B >= w ? 0 : (int)(a << B); if (B >= w) return; break; case 8: r = A < 0 ? -A : A; break; case 9: r = (b & 1) ? b : a; break; case 10: r = __builtin_popcount(a); break; default: r = -A; }
		for (size_t i = 0; i < g.size(); ++i) { bool v = r >> i & 1; if (one && i) break; if (op == 10 && i >= 8 * sizeof(long)) break; MC_REQUIRE(eq(e[i], v ? bx(g[i], x.gen->delta) : g[i]), "output bit %zu should be %d but the evaluator holds another label", i, v); } mc::step(); mc::points(1);
	});
}
}
