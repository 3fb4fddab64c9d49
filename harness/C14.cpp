// C14: bytes per gate and AND counts.
#include "gc.h"
using namespace gc;
template <class S> static void both(const Prog &p, size_t &setup0) {
	Exec<S> x(7); if (!setup0) setup0 = x.setup; MC_REQUIRE(x.setup == setup0 && x.tape.rd == x.setup, "%s: set-up traffic varies (%zu, %zu bytes)", S::name(), x.setup, setup0); x.inputs(p.nin, 1, 2);
	MC_REQUIRE(x.gen->num_and() == 0 && x.eva->num_and() == 0, "%s: AND count before any gate is %lu / %lu", S::name(), x.gen->num_and(), x.eva->num_and());
	vector<block> gw = x.z; if (p.consts) { gw.push_back(x.gen->public_label(false)); gw.push_back(x.gen->public_label(true)); } size_t n = 0, at = x.tape.d.size(); uint64_t c0 = x.gio.counter;
	for (auto &g : p.g) { size_t before = x.tape.d.size(); gw.push_back(g.op == 0 ? x.gen->and_gate(gw[g.a], gw[g.b]) : g.op == 1 ? x.gen->xor_gate(gw[g.a], gw[g.b]) : x.gen->not_gate(gw[g.a])); n += g.op == 0; MC_REQUIRE(g.op == 0 || x.tape.d.size() == before, "%s: a %s gate sends %zu bytes", S::name(), g.op == 1 ? "XOR" : "NOT", x.tape.d.size() - before); MC_REQUIRE(x.gen->num_and() == n, "%s generator: %zu AND gates executed, counter says %lu", S::name(), n, x.gen->num_and()); mc::step(); }
	MC_REQUIRE(x.tape.d.size() - at == n * 16 * S::per_and, "%s: %zu bytes sent for %zu AND gates", S::name(), x.tape.d.size() - at, n); MC_REQUIRE(x.gio.counter - c0 == n * 16 * S::per_and, "%s: channel counter shows %lu bytes for %zu AND gates", S::name(), x.gio.counter - c0, n);
	vector<block> ew = x.z; if (p.consts) { ew.push_back(x.eva->public_label(false)); ew.push_back(x.eva->public_label(true)); } n = 0;
	for (auto &g : p.g) { ew.push_back(g.op == 0 ? x.eva->and_gate(ew[g.a], ew[g.b]) : g.op == 1 ? x.eva->xor_gate(ew[g.a], ew[g.b]) : x.eva->not_gate(ew[g.a])); n += g.op == 0; MC_REQUIRE(x.eva->num_and() == n, "%s evaluator: %zu AND gates executed, counter says %lu", S::name(), n, x.eva->num_and()); mc::step(); }
	MC_REQUIRE(x.tape.rd == x.tape.d.size() && x.eio.counter == 0, "%s evaluator: consumed %zu of %zu bytes, sent %lu", S::name(), x.tape.rd, x.tape.d.size(), x.eio.counter);
}
static void plain(const Prog &p) {
	setup_plain_prot(false, ""); CircuitExecution *c = CircuitExecution::circ_exec; bool in[4] = {1, 0, 1, 1}; block l[4]; ProtocolExecution::prot_exec->feed(l, ALICE, in, p.nin); vector<block> w(l, l + p.nin); vector<char> pub(p.nin, 0); if (p.consts) { w.push_back(c->public_label(false)); w.push_back(c->public_label(true)); pub.push_back(1); pub.push_back(2); } uint64_t n = 0; MC_REQUIRE(c->num_and() == 0, "plain: AND count before any gate");
	// an AND with a public operand is computed without a gate; what is public follows from the public values alone (1 = public 0, 2 = public 1)
	for (auto &g : p.g) { char r = 0; char a = pub[g.a], b = g.op == 2 ? 0 : pub[g.b]; if (g.op == 0) { if (!a && !b) ++n; if (a == 1 || b == 1) r = 1; else if (a == 2) r = b; else if (b == 2) r = a; } else if (g.op == 1) { if (a && b) r = a == b ? 1 : 2; } else if (a) r = 3 - a; pub.push_back(r); w.push_back(g.op == 0 ? c->and_gate(w[g.a], w[g.b]) : g.op == 1 ? c->xor_gate(w[g.a], w[g.b]) : c->not_gate(w[g.a])); MC_REQUIRE(c->num_and() == n, "plain: %lu AND gates on private operands executed, counter says %lu", n, c->num_and()); mc::step(); }
	finalize_plain_prot();
}
// so many gates that a 32-bit counter would wrap
struct Sink : IOChannel<Sink> { uint64_t n = 0; void send_data_internal(const void *, size_t l) { n += l; } void recv_data_internal(void *p, size_t l) { memset(p, 0x5a, l); n += l; } void flush() { } };
template <class F> static void count(const char *nm, CircuitExecution *c, F traffic, size_t per, block a, block b, uint64_t N) {
	uint64_t t0 = traffic(); time_t start = time(nullptr); for (uint64_t i = 0, step = 1 << 20; i < N;) { uint64_t e = std::min(N, i + step); if (e < N && e >= (1ull << 31) - 2) for (int k = 31; k <= 32; ++k) if (i < (1ull << k) - 1 && e > (1ull << k) - 1) e = (1ull << k) - 1; else if (i >= (1ull << k) - 1 && i < (1ull << k) + 3) e = i + 1;
		for (; i < e; ++i) a = c->and_gate(a, b);
		mc::me->beat++; mc::me->trans += 1; MC_REQUIRE(c->num_and() == i, "%s: the counter says %lu after %lu AND gates", nm, c->num_and(), i); MC_REQUIRE(traffic() - t0 == i * 16 * per, "%s: %lu bytes for %lu AND gates", nm, traffic() - t0, i);
		if (!mc::thorough && time(nullptr) - start > 250) { fprintf(stderr, "%s: slow machine, stopped after %lu gates\n", nm, i); N = i; } }
	mc::points(N); mc::outcome(mc::hbytes(nm, strlen(nm)));
}
static void billions(int k, uint64_t N) {
	block a = makeBlock(1, 3), b = makeBlock(5, 6); Sink io; auto tr = [&] { return io.n; };
	if (k == 0) { HalfGateGen<Sink> g(&io); count("half-gates generator", &g, tr, 2, a, b, N); } else if (k == 1) { HalfGateEva<Sink> g(&io); count("half-gates evaluator", &g, tr, 2, a, b, N); }
	else if (k == 2) { PrivacyFreeGen<Sink> g(&io); count("privacy-free generator", &g, tr, 1, a, b, N); } else if (k == 3) { PrivacyFreeEva<Sink> g(&io); count("privacy-free evaluator", &g, tr, 1, a, b, N); }
	else { setup_plain_prot(false, ""); bool in[2] = {1, 1}; block l[2]; ProtocolExecution::prot_exec->feed(l, ALICE, in, 2); count("plain", CircuitExecution::circ_exec, [] { return (uint64_t)0; }, 0, l[0], l[1], N); finalize_plain_prot(); }
}
MC_MAIN("C14") {
	static size_t s1 = 0, s2 = 0;
	mc::explore("sequences", {2, 0, 60}, [] { Prog p{2, {}, true}; int G = mc::thorough ? 4 : 3; for (int i = 0; i < G; ++i) pick_gate(p); mc::note("%s", show(p).c_str()); both<HG>(p, s1); both<PF>(p, s2); plain(p); mc::points(1); });
	mc::explore("long", {1, 0, 60}, [] { int shape = mc::pick(5); int n = mc::thorough ? 1500000 : 70000; mc::note("shape %d, %d gates", shape, n); Prog p{2, {}, true}; int last = 0; for (int i = 0; i < n; ++i) { int w = 4 + (int)p.g.size(); bool andg = shape == 0 || (shape == 1 && i % 2) || (shape == 2 && i % 3 == 0) || (shape == 3 && i % 9 < 5) || (shape == 4 && i % 17 != 0); p.g.push_back({andg ? 0 : 1 + i % 2, last, shape == 3 ? i % 4 : 1}); last = w; } both<HG>(p, s1); both<PF>(p, s2); plain(p); mc::points(n); });
	mc::explore("billions", {1, 0, 120}, [] { int k = mc::pick(5); uint64_t N = (mc::thorough || k == 4 ? 1ull << 32 : 1ull << 31) + 2000000; mc::note("backend %d, %lu AND gates", k, N); billions(k, N); });
}
