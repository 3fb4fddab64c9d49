// C15: basic secrecy of the garbling: offset fresh, LSB 1, not in the span of what the evaluator sees; no tweak reuse.
#include "gc.h"
using namespace gc;
template <class S> static void secrecy(const Prog &p, unsigned in, unsigned col, uint64_t seed, bool span) {
	Exec<S> x(seed); x.inputs(p.nin, col, seed + 1); block d = x.gen->delta; MC_REQUIRE(((unsigned char *)&d)[0] & 1, "%s: the global difference has least significant bit 0", S::name());
	x.garble(p); x.eval(p, in); vector<char> v = clear(p, in);
	for (size_t i = 0; i < v.size(); ++i) { block other = v[i] ? x.gw[i] : bx(x.gw[i], d); MC_REQUIRE(!eq(x.ew[i], other), "%s: on wire %zu the evaluator holds the label of the other value", S::name(), i); }
	MC_REQUIRE(x.tape.d.size() % 16 == 0, "%s: transcript is not whole blocks", S::name()); vector<block> t(x.tape.d.size() / 16); memcpy(t.data(), x.tape.d.data(), x.tape.d.size());
	// tables of different gates never repeat (a repeated tweak or key on equal operands would show as equal blocks)
	for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < i; ++j) MC_REQUIRE(!eq(t[i], t[j]), "%s: transmitted blocks %zu and %zu are equal", S::name(), j, i);
	if (!span) return;
	Span s; for (size_t i = 0; i < t.size(); ++i) MC_REQUIRE(s.add(t[i]), "%s: transmitted block %zu is an XOR of earlier ones", S::name(), i);
	for (auto &e : x.ew) s.add(e);
	block q = d; MC_REQUIRE(!s.reduce(q), "%s: the global difference is an XOR of transmitted blocks and evaluator labels", S::name());
	mc::step();
}
// the same gate n times: no block is ever sent twice, and the evaluator stays in step
template <class S> static void longrun(int kind, size_t n, unsigned in) {
	Exec<S> x(5 + kind); x.inputs(2, in, 77 + kind); block a = x.z[0], b = kind == 0 ? x.z[1] : kind == 1 ? x.z[0] : x.gen->public_label(true), d = x.gen->delta; vector<uint64_t> seen; seen.reserve(2 * n); Tape &t = x.tape;
	block ea = (in & 1) ? bx(a, d) : a, eb = kind == 0 ? ((in & 2) ? bx(b, d) : b) : kind == 1 ? ea : x.eva->public_label(true); bool v = (in & 1) && (kind == 0 ? (in >> 1 & 1) : kind == 1 ? (in & 1) : 1);
	for (size_t i = 0; i < n; ++i) {
		t.d.clear(); t.rd = 0; block w = x.gen->and_gate(a, b); for (size_t k = 0; k + 16 <= t.d.size(); k += 16) { uint64_t h[2]; memcpy(h, t.d.data() + k, 16); seen.push_back(h[0] ^ h[1] * 0x9e3779b97f4a7c15ULL); }
		block e = x.eva->and_gate(ea, eb); MC_REQUIRE(eq(e, v ? bx(w, d) : w), "%s: gate %zu of the run: the evaluator does not hold the label of the true value", S::name(), i);
		if (i % 4096 == 0) mc::step();
	}
	std::sort(seen.begin(), seen.end()); MC_REQUIRE(std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "%s: two of %zu AND gates on the same operands sent the same block: a hash key or tweak was used again", S::name(), n); mc::points(1); mc::outcome(S::per_and * 8 + kind);
}
// far into a session (where the gate index can be set): gates around every power of two and at the start never share a block
template <class G> static auto jump(G &g, uint64_t to, int) -> decltype((void)(g.mitccrh.renew_ks(to)), true) { g.mitccrh.renew_ks(to); return true; }
template <class G> static auto jump(G &g, uint64_t to, long) -> decltype((void)(g.gid = to), true) { g.gid = to; return true; }
template <class G> static bool jump(G &, uint64_t, ...) { return false; }
template <class S> static void farruns(int kind, unsigned in) {
	Exec<S> x(5 + kind); x.inputs(2, in, 177 + kind); block a = x.z[0], b = kind ? x.z[0] : x.z[1], d = x.gen->delta; block ea = (in & 1) ? bx(a, d) : a, eb = kind ? ea : (in & 2) ? bx(b, d) : b; bool v = (in & 1) && (kind || (in >> 1 & 1)); vector<std::pair<string, uint64_t>> seen;
	for (int k = 7; k <= 61; ++k) { uint64_t base = k == 7 ? 0 : (1ULL << k) - 16; if (!jump(*x.gen, base, 0) || !jump(*x.eva, base, 0)) return;
		for (int i = 0; i < 40; ++i) { x.tape.d.clear(); x.tape.rd = 0; block w = x.gen->and_gate(a, b); seen.push_back({hex(x.tape.d.data(), 16), base + i}); block e = x.eva->and_gate(ea, eb); MC_REQUIRE(eq(e, v ? bx(w, d) : w), "%s: near gate index %llu the evaluator does not hold the label of the true value", S::name(), (unsigned long long)base); if (k == 7 && i >= 24) break; } mc::step(); }
	std::sort(seen.begin(), seen.end()); for (size_t i = 1; i < seen.size(); ++i) MC_REQUIRE(seen[i].first != seen[i - 1].first, "%s: AND gates near index %llu and %llu on the same operands sent the same block", S::name(), (unsigned long long)seen[i - 1].second, (unsigned long long)seen[i].second); mc::points(1);
}
MC_MAIN("C15") {
	mc::explore("long runs", {3, 0, 120}, [] { int kind = mc::pick(3); unsigned in = mc::pick(4); bool pf = mc::pick(2); mc::note("long run of gate kind %d, input %u", kind, in); size_t n = mc::thorough ? (1 << 24) : (1 << 20) + 200; if (pf) longrun<PF>(kind, n, in); else longrun<HG>(kind, n, in); });
	mc::explore("far into a session", {3, 0, 60}, [] { int kind = mc::pick(2); unsigned in = mc::pick(4); bool pf = mc::pick(2); mc::note("far runs of gate kind %d, input %u", kind, in); if (pf) farruns<PF>(kind, in); else farruns<HG>(kind, in); });
	mc::explore("circuits", {2, 0, 60}, [] {
		Prog p{2, {}, true}; int G = mc::thorough ? 4 : 3; for (int i = 0; i < G; ++i) pick_gate(p); mc::note("%s ", show(p).c_str()); uint64_t h = mc::hbytes(p.g.data(), p.g.size() * sizeof(Gate));
		for (unsigned in = 0; in < 4; ++in) { secrecy<HG>(p, in, (in ^ h) & 3, 1 + h % 8, true); secrecy<PF>(p, in, 0, 1 + h % 8, true); } mc::points(1); });
	mc::explore("colours", {2, 0, 60}, [] { Prog p{2, {}, true}; pick_gate(p); pick_gate(p); mc::note("%s", show(p).c_str()); for (unsigned col = 0; col < 4; ++col) for (unsigned in = 0; in < 4; ++in) for (int seed = 0; seed < 4; ++seed) { secrecy<HG>(p, in, col, seed + 30, true); if (!col) secrecy<PF>(p, in, 0, seed + 30, true); } mc::points(1); });
	// the same gate over and over: fresh tables across every rekeying boundary, full rank while it fits
	mc::explore("repeated", {1, 0, 60}, [] { int n = 1 + mc::pick(mc::thorough ? 400 : 120), k = mc::pick(4), in = mc::pick(4); mc::note("%d repetitions of gate kind %d", n, k); Prog p{2, {}, true}; for (int i = 0; i < n; ++i) { if (k == 3) p.g.push_back({1, 0, 1}); p.g.push_back({0, k == 1 ? 0 : k == 2 ? i % 2 : 0, k == 1 ? 0 : k == 2 ? 1 - i % 2 : k == 3 ? 3 : 1}); } secrecy<HG>(p, in, in, 9, 2 * n + 3 <= 60); secrecy<PF>(p, in, 0, 9, n + 2 <= 60); mc::points(1); });
	// generators in one process: offsets, start points and constants all fresh, every bit of the offset varies
	mc::explore("fresh", {1, 0, 60}, [] { int m = mc::pick(4); mc::note("mode %d", m); vector<string> ds, blocks; uint64_t or_[2] = {0, 0}, and_[2] = {~0ULL, ~0ULL}; const int N = 128;
		auto one = [&](auto tag, bool real) { typedef decltype(tag) S; Exec<S> x(1); if (real) { env_on = false; x.gen.reset(); x.tape.d.clear(); x.tape.rd = 0; x.gen.reset(new typename S::Gen(&x.gio)); } uint64_t v[2]; memcpy(v, &x.gen->delta, 16); for (int k = 0; k < 2; ++k) { or_[k] |= v[k]; and_[k] &= v[k]; } MC_REQUIRE(v[0] & 1, "%s: least significant bit of the offset is 0", S::name()); ds.push_back(hex(x.gen->delta)); for (size_t i = 0; i + 16 <= x.tape.d.size(); i += 16) blocks.push_back(hex(&x.tape.d[i], 16)); mc::step(); };
		for (int i = 0; i < N; ++i) { if (m == 0) one(HG(), true); else if (m == 1) one(PF(), true); else if (m == 2) { entropy(i + 1); Tape t; TapeIO io(&t); HG::Gen g(&io); uint64_t v[2]; memcpy(v, &g.delta, 16); for (int k = 0; k < 2; ++k) { or_[k] |= v[k]; and_[k] &= v[k]; } ds.push_back(hex(g.delta)); } else { entropy(i + 1); Tape t; TapeIO io(&t); PF::Gen g(&io); uint64_t v[2]; memcpy(v, &g.delta, 16); for (int k = 0; k < 2; ++k) { or_[k] |= v[k]; and_[k] &= v[k]; } ds.push_back(hex(g.delta)); } }
		std::sort(ds.begin(), ds.end()); MC_REQUIRE(std::unique(ds.begin(), ds.end()) == ds.end(), "two generators use the same global difference"); std::sort(blocks.begin(), blocks.end()); MC_REQUIRE(std::unique(blocks.begin(), blocks.end()) == blocks.end(), "two generators sent the same set-up block");
		MC_REQUIRE(or_[0] == ~0ULL && or_[1] == ~0ULL && and_[0] == 1 && and_[1] == 0, "some bit of the global difference never varies (or %016lx%016lx and %016lx%016lx)", or_[1], or_[0], and_[1], and_[0]); mc::points(N); });
}
