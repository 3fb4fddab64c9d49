// C11: with THREADING every thread's circuit operations go to its own backend, for every interleaving within the bound.
// Every execution runs in a process of its own; the library is compiled with THREADING and instrumented for the race detector.
#include "mt.h"
#include "keccak.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/circuits/aes_128_ctr.h"
#include <thread>
#include <memory>
using namespace emp; using std::vector; using std::string; using namespace mc;
#define REQ(c, ...) do { sched::Quiet q_; if (!(c)) mc::fail(__VA_ARGS__); } while (0)
static block pack(uint64_t owner, uint64_t id, bool v) { return makeBlock(owner + 100, id * 2 + v); }
// a backend that knows its thread; a scheduling point at every k-th call
struct TEx : CircuitExecution {
	int owner, every; uint64_t id = 2, h = 1, n = 0, ands = 0;
	TEx(int every) : owner(sched::self()), every(every) {}
	void call(const char *what) { REQ(sched::self() == owner, "%s of thread %d was executed by the backend of thread %d", what, sched::self(), owner); if (n++ % every == 0) sched::point(); }
	bool val(const block &b) { uint64_t x[2]; memcpy(x, &b, 16); REQ(x[1] == (uint64_t)owner + 100, "thread %d used a wire label of another session (%lu)", owner, x[1]); h = hmix(h, x[0] / 2); return x[0] & 1; }
	block and_gate(const block &a, const block &b) override { call("an AND gate"); ++ands; bool x = val(a), y = val(b); h = hmix(h, 1); return pack(owner, id++, x & y); }
	block xor_gate(const block &a, const block &b) override { call("an XOR gate"); bool x = val(a), y = val(b); h = hmix(h, 2); return pack(owner, id++, x ^ y); }
	block not_gate(const block &a) override { call("a NOT gate"); bool x = val(a); h = hmix(h, 3); return pack(owner, id++, !x); }
	block public_label(bool b) override { call("a constant"); return pack(owner, b, b); }
	uint64_t num_and() override { return ands; }
};
struct TPr : ProtocolExecution {
	TEx *ex; TPr(TEx *e, int party) : ProtocolExecution(party), ex(e) {}
	void feed(block *l, int, const bool *b, int n) override { ex->call("a feed"); for (int i = 0; i < n; ++i) l[i] = pack(ex->owner, ex->id++, b[i]); }
	void reveal(bool *o, int, const block *l, int n) override { ex->call("a reveal"); for (int i = 0; i < n; ++i) o[i] = ex->val(l[i]); }
};
typedef vector<uint64_t> Res;
// circuits: results revealed, expectation computed natively
struct Prog { const char *name; std::function<Res(int)> run; std::function<Res(int)> want; };
static uint32_t fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static const char *NL = "3 5\n1 2\n1 1\n\n2 1 0 1 2 AND\n1 1 2 3 INV\n2 1 3 0 4 XOR\n";
static const vector<Prog> &small_progs() { static vector<Prog> v{
	{"Bit operators", [](int s) { Bit a(s & 1, ALICE), b(s & 2, BOB); Res r; r.push_back((a & b).reveal<bool>()); r.push_back((a ^ b).reveal<bool>()); r.push_back((a | !b).reveal<bool>()); r.push_back(a.select(b, !a).reveal<bool>()); return r; }, [](int s) { bool a = s & 1, b = s & 2; return Res{(uint64_t)(a & b), (uint64_t)(a ^ b), (uint64_t)(a | !b), (uint64_t)(b ? !a : a)}; }},
	{"Integer +", [](int s) { Integer a(3, s, ALICE), b(3, s + 2, BOB); return Res{(uint64_t)(uint32_t)(a + b).reveal<uint32_t>()}; }, [](int s) { return Res{(uint64_t)((2 * s + 2) & 7)}; }},
	{"Integer * and -", [](int s) { Integer a(2, s, ALICE), b(2, s + 1, BOB); return Res{(uint64_t)(a * b).reveal<uint32_t>(), (uint64_t)(a - b).reveal<uint32_t>()}; }, [](int s) { return Res{(uint64_t)((s & 3) * ((s + 1) & 3) & 3), 3}; }},
	{"Integer comparison and swap", [](int s) { Integer a(3, s & 3, ALICE), b(3, 2, BOB); Bit g = a >= b; swap(g, a, b); Bit e = a == b; return Res{(uint64_t)g.reveal<bool>(), (uint64_t)a.reveal<uint32_t>(), (uint64_t)b.reveal<uint32_t>(), (uint64_t)e.reveal<bool>()}; }, [](int s) { uint64_t a = s & 3, b = 2; bool g = a >= b; return Res{g, g ? b : a, g ? a : b, a == b}; }},
	{"sort", [](int s) { Integer k[2]; int x[2] = {(s + 1) & 1, s & 1}; for (int i = 0; i < 2; ++i) k[i] = Integer(2, x[i], ALICE); sort(k, 2); return Res{(uint64_t)k[0].reveal<uint32_t>(), (uint64_t)k[1].reveal<uint32_t>()}; }, [](int) { return Res{0, 1}; }},
	{"Bristol circuit", [](int s) { FILE *f = fmemopen((void *)NL, strlen(NL), "r"); Res r; { BristolFashion c(f); Bit in[2] = {Bit(s & 1, ALICE), Bit(s & 2, BOB)}, out[1]; c.compute(out, in); r.push_back(out[0].reveal<bool>()); } fclose(f); return r; }, [](int s) { bool a = s & 1, b = s & 2; return Res{(uint64_t)(!(a & b) ^ a)}; }},
	{"Bristol circuit, old format", [](int s) { static const char *t = "3 5\n1 1 1\n\n2 1 0 1 2 AND\n1 1 2 3 INV\n2 1 3 0 4 XOR\n"; FILE *f = fmemopen((void *)t, strlen(t), "r"); Res r; { BristolFormat c(f); Bit a(s & 1, ALICE), b(s & 2, BOB), out[1]; c.compute(out, &a, &b); r.push_back(out[0].reveal<bool>()); } fclose(f); return r; }, [](int s) { bool a = s & 1, b = s & 2; return Res{(uint64_t)(!(a & b) ^ a)}; }},
	{"shift by a secret amount", [](int s) { Integer a(4, 5, ALICE), b(4, s & 3, BOB); return Res{(uint64_t)(a << b).reveal<uint32_t>(), (uint64_t)a.leading_zeros().reveal<uint32_t>()}; }, [](int s) { return Res{(uint64_t)(5 << (s & 3)) & 15, 1}; }},
	{"string and memory reveal", [](int s) { uint16_t m = 0x5a00 + s; Integer a(16, &m, ALICE); string t = a.reveal<string>(); uint16_t o = 0; a.reveal(&o, BOB); Res r{o}; for (char c : t) r.push_back(c); return r; }, [](int s) { uint16_t m = 0x5a00 + s; Res r{m}; for (int i = 0; i < 16; ++i) r.push_back('0' + (m >> i & 1)); return r; }},
}; return v; }
static const vector<Prog> &large_progs() { static vector<Prog> v{
	{"Integer division 8 bits", [](int s) { Integer a(8, 100 - 50 * s, ALICE), b(8, 7, BOB); return Res{(uint64_t)(a / b).reveal<uint32_t>(), (uint64_t)(a % b).reveal<uint32_t>()}; }, [](int s) { int a = 100 - 50 * s; return Res{(uint64_t)(a / 7) & 255, (uint64_t)(a % 7) & 255}; }},
	{"modExp", [](int s) { Integer a(6, 3 + s, ALICE), p(3, 3, BOB), q(6, 5, BOB); return Res{(uint64_t)a.modExp(p, q).reveal<uint32_t>()}; }, [](int s) { int a = 3 + s; return Res{(uint64_t)(a * a * a % 5)}; }},
	{"sort with data", [](int s) { Integer k[5], d[5]; int x[5] = {3, 1, s, 0, 2}; for (int i = 0; i < 5; ++i) { k[i] = Integer(4, x[i], ALICE); d[i] = Integer(4, x[i] + 1, BOB); } sort(k, 5, d); Res r; for (int i = 0; i < 5; ++i) { r.push_back(k[i].reveal<uint32_t>()); r.push_back(d[i].reveal<uint32_t>()); } return r; }, [](int s) { vector<int> x{3, 1, s, 0, 2}; std::sort(x.begin(), x.end()); Res r; for (int i : x) { r.push_back(i); r.push_back(i + 1); } return r; }},
#define FOP(nm, e, n) {nm, [](int s) { float x = 1.5f + s, y = 0.75f; Float a(x, ALICE), b(y, BOB); Float c = e; (void)b; return Res{fb((float)c.reveal<double>())}; }, [](int s) -> Res { float x = 1.5f + s, y = 0.75f; (void)x; (void)y; return Res{fb(n)}; }}
	FOP("Float +", a + b, x + y), FOP("Float -", a - b, x - y), FOP("Float *", a * b, x * y), FOP("Float /", a / b, x / y), FOP("Float sqr", a.sqr(), x * x), FOP("Float sqrt", a.sqrt(), sqrtf(x)),
	{"Float comparisons", [](int s) { Float a(1.5f + s, ALICE), b(2.0f, BOB); return Res{(uint64_t)a.less_than(b).reveal<bool>(), (uint64_t)a.less_equal(b).reveal<bool>(), (uint64_t)a.equal(b).reveal<bool>()}; }, [](int s) { return Res{1.5f + s < 2, 1.5f + s < 2, 0}; }},
#define FTR(nm, e) {nm, [](int s) { Float a(0.25f + s, ALICE); Float c = e; return Res{fb((float)c.reveal<double>())}; }, nullptr}
	FTR("Float sin", a.sin()), FTR("Float cos", a.cos()), FTR("Float exp", a.exp()), FTR("Float exp2", a.exp2()), FTR("Float ln", a.ln()), FTR("Float log2", a.log2()),
	{"AES-CTR", [](int s) { std::unique_ptr<AES_128_CTR_Calculator> c(new AES_128_CTR_Calculator()); vector<block> k(128), out(16); Integer key(128, s, ALICE); for (int j = 0; j < 128; ++j) k[j] = key[j].bit; c->aes_128_ctr(k.data(), makeBlock(1, 2), (block *)nullptr, out.data(), 16); uint64_t r = 0; for (int i = 0; i < 16; ++i) r = r * 2 + Bit(out[i]).reveal<bool>(); return Res{r}; }, nullptr},
}; return v; }
static const Prog sha3{"SHA3", [](int s) { SHA3_256_Calculator *c = new SHA3_256_Calculator; Integer x(8, s, ALICE), y; c->sha3_256(&y, &x); delete c; Res r; for (int i = 0; i < 32; ++i) r.push_back(y[i].reveal<bool>()); return r; }, nullptr};
// ---- sessions
struct Log { Res r; uint64_t h = 0, n = 0; };
static Log session_log(const Prog &p, int s, int every) { Log l; { TEx e(every); TPr q(&e, ALICE); CircuitExecution::circ_exec = &e; ProtocolExecution::prot_exec = &q; sched::point(); l.r = p.run(s); REQ(CircuitExecution::circ_exec == &e && ProtocolExecution::prot_exec == &q, "the backend installed by thread %d was replaced", e.owner); l.h = e.h; l.n = e.n; CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; } return l; }
static string scratch;
static Log session_plain(const Prog &p, int s, bool print) { Log l; string fn = scratch + "." + std::to_string(sched::self()); sched::point(); setup_plain_prot(print, fn); sched::point(); l.r = p.run(s); sched::point(); l.n = CircuitExecution::circ_exec->num_and(); finalize_plain_prot(); if (print) { sched::Quiet q; FILE *f = fopen(fn.c_str(), "r"); if (!f) mc::fail("the circuit of thread %d was not written", sched::self()); int c; while ((c = fgetc(f)) != EOF) l.h = hmix(l.h, c); fclose(f); unlink(fn.c_str()); } return l; }
struct PipeIO : IOChannel<PipeIO> { vector<unsigned char> d; size_t rd = 0; int owner = sched::self(); void send_data_internal(const void *p, size_t n) { REQ(sched::self() == owner, "bytes of thread %d were sent on the channel of thread %d", sched::self(), owner); sched::point(); const unsigned char *c = (const unsigned char *)p; d.insert(d.end(), c, c + n); } void recv_data_internal(void *p, size_t n) { REQ(sched::self() == owner && rd + n <= d.size(), "thread %d receives beyond what was sent to it", sched::self()); sched::point(); memcpy(p, d.data() + rd, n); rd += n; } void flush() {} void sync() {} };
template <template <typename> class G, template <typename> class E> static Log session_gc(int s) {      // garble and evaluate a 2-bit product and comparison
	Log l; std::unique_ptr<PipeIO> io(new PipeIO); std::unique_ptr<G<PipeIO>> g(new G<PipeIO>(io.get())); vector<block> z(4); PRG prg; prg.random_block(z.data(), 4); for (auto &b : z) { uint64_t v[2]; memcpy(v, &b, 16); v[0] &= ~1ULL; b = makeBlock(v[1], v[0]); }
	auto go = [&](const vector<block> &in) { Integer A, B; A.bits.resize(2); B.bits.resize(2); for (int i = 0; i < 2; ++i) { A[i].bit = in[i]; B[i].bit = in[2 + i]; } Integer R = A * B; Bit q = A >= B; vector<block> o; for (auto &t : R.bits) o.push_back(t.bit); o.push_back(q.bit); return o; };
	CircuitExecution::circ_exec = g.get(); sched::point(); vector<block> zo = go(z); std::unique_ptr<E<PipeIO>> e(new E<PipeIO>(io.get())); vector<block> in(z); int a = s & 3, b = (s + 1) & 3; for (int i = 0; i < 4; ++i) if ((i < 2 ? a >> i : b >> (i - 2)) & 1) in[i] = in[i] ^ g->delta;
	CircuitExecution::circ_exec = e.get(); sched::point(); vector<block> eo = go(in); for (size_t i = 0; i < zo.size(); ++i) { block one = zo[i] ^ g->delta; bool is0 = !memcmp(&eo[i], &zo[i], 16), is1 = !memcmp(&eo[i], &one, 16); REQ(is0 || is1, "thread %d: the evaluator holds neither label on output %zu", sched::self(), i); l.r.push_back(is1); } l.n = io->d.size(); CircuitExecution::circ_exec = nullptr; return l;
}
static Res gc_want(int s) { int a = s & 3, b = (s + 1) & 3, p = a * b & 3; auto sx = [](int v) { return v & 2 ? v - 4 : v; }; return Res{(uint64_t)(p & 1), (uint64_t)(p >> 1), (uint64_t)(sx(a) >= sx(b))}; }
// kind 0 logging backend, 1 plain, 2 plain with circuit output, 3 half-gates, 4 privacy-free
static Log session(int kind, const Prog &p, int s, int every) { if (kind == 0) return session_log(p, s, every); if (kind <= 2) return session_plain(p, s, kind == 2); if (kind == 3) return session_gc<HalfGateGen, HalfGateEva>(s); return session_gc<PrivacyFreeGen, PrivacyFreeEva>(s); }
struct Part { int kind; const Prog *p; int s; };
static const char *KN[] = {"logging backend", "plain backend", "plain backend writing a circuit", "half-gates", "privacy-free"};
static void judge(const vector<Part> &ps, const vector<Log> &got, int every) {
	for (size_t i = 0; i < ps.size(); ++i) { const Part &q = ps[i]; Res w; bool have = true; if (q.kind >= 3) w = gc_want(q.s); else if (q.p->want) w = q.p->want(q.s); else have = false;
		if (have) MC_REQUIRE(got[i].r == w, "session %zu computed something else than it does alone", i);
		vector<Log> alone(1); sched::races(false); mt::run([&]() { std::thread t([&]() { alone[0] = session(q.kind, *q.p, q.s, every); }); t.join(); }); sched::races(true); MC_REQUIRE(alone[0].r == got[i].r, "session %zu: its results differ from running alone", i); MC_REQUIRE(alone[0].n == got[i].n && (q.kind == 0 ? alone[0].h == got[i].h : true), "session %zu: its backend saw other gates than when running alone (%lu instead of %lu)", i, got[i].n, alone[0].n); if (q.kind == 2) MC_REQUIRE(alone[0].h == got[i].h, "session %zu: the circuit it wrote differs from the one written alone", i); }
}
static void together(const vector<Part> &ps, bool main_too, int every) {
	for (auto &q : ps) note("[%s: %s, variant %d] ", KN[q.kind], q.kind >= 3 ? "2-bit product and comparison" : q.p->name, q.s); if (main_too) note("(the first on the main thread) ");
	vector<Log> got(ps.size());
	mt::run([&]() { vector<std::thread> t; for (size_t i = main_too; i < ps.size(); ++i) t.emplace_back([&, i]() { got[i] = session(ps[i].kind, *ps[i].p, ps[i].s, every); }); if (main_too) got[0] = session(ps[0].kind, *ps[0].p, ps[0].s, every); for (auto &x : t) x.join(); });
	{ int sd = mc::dev_left; mc::dev_left = 0; judge(ps, got, every); mc::dev_left = sd; } outcome(hmix(ps[0].kind * 7 + ps[1].kind, got[0].h));
}
MC_MAIN("C11") {
	bool T = thorough; const auto &S = small_progs(); const auto &L = large_progs(); int NS = S.size(), NL_ = L.size(); const Opt I2{2, T ? 2 : 1, 60, true};
	{ char b[128]; snprintf(b, sizeof b, "%s.w", mc::errfile.c_str()); scratch = b; at_child.push_back([]() { scratch += std::to_string(mc::worker); }); } keccak_circuit();
	explore("pairs of circuits", {2, T ? 2 : 1, 60, true}, [&]() { int a = pick(NS), b = pick(NS); together({{0, &S[a], 1}, {0, &S[b], 2}}, pick(2), 1); });
	explore("kinds of sessions", {3, T ? 2 : 1, 60, true}, [&]() { sched::delay_bound(true); int a = pick(5), b = pick(5); together({{a, &S[1], 1}, {b, &S[3], 3}}, pick(2), 1); });
	explore("three threads", {3, T ? 2 : 1, 60, true}, [&]() { sched::delay_bound(true); int a = pick(5), b = pick(5), c = T ? pick(5) : pick(3); together({{a, &S[1], 1}, {b, &S[2], 2}, {c, &S[3], 3}}, false, 1); });
	explore("large circuits", {2, 1, 120, true}, [&]() { sched::delay_bound(true); int a = pick(NL_), other = T ? pick(2) : 0; const Prog &p = L[a]; int every = a < 3 ? 16 : a < 10 ? 128 : a < 16 ? 1024 : 3000; together({{0, &p, 0}, {other, &p, 1}}, false, T ? every : every * 4); });
	if (T) explore("sha3", {1, 1, 300, true}, [&]() { sched::delay_bound(true); together({{0, &sha3, 0}, {0, &sha3, 1}}, false, 20000); });
	// a thread changes its backend several times while others run
	explore("changing backends", {3, T ? 2 : 1, 60, true}, [&]() { sched::delay_bound(true); int a = pick(5), b = pick(5), c = pick(3); note("thread 1: %s then %s; thread 2: %s", KN[a], KN[b], KN[c]); vector<Log> g(3); mt::run([&]() { std::thread t([&]() { g[0] = session(a, S[1], 1, 1); g[1] = session(b, S[0], 2, 1); }); g[2] = session(c, S[3], 3, 1); t.join(); }); { int sd = dev_left; dev_left = 0; judge({{a, &S[1], 1}, {b, &S[0], 2}, {c, &S[3], 3}}, g, 1); dev_left = sd; } outcome(a * 25 + b * 5 + c); });
	// the main thread keeps an open session while other threads come and go
	explore("open session", {2, T ? 2 : 1, 60, true}, [&]() { sched::delay_bound(true); int b = pick(5), c = pick(5); note("main thread holds an open session; threads: %s, %s", KN[b], KN[c]); vector<Log> g(2); mt::run([&]() { TEx e(1); TPr q(&e, ALICE); CircuitExecution::circ_exec = &e; ProtocolExecution::prot_exec = &q; Integer a(3, 3, ALICE); std::thread t([&]() { g[0] = session(b, S[1], 1, 1); }), u([&]() { g[1] = session(c, S[3], 2, 1); }); Integer d(3, 4, BOB); Integer r = a + d; t.join(); u.join(); r = r - a; uint32_t v = r.reveal<uint32_t>(); REQ(v == 4, "the open session computed %u instead of 4", v); REQ(CircuitExecution::circ_exec == &e, "the open session lost its backend"); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }); { int sd = dev_left; dev_left = 0; judge({{b, &S[1], 1}, {c, &S[3], 2}}, g, 1); dev_left = sd; } outcome(b * 5 + c); });
}
