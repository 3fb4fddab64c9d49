// C17: emitted circuit files compute the traced program.
#include "prog.h"
#include <fstream>
#include <sstream>
using namespace emp; using namespace pr;
struct Parsed { long ng, nw, n1, n2, n3; struct G { int nin; long a, b, o; string op; }; vector<G> g; string err; };
static Parsed parse(const string &file) {               // strict, independent of the library's loader
	Parsed r; std::ifstream f(file); std::stringstream ss; ss << f.rdbuf(); if (!(ss >> r.ng >> r.nw >> r.n1 >> r.n2 >> r.n3)) { r.err = "no header"; return r; } long defd = r.n1 + r.n2; vector<char> def(r.nw > 0 && r.nw < 100000000 ? r.nw : 0, 0); for (long i = 0; i < defd && i < (long)def.size(); ++i) def[i] = 1;
	for (long i = 0; i < r.ng; ++i) { Parsed::G g; int no; if (!(ss >> g.nin >> no)) { r.err = "fewer gates than the header says"; return r; } if (no != 1 || (g.nin != 1 && g.nin != 2)) { r.err = "bad arity"; return r; } g.b = 0; ss >> g.a; if (g.nin == 2) ss >> g.b; ss >> g.o >> g.op; auto ok = [&](long x) { return x >= 0 && x < (long)def.size() && def[x]; }; if (!ok(g.a) || (g.nin == 2 && !ok(g.b))) { r.err = "gate reads an undefined wire"; return r; } if (g.o < 0 || g.o >= (long)def.size() || def[g.o]) { r.err = "gate output wire out of range or assigned twice"; return r; } def[g.o] = 1; if ((g.nin == 2) != (g.op == "AND" || g.op == "XOR")) { r.err = "bad gate name"; return r; } r.g.push_back(g); }
	string rest; if (ss >> rest) r.err = "more gates than the header says"; for (char d : def) if (!d) r.err = "a wire is never assigned"; return r;
}
static vector<char> peval(const Parsed &p, const vector<char> &in) { vector<char> w(p.nw); for (size_t i = 0; i < in.size(); ++i) w[i] = in[i]; for (auto &g : p.g) w[g.o] = g.nin == 1 ? !w[g.a] : g.op == "AND" ? (w[g.a] & w[g.b]) : (w[g.a] ^ w[g.b]); return vector<char>(w.end() - p.n3, w.end()); }
static string slurp(const string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void check_file(const string &file, int n1, int n2, const std::function<vector<char>(unsigned)> &expect, int n3, bool all) {
	Parsed q = parse(file); MC_REQUIRE(q.err.empty(), "emitted file is malformed: %s\n%s", q.err.c_str(), slurp(file).substr(0, 600).c_str()); MC_REQUIRE(q.n1 == n1 && q.n2 == n2 && q.n3 == n3, "header declares %ld+%ld inputs and %ld outputs, the program has %d+%d and %d", q.n1, q.n2, q.n3, n1, n2, n3);
	BristolFormat cf(file.c_str()); MC_REQUIRE(cf.n1 == n1 && cf.n2 == n2 && cf.n3 == n3 && cf.num_gate == q.ng && cf.num_wire == q.nw, "the loader reads sizes %d %d %d %d %d", cf.num_gate, cf.num_wire, cf.n1, cf.n2, cf.n3);
	setup_plain_prot(false, "");
	for (unsigned in = 0; in < (1u << (n1 + n2)); ++in) { vector<char> iv; for (int i = 0; i < n1 + n2; ++i) iv.push_back(in >> i & 1); vector<char> e = expect(in), r = peval(q, iv); for (int i = 0; i < n3; ++i) MC_REQUIRE(r[i] == e[i], "on input %x the program's output %d is %d, the emitted file computes %d", in, i, e[i], r[i]); vector<Bit> b; for (char c : iv) b.push_back(Bit(c, ALICE)); vector<Bit> o(n3); cf.compute(o.data(), b.data(), b.data() + n1); for (int i = 0; i < n3; ++i) MC_REQUIRE(o[i].reveal<bool>() == (bool)e[i], "on input %x output %d of the reloaded circuit is not the program's %d", in, i, e[i]); mc::step(); }
	finalize_plain_prot();
}
static string fname() { static string s = "emit." + std::to_string(getpid()) + ".txt"; return s; }
static string emit(const Prog &p, unsigned in, const vector<int> &grp) {     // grp: how reveals are grouped / which type of feed
	setup_plain_prot(true, fname()); vector<Bit> b; if (grp[0]) { block l[8]; bool v[8]; for (int i = 0; i < p.n1; ++i) v[i] = in >> i & 1; ProtocolExecution::prot_exec->feed(l, ALICE, v, p.n1); for (int i = 0; i < p.n1; ++i) b.push_back(Bit(l[i])); for (int i = 0; i < p.n2; ++i) v[i] = in >> (p.n1 + i) & 1; ProtocolExecution::prot_exec->feed(l, BOB, v, p.n2); for (int i = 0; i < p.n2; ++i) b.push_back(Bit(l[i])); } else { for (int i = 0; i < p.n1 + p.n2; ++i) b.push_back(Bit(in >> i & 1, i < p.n1 ? ALICE : BOB)); }
	vector<Bit> w = run(p, b); vector<char> v = clear(p, in); for (int o : p.out) MC_REQUIRE(w[o].reveal<bool>(grp[1]) == (bool)v[o], "value revealed while printing is wrong"); finalize_plain_prot(); return slurp(fname());
}
MC_MAIN("C17") {
	mc::explore("programs", {2, 0, 60}, [] {
		Prog p; int s = mc::pick(3); p.n1 = s == 2 ? 2 : 1; p.n2 = s == 0 ? 1 : 0; if (s == 1) p.n2 = 0; int G = mc::thorough ? (s == 1 ? 3 : 2) : (s == 1 ? 2 : 1); G = mc::pick(G + 1); for (int i = 0; i < G; ++i) pick_gate(p); int no = 1 + mc::pick(mc::thorough ? 3 : 2); for (int i = 0; i < no; ++i) p.out.push_back(mc::pick(p.nw())); mc::note("%s", show(p).c_str());
		uint64_t h = mc::hbytes(p.g.data(), p.g.size() * sizeof(Gate), p.out[0]); string a = emit(p, 0, {(int)(h & 1), ALICE}), b = emit(p, (1u << (p.n1 + p.n2)) - 1, {(int)(h & 1), PUBLIC}); MC_REQUIRE(a == b, "the emitted file depends on the private inputs"); check_file(fname(), p.n1, p.n2, [&](unsigned in) { vector<char> v = clear(p, in), r; for (int o : p.out) r.push_back(v[o]); return r; }, (int)p.out.size(), true); mc::points(1); unlink(fname().c_str());
	});
	mc::explore("deeper", {2, 0, 60}, [] {             // all 3-gate programs on two inputs, last wire and the first input revealed
		Prog p; p.n1 = 1; p.n2 = 1; int G = 3; for (int i = 0; i < G; ++i) pick_gate(p); p.out = {p.nw() - 1, 0, p.nw() - 1}; mc::note("%s", show(p).c_str()); emit(p, 2, {1, BOB}); check_file(fname(), 1, 1, [&](unsigned in) { vector<char> v = clear(p, in), r; for (int o : p.out) r.push_back(v[o]); return r; }, 3, true); mc::points(1); unlink(fname().c_str());
	});
	mc::explore("integers", {1, 0, 60}, [] {           // Integer programs through the usual interface, reveals between computations
		int w = 1 + mc::pick(mc::thorough ? 4 : 3), op = mc::pick(9), rec = mc::choose(std::vector<int>{PUBLIC, ALICE, BOB}); mc::note("width %d op %d", w, op); auto prog = [&](unsigned in, bool print) { int a = in & ((1 << w) - 1), b = in >> w; Integer A(w, a, ALICE), B(w, b, BOB); vector<char> r; auto rv = [&](const Integer &x) { string s = x.reveal<string>(rec); for (int i = 0; i < x.size(); ++i) r.push_back(s[i] == '1'); }; if (op == 0) rv(A + B); else if (op == 1) { rv(A - B); rv(B - A); } else if (op == 2) rv(A * B); else if (op == 3) { rv(A); rv(A ^ B); rv(B); } else if (op == 4) r.push_back((A > B).reveal<bool>(rec)); else if (op == 5) { rv(A + Integer(w, 1, PUBLIC)); r.push_back((A == B).reveal<bool>(rec)); } else if (op == 6) rv(Integer(w, 5, PUBLIC) ^ Integer(w, 2, PUBLIC)); else if (op == 7) { rv(A << 1); rv(A.select(B[0], B)); } else rv(A.resize(w + 2)); return r; };
		vector<vector<char>> exp; int n3 = 0; for (unsigned in = 0; in < (1u << (2 * w)); ++in) { setup_plain_prot(false, ""); exp.push_back(prog(in, false)); n3 = (int)exp.back().size(); finalize_plain_prot(); } setup_plain_prot(true, fname()); prog(1, true); finalize_plain_prot(); check_file(fname(), w, w, [&](unsigned in) { return exp[in]; }, n3, true); mc::points(1); unlink(fname().c_str());
	});
	mc::explore("headers", {1, 0, 120}, [] {           // sizes whose decimal lengths differ: every header field from 1 to 7 digits
		struct H { int n1, n2, ng, n3; }; static const vector<H> hs{{1, 1, 1200000, 1}, {100000, 1, 5, 2}, {1, 100000, 5, 2}, {100000, 100000, 1100000, 100000}, {999999, 1, 1, 1}, {10, 10, 99980, 10}, {10, 10, 99979, 10}, {99999, 2, 3, 99999}, {1000, 1000, 1000000, 1000}, {12345, 6789, 100, 10000}}; const H h = mc::choose(hs); mc::note("%d+%d inputs, %d gates, %d reveals", h.n1, h.n2, h.ng, h.n3);
		auto bitv = [](uint64_t i, uint64_t s) { uint64_t z = i * 0x9E3779B97F4A7C15ULL + s * 77777; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; return (z >> 40) & 1; };
		auto go = [&](int seed, vector<char> *iv) { vector<Bit> w; auto feed = [&](int n, int party, int off) { bool *v = new bool[n]; block *l = (block *)aligned_alloc(16, n * sizeof(block)); for (int i = 0; i < n; ++i) { v[i] = bitv(i + off, seed); if (iv) iv->push_back(v[i]); } ProtocolExecution::prot_exec->feed(l, party, v, n); for (int i = 0; i < n; ++i) w.push_back(Bit(l[i])); delete[] v; free(l); }; feed(h.n1, ALICE, 0); feed(h.n2, BOB, h.n1);
			for (int i = 0; i < h.ng; ++i) { size_t s = w.size(); const Bit &x = w[s - 1], &y = w[(i * 7919ULL) % s]; Bit r = i % 3 == 0 ? (x & y) : i % 3 == 1 ? (x ^ y) : !x; w.push_back(r); } vector<char> o; for (int i = 0; i < h.n3; ++i) o.push_back(w[w.size() - 1 - (i * 31ULL) % w.size()].reveal<bool>(PUBLIC)); return o; };
		setup_plain_prot(true, fname()); vector<char> got = go(1, nullptr); finalize_plain_prot(); Parsed q = parse(fname()); MC_REQUIRE(q.err.empty(), "emitted file is malformed: %s\n%s", q.err.c_str(), slurp(fname()).substr(0, 200).c_str()); MC_REQUIRE(q.n1 == h.n1 && q.n2 == h.n2 && q.n3 == h.n3, "header declares %ld+%ld inputs and %ld outputs", q.n1, q.n2, q.n3); BristolFormat cf(fname().c_str());
		for (int seed : {1, 2, 3}) { setup_plain_prot(false, ""); vector<char> iv, e = go(seed, &iv), r = peval(q, iv); MC_REQUIRE(r == e, "the emitted file computes different outputs than the program"); vector<Bit> b; for (char c : iv) b.push_back(Bit(c, ALICE)); vector<Bit> o(h.n3); cf.compute(o.data(), b.data(), b.data() + h.n1); for (int i = 0; i < h.n3; ++i) MC_REQUIRE(o[i].reveal<bool>() == (bool)e[i], "output %d of the reloaded circuit differs", i); finalize_plain_prot(); mc::step(h.ng); } mc::points(1); unlink(fname().c_str());
	});
	mc::explore("sizes", {1, 0, 60}, [] {              // large programs: numbering and header room
		int n = mc::choose(std::vector<int>{1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 5000}), mode = mc::pick(3); mc::note("%d gates mode %d", n, mode); Prog p; p.n1 = 1; p.n2 = 1; for (int i = 0; i < n; ++i) { int w = p.nw(); p.g.push_back({mode == 2 ? i % 3 : mode, w - 1, i % 2}); } p.out = {p.nw() - 1, p.nw() / 2, 0, 2, 3}; emit(p, 1, {1, PUBLIC}); check_file(fname(), 1, 1, [&](unsigned in) { vector<char> v = clear(p, in), r; for (int o : p.out) r.push_back(v[o]); return r; }, 5, true); mc::points(1); unlink(fname().c_str());
	});
}
