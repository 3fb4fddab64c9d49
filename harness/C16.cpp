// C16: the plain backend computes the cleartext meaning of any program.
#include "prog.h"
using namespace emp; using namespace pr;
static const int OWN[3] = {ALICE, BOB, PUBLIC}, REC[4] = {PUBLIC, ALICE, BOB, XOR};
MC_MAIN("C16") {
	mc::explore("programs", {2, 0, 60}, [] {          // every program, every input, every owner assignment
		Prog p; p.n1 = 2; int G = mc::thorough ? 4 : 3; for (int i = 0; i < G; ++i) pick_gate(p); mc::note("%s ", show(p).c_str()); uint64_t h = mc::hbytes(p.g.data(), p.g.size() * sizeof(Gate));
		for (int own = 0; own < 9; ++own) for (unsigned in = 0; in < 4; ++in) {
			setup_plain_prot(false, ""); vector<Bit> b{Bit(in & 1, OWN[own % 3]), Bit(in >> 1 & 1, OWN[own / 3])}; vector<Bit> w = run(p, b); vector<char> v = clear(p, in);
			for (size_t i = 0; i < w.size(); ++i) { int rec = REC[(i + in + h) % 4]; bool r = w[i].reveal<bool>(rec); MC_REQUIRE(r == (bool)v[i], "wire %zu is %d, revealed %d (inputs %u, owners %d,%d, recipient %d)", i, v[i], r, in, OWN[own % 3], OWN[own / 3], rec); }
			MC_REQUIRE(w.back().reveal<string>(REC[h % 4]) == (v.back() ? "true" : "false"), "string reveal");
			// AND gates whose operands are both private are executed and counted
			uint64_t n = 0; { vector<char> pub; for (int i = 0; i < 2; ++i) { int o = OWN[i == 0 ? own % 3 : own / 3]; pub.push_back(o == PUBLIC ? 1 + (in >> i & 1) : 0); } pub.push_back(1); pub.push_back(2); for (auto &g : p.g) { char r = 0, a = pub[g.a], c = g.op == 2 ? 0 : pub[g.b]; if (g.op == 0) { if (!a && !c) ++n; if (a == 1 || c == 1) r = 1; else if (a == 2) r = c; else if (c == 2) r = a; } else if (g.op == 1) { if (a && c) r = a == c ? 1 : 2; } else if (a) r = 3 - a; pub.push_back(r); } }
			MC_REQUIRE(CircuitExecution::circ_exec->num_and() == n, "%lu AND gates on private operands, the backend reports %lu", n, CircuitExecution::circ_exec->num_and()); mc::step(p.g.size()); finalize_plain_prot();
		}
		mc::points(1);
	});
	mc::explore("bit-operators", {1, 0, 60}, [] {      // every Bit operator, every value, owner and recipient, aliased operands
		int oa = mc::pick(3), ob = mc::pick(3), os = mc::pick(3), rec = mc::pick(4), v = mc::pick(8); bool a = v & 1, b = v >> 1 & 1, s = v >> 2 & 1; mc::note("a=%d b=%d s=%d owners %d %d %d recipient %d", a, b, s, OWN[oa], OWN[ob], OWN[os], REC[rec]); int R = REC[rec]; setup_plain_prot(false, ""); Bit A(a, OWN[oa]), B(b, OWN[ob]), S(s, OWN[os]); auto is = [&](const char *n, const Bit &x, bool e) { bool r = x.reveal<bool>(R); MC_REQUIRE(r == e, "%s gives %d", n, r); mc::step(); };
		is("a&b", A & B, a & b); is("a|b", A | B, a | b); is("a^b", A ^ B, a ^ b); is("!a", !A, !a); is("a==b", A == B, a == b); is("a!=b", A != B, a != b); is("a&a", A & A, a); is("a^a", A ^ A, 0); is("a|a", A | A, a); is("select", A.select(S, B), s ? b : a); is("If", If(S, A, B), s ? a : b); { Bit C = A; C ^= B; is("a^=b", C, a ^ b); is("a after ^=", A, a); } { Bit x = A, y = B; swap(S, x, y); is("swap first", x, s ? b : a); is("swap second", y, s ? a : b); } { Bit x = A; x = x.select(x, B); is("select on itself", x, a ? b : a); } is("operands unchanged", A, a); is("operands unchanged", B, b); is("operands unchanged", S, s); finalize_plain_prot(); mc::points(1);
	});
	mc::explore("batches", {2, 0, 60}, [] {            // feed/reveal of any length, mixing owners and recipients in one session
		static const vector<int> big{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}; int lim = mc::thorough ? 70 : 20, c0 = mc::pick(lim + (int)big.size()), n = c0 < lim ? c0 : big[c0 - lim], own = mc::pick(3), rec = mc::pick(4), pat = mc::pick(4); mc::note("feed %d bits owner %d recipient %d", n, OWN[own], REC[rec]); setup_plain_prot(false, ""); bool *in = new bool[n + 1], *out = new bool[n + 1]; for (int i = 0; i < n; ++i) { in[i] = pat == 0 ? i % 2 : pat == 1 ? i % 3 == 0 : pat == 2 ? true : false; out[i] = !in[i]; } out[n] = true; block *l = new block[n + 1]; l[n] = makeBlock(77, 78); ProtocolExecution::prot_exec->feed(l, OWN[own], in, n); { uint64_t q[2]; memcpy(q, &l[n], 16); MC_REQUIRE(q[0] == 78 && q[1] == 77, "feed wrote too many labels"); } Bit other(true, BOB); ProtocolExecution::prot_exec->reveal(out, REC[rec], l, n); for (int i = 0; i < n; ++i) MC_REQUIRE(out[i] == in[i], "bit %d fed as %d revealed as %d", i, in[i], out[i]); MC_REQUIRE(out[n] == true, "reveal wrote too many bits"); MC_REQUIRE(other.reveal<bool>(), "other bit"); finalize_plain_prot(); delete[] in; delete[] out; delete[] l; mc::step(2); mc::points(1);
	});
	mc::explore("long", {1, 0, 120}, [] {              // sessions of very many gates and inputs
		int shape = mc::pick(4), in = mc::pick(4), n = mc::thorough ? 20000000 : 1100000; mc::note("%d gates, shape %d, input %d", n, shape, in); setup_plain_prot(false, ""); CircuitExecution *c = CircuitExecution::circ_exec; bool v[4] = {bool(in & 1), bool(in >> 1 & 1), false, true}; block w[4]; ProtocolExecution::prot_exec->feed(w, ALICE, v, 1); ProtocolExecution::prot_exec->feed(w + 1, BOB, v + 1, 1); w[2] = c->public_label(false); w[3] = c->public_label(true); uint64_t ands = 0;
		for (int i = 0; i < n; ++i) { int a = i % 2, b = shape == 3 ? (i / 3) % 2 : (i * 5 + (i >> 7)) % (shape == 2 ? 4 : 2), op = shape == 0 ? 0 : (i + i / 11) % 3; block r = op == 0 ? c->and_gate(w[a], w[b]) : op == 1 ? c->xor_gate(w[a], w[b]) : c->not_gate(w[a]); bool x = op == 0 ? v[a] && v[b] : op == 1 ? v[a] != v[b] : !v[a]; w[1 - a] = r; v[1 - a] = x; bool got = false; ProtocolExecution::prot_exec->reveal(&got, PUBLIC, &r, 1); if (got != x) mc::fail("gate %d yields %d instead of %d", i, got, x); if (i % 16 == 7) { v[1 - a] = i >> 4 & 1; ProtocolExecution::prot_exec->feed(w + 1 - a, i & 32 ? ALICE : BOB, v + 1 - a, 1); } if ((i & 0xfffff) == 0) mc::beat(); }
		(void)ands; finalize_plain_prot(); mc::step(n); mc::points(1); });
	mc::explore("sessions", {1, 0, 60}, [] {           // repeated set-up and tear-down: every session starts from scratch
		int k = 1 + mc::pick(4); mc::note("%d sessions: ", k); for (int i = 0; i < k; ++i) { int ops = mc::pick(4), v = mc::pick(4); mc::note("(%d ANDs on %d) ", ops, v); setup_plain_prot(false, ""); MC_REQUIRE(CircuitExecution::circ_exec->num_and() == 0, "AND count at the start of session %d is %lu", i, CircuitExecution::circ_exec->num_and()); Bit a(v & 1, ALICE), b(v >> 1 & 1, BOB), c = a; bool e = v & 1; for (int j = 0; j < ops; ++j) { c = c & b; e = e && (v >> 1 & 1); } MC_REQUIRE(c.reveal<bool>() == e, "session %d: value", i); MC_REQUIRE(CircuitExecution::circ_exec->num_and() == (uint64_t)ops, "session %d: AND count", i); finalize_plain_prot(); mc::step(ops + 2); } mc::points(1);
	});
	mc::explore("integers", {2, 0, 60}, [] {           // values through Integer with every owner pair and recipient
		int w = 3, oa = mc::pick(3), ob = mc::pick(3), rec = mc::pick(4); int a = mc::pick(1 << w), b = mc::pick(1 << w); int R = REC[rec]; mc::note("%d,%d owners %d %d recipient %d", a, b, OWN[oa], OWN[ob], R); auto sx = [&](int v) { return v >= 4 ? v - 8 : v; }; setup_plain_prot(false, ""); Integer A(w, a, OWN[oa]), B(w, b, OWN[ob]); auto is = [&](const char *n, const Integer &x, int e) { uint32_t r = x.reveal<uint32_t>(R); MC_REQUIRE((r & 7) == (unsigned)(e & 7), "%s of %d,%d gives %u, expected %d", n, a, b, r, e & 7); mc::step(); };
		is("+", A + B, a + b); is("-", A - B, a - b); is("*", A * B, a * b); is("&", A & B, a & b); is("|", A | B, a | b); is("^", A ^ B, a ^ b); if (b) { is("/", A / B, sx(a) / sx(b)); is("%", A % B, sx(a) % sx(b)); } MC_REQUIRE((A > B).reveal<bool>(R) == (sx(a) > sx(b)), ">"); MC_REQUIRE((A == B).reveal<bool>(R) == (a == b), "=="); is("select", A.select(B[0], B), (b & 1) ? b : a); finalize_plain_prot(); mc::points(1);
	});
}
