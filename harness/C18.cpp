// C18: Bristol circuits compute what the file says.
#include "mc.h"
#include "netlist.h"
#include <fstream>
#include <sstream>
#include <numeric>
using namespace emp; using std::vector; using std::string;
struct G { int op, a, b, o; };                       // 0 AND 1 XOR 2 INV
struct Net { int n1, n2, n3, nw; vector<G> g; };
static vector<char> ev(const Net &n, unsigned in) { vector<char> w(n.nw); for (int i = 0; i < n.n1 + n.n2; ++i) w[i] = in >> i & 1; for (auto &g : n.g) w[g.o] = g.op == 0 ? w[g.a] & w[g.b] : g.op == 1 ? w[g.a] ^ w[g.b] : !w[g.a]; return vector<char>(w.end() - n.n3, w.end()); }
static string fname() { static string s = "net." + std::to_string(getpid()) + ".txt"; return s; }
static string gates(const Net &n, int style) { string s; for (auto &g : n.g) { char b[100]; const char *sp = style == 1 ? "  " : style == 2 ? "\t" : " ", *nl = style == 1 ? " \n\n" : style == 3 ? "\r\n" : "\n"; if (g.op == 2) snprintf(b, 100, "1%s1%s%d%s%d%sINV%s", sp, sp, g.a, sp, g.o, sp, nl); else snprintf(b, 100, "2%s1%s%d%s%d%s%d%s%s%s", sp, sp, g.a, sp, g.b, sp, g.o, sp, g.op ? "XOR" : "AND", nl); s += b; } return s; }
static string format_text(const Net &n, int style) { char b[200]; snprintf(b, 200, style == 1 ? "%zu  %d \n%d   %d    %d\n\n\n" : style == 2 ? "%zu\t%d\n%d\t%d\t%d\n" : style == 3 ? "%zu %d\r\n%d %d   %d\r\n\r\n" : "%zu %d\n%d %d %d\n\n", n.g.size(), n.nw, n.n1, n.n2, n.n3); return b + gates(n, style); }
// fashion: inputs and outputs as groups
static string fashion_text(const Net &n, const vector<int> &ig, const vector<int> &og, int style) { std::ostringstream s; s << n.g.size() << " " << n.nw << "\n" << ig.size(); for (int x : ig) s << (style == 2 ? "\t" : " ") << x; s << (style == 1 ? " \n" : "\n") << og.size(); for (int x : og) s << " " << x; s << (style == 1 ? "  \n\n" : "\n\n"); return s.str() + gates(n, style); }
static void write(const string &t) { FILE *f = fopen(fname().c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static FILE *stream(const string &t) { return fmemopen((void *)t.data(), t.size(), "r"); }
static string show(const Net &n) { std::ostringstream s; s << n.n1 << "+" << n.n2 << " in, " << n.n3 << " out, " << n.nw << " wires:"; for (auto &g : n.g) { if (s.tellp() > 3000) { s << " ..."; break; } s << " w" << g.o << "="; if (g.op == 2) s << "!w" << g.a; else s << "w" << g.a << (g.op ? "^w" : "&w") << g.b; } return s.str(); }
static void check_format(BristolFormat &c, const Net &n, const char *how) {
	MC_REQUIRE(c.num_gate == (int)n.g.size() && c.num_wire == n.nw && c.n1 == n.n1 && c.n2 == n.n2 && c.n3 == n.n3, "%s: sizes read as %d gates %d wires %d+%d->%d", how, c.num_gate, c.num_wire, c.n1, c.n2, c.n3); int ni = n.n1 + n.n2;
	setup_plain_prot(false, ""); for (int round = 0; round < 2; ++round) for (unsigned k = 0; k < (1u << ni); ++k) { unsigned in = round ? (1u << ni) - 1 - k : k; vector<char> e = ev(n, in); vector<Bit> b; for (int i = 0; i < ni; ++i) b.push_back(Bit(in >> i & 1, i % 2 ? BOB : ALICE)); vector<Bit> o(n.n3), keep(b); c.compute(o.data(), b.data(), b.data() + n.n1); for (int i = 0; i < n.n3; ++i) MC_REQUIRE(o[i].reveal<bool>() == (bool)e[i], "%s: input %x evaluation %d: output %d should be %d", how, in, round, i, e[i]); for (int i = 0; i < ni; ++i) MC_REQUIRE(b[i].reveal<bool>() == (bool)(in >> i & 1), "%s: evaluation changed its input", how);
		vector<Bit> buf(std::max(ni, n.n3) + 1); for (int i = 0; i < ni; ++i) buf[i] = b[i]; c.compute(buf.data(), buf.data(), buf.data() + n.n1); for (int i = 0; i < n.n3; ++i) MC_REQUIRE(buf[i].reveal<bool>() == (bool)e[i], "%s: output written over the inputs: input %x output %d", how, in, i); mc::step(2); }
	finalize_plain_prot();
	{ nl::Session s; vector<block> in; vector<uint32_t> iw; for (int i = 0; i < ni; ++i) { uint32_t w = s.ex.fresh(); iw.push_back(w); in.push_back(nl::TraceExec::lab(w)); } vector<block> out(n.n3); c.compute(out.data(), in.data(), in.data() + n.n1); vector<uint32_t> ow; for (auto &x : out) ow.push_back(s.ex.id(x)); nl::Net t; t.build(s.ex, iw, ow); auto sl = t.mk(); for (int i = 0; i < ni; ++i) { unsigned long long m = 0; for (unsigned k = 0; k < (1u << ni); ++k) if (k >> i & 1) m |= 1ULL << k; sl[t.in[i]] = nl::v4{m, m, m, m}; } t.eval(sl.data()); for (unsigned in2 = 0; in2 < (1u << ni); ++in2) { vector<char> e = ev(n, in2); for (int i = 0; i < n.n3; ++i) MC_REQUIRE(((sl[t.out[i]][0] >> in2) & 1) == (unsigned)e[i], "%s: another backend computes a different value: input %x output %d", how, in2, i); } mc::step(); }
}
static void check_fashion(BristolFashion &c, const Net &n, const char *how) {
	int ni = n.n1 + n.n2; MC_REQUIRE(c.num_gate == (int)n.g.size() && c.num_wire == n.nw && c.num_input == ni && c.num_output == n.n3, "%s: sizes read as %d gates %d wires %d->%d", how, c.num_gate, c.num_wire, c.num_input, c.num_output);
	setup_plain_prot(false, ""); for (int round = 0; round < 2; ++round) for (unsigned k = 0; k < (1u << ni); ++k) { unsigned in = round ? (1u << ni) - 1 - k : k; vector<char> e = ev(n, in); vector<Bit> b; for (int i = 0; i < ni; ++i) b.push_back(Bit(in >> i & 1, i % 2 ? BOB : ALICE)); vector<Bit> o(n.n3); c.compute(o.data(), b.data()); for (int i = 0; i < n.n3; ++i) MC_REQUIRE(o[i].reveal<bool>() == (bool)e[i], "%s: input %x evaluation %d: output %d should be %d", how, in, round, i, e[i]); for (int i = 0; i < ni; ++i) MC_REQUIRE(b[i].reveal<bool>() == (bool)(in >> i & 1), "%s: evaluation changed its input", how); vector<Bit> buf(std::max(ni, n.n3)); for (int i = 0; i < ni; ++i) buf[i] = b[i]; c.compute(buf.data(), buf.data()); for (int i = 0; i < n.n3; ++i) MC_REQUIRE(buf[i].reveal<bool>() == (bool)e[i], "%s: output written over the inputs: input %x output %d", how, in, i); mc::step(2); }
	finalize_plain_prot();
	{ nl::Session s; vector<block> in; vector<uint32_t> iw; for (int i = 0; i < ni; ++i) { uint32_t w = s.ex.fresh(); iw.push_back(w); in.push_back(nl::TraceExec::lab(w)); } vector<block> out(n.n3); c.compute(out.data(), in.data()); vector<uint32_t> ow; for (auto &x : out) ow.push_back(s.ex.id(x)); nl::Net t; t.build(s.ex, iw, ow); auto sl = t.mk(); for (int i = 0; i < ni; ++i) { unsigned long long m = 0; for (unsigned k = 0; k < (1u << ni); ++k) if (k >> i & 1) m |= 1ULL << k; sl[t.in[i]] = nl::v4{m, m, m, m}; } t.eval(sl.data()); for (unsigned in2 = 0; in2 < (1u << ni); ++in2) { vector<char> e = ev(n, in2); for (int i = 0; i < n.n3; ++i) MC_REQUIRE(((sl[t.out[i]][0] >> in2) & 1) == (unsigned)e[i], "%s: another backend computes a different value: input %x output %d", how, in2, i); } mc::step(); }
}
static Net pick_net(int ni, int ng) {                  // every netlist: gates in file order, output numbers any permutation
	Net n; n.n1 = ni; n.n2 = 0; n.nw = ni + ng; vector<int> perm(ng), avail; for (int i = 0; i < ni; ++i) avail.push_back(i); vector<int> left(ng); std::iota(left.begin(), left.end(), ni);
	for (int i = 0; i < ng; ++i) { int k = mc::pick((int)left.size()); int o = left[k]; left.erase(left.begin() + k); int w = (int)avail.size(), c = mc::pick(2 * w * w + w); G g; if (c < 2 * w * w) g = {c / (w * w), avail[c % (w * w) / w], avail[c % w], o}; else g = {2, avail[c - 2 * w * w], 0, o}; n.g.push_back(g); avail.push_back(o); }
	return n;
}
static void export_reload(BristolFormat &c, const Net &n) {
	string f = fname() + ".h"; c.to_file(f.c_str(), "pre"); std::ifstream i(f); std::stringstream ss; ss << i.rdbuf(); string t = ss.str(); unlink(f.c_str()); auto num = [&](const string &name) { size_t p = t.find("int pre_" + name + " = "); MC_REQUIRE(p != string::npos, "exported text lacks %s", name.c_str()); return atoi(t.c_str() + p + 4 + 4 + name.size() + 3); };
	int ng = num("num_gate"), nw = num("num_wire"), n1 = num("n1"), n2 = num("n2"), n3 = num("n3"); size_t p = t.find("pre_gate_arr"), q = t.find('{', p); MC_REQUIRE(p != string::npos && q != string::npos, "exported text lacks the gate array"); MC_REQUIRE(atoi(t.c_str() + t.find('[', p) + 1) == 4 * ng, "exported array length"); vector<int> a; const char *s = t.c_str() + q + 1; char *e; while (true) { while (*s == ' ' || *s == '\n' || *s == ',') ++s; if (*s == '}' || !*s) break; a.push_back((int)strtol(s, &e, 10)); if (e == s) break; s = e; } MC_REQUIRE((int)a.size() == 4 * ng, "exported text has %zu gate numbers for %d gates", a.size(), ng);
	BristolFormat d(ng, nw, n1, n2, n3, a.data()); check_format(d, n, "exported and reloaded");
}
static void all_forms(Net n, int variant) {
	int ni = n.n1; mc::note("%s variant %d", show(n).c_str(), variant); int style = variant % 4;
	for (int n1 = 0; n1 <= ni; ++n1) { if (n1 != variant % (ni + 1)) continue; Net m = n; m.n1 = n1; m.n2 = ni - n1; string t = format_text(m, style); write(t); BristolFormat a(fname().c_str()); check_format(a, m, "from a file name"); export_reload(a, m); if (variant & 1) { export_reload(a, m); FILE *f = stream(t); BristolFormat b(f); fclose(f); check_format(b, m, "from a stream"); b.from_file(fname().c_str()); check_format(b, m, "loaded twice"); } }
	vector<vector<int>> igs, ogs; if (variant % 3 == 0) { igs = {{ni}}; ogs = {{n.n3}}; } else if (variant % 3 == 1) { igs = {{1, ni - 1}}; ogs = {{n.n3 - 1, 1}}; } else { igs = {vector<int>(ni, 1)}; ogs = {vector<int>(n.n3, 1)}; }
	string t = fashion_text(n, igs[0], ogs[0], style); write(t); BristolFashion a(fname().c_str()); check_fashion(a, n, "fashion, from a file name"); if (variant & 1) { FILE *f = stream(t); BristolFashion b(f); fclose(f); check_fashion(b, n, "fashion, from a stream"); b.from_file(fname().c_str()); check_fashion(b, n, "fashion, loaded twice"); }
	unlink(fname().c_str()); mc::points(1);
}
MC_MAIN("C18") {
	mc::explore("netlists", {2, 0, 60}, [] { int ni = 2, ng = mc::pick(mc::thorough ? 3 : 2) + 1; Net n = pick_net(ni, ng); n.n3 = 1 + mc::pick(std::min(ng, 3)); int v = mc::pick(ng <= 2 ? 12 : 2); all_forms(n, ng <= 2 ? v : (int)(mc::hbytes(n.g.data(), n.g.size() * sizeof(G)) % 12)); });
	mc::explore("pass-through", {2, 0, 60}, [] { int ni = 1 + mc::pick(3), ng = mc::pick(ni == 3 ? 2 : 3); Net n = pick_net(ni, ng); n.n3 = 1 + mc::pick(n.nw); all_forms(n, mc::pick(ng < 2 ? 12 : 2) + (ng < 2 ? 0 : (int)(mc::hbytes(n.g.data(), n.g.size() * sizeof(G)) % 10))); });      // outputs that are inputs
	mc::explore("three-gates", {2, 0, 60}, [] { Net n = pick_net(1 + mc::pick(2), 3); n.n3 = 2; uint64_t h = mc::hbytes(n.g.data(), n.g.size() * sizeof(G)); all_forms(n, (int)(h % 12)); });
	mc::explore("wide", {1, 0, 60}, [] {               // outputs that are inputs too, many wires, long numbers
		int ni = mc::choose(vector<int>{3, 4, 5}), ng = mc::choose(vector<int>{7, 9, 10, 11, 97, 101, 999, 1003, 4000, 33000, 66001, 70000}), mode = mc::pick(3), n3 = mc::choose(vector<int>{1, 2, 5, 7}); if (ng > 4000 && (ni != 3 || mode != 2 || (n3 != 2 && n3 != 7))) { mc::note("large netlists: one shape each"); return; } Net n; n.n1 = ni; n.n2 = 0; n.nw = ni + ng; n.n3 = n3; for (int i = 0; i < ng; ++i) { int w = ni + i; n.g.push_back({mode == 0 ? i % 3 : mode == 1 ? i % 2 : (int)((long)i * i % 3), w - 1, (int)((long)i * 5 % w), w}); } all_forms(n, (ni * 5 + mode + n3) % 12); });
	mc::explore("int-array", {1, 0, 60}, [] {          // arrays given directly, sizes and evaluation; the array is copied
		Net n = pick_net(2, 2); n.n3 = 1 + mc::pick(2); int n1 = mc::pick(3); n.n1 = n1; n.n2 = 2 - n1; mc::note("%s", show(n).c_str()); vector<int> a; for (auto &g : n.g) { a.push_back(g.a); a.push_back(g.b); a.push_back(g.o); a.push_back(g.op); } BristolFormat c(2, n.nw, n.n1, n.n2, n.n3, a.data()); std::fill(a.begin(), a.end(), 0); check_format(c, n, "from an array");
		// the generic executor, including its OR gate
		vector<int16_t> q; for (auto &g : n.g) { q.push_back(g.a); q.push_back(g.b); q.push_back(g.o); q.push_back(g.op); } int last = n.nw; q.push_back(0); q.push_back(1); q.push_back(last); q.push_back(3); setup_plain_prot(false, ""); for (unsigned in = 0; in < 4; ++in) { vector<block> w(n.nw + 1); w[0] = Bit(in & 1, ALICE).bit; w[1] = Bit(in >> 1, BOB).bit; execute_circuit(w.data(), q.data(), 3); Net m = n; m.n3 = n.nw; m.n1 = 2; m.n2 = 0; vector<char> e = ev(m, in); for (int i = 0; i < n.nw; ++i) MC_REQUIRE(Bit(w[i]).reveal<bool>() == (bool)e[i], "execute_circuit: input %x wire %d", in, i); MC_REQUIRE(Bit(w[last]).reveal<bool>() == ((in & 1) || (in >> 1)), "execute_circuit: OR gate on %x", in); mc::step(); } finalize_plain_prot(); mc::points(1); });
}
