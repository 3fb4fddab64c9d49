// C19: the gate trace never depends on private values.
// Labels here DO depend on the value they carry (several encodings, low bit included), so code that looks at
// labels, reveals, or anything else value-dependent produces a different trace.
#include "mc.h"
#include "keccak.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/circuits/aes_128_ctr.h"
#include <set>
#include <sstream>
#include <functional>
#include <memory>
using namespace emp; using std::vector; using std::string;
struct VExec : CircuitExecution {
	int enc; uint32_t nid = 2; uint64_t h = 1, n = 0; bool inop = false; vector<string> *text = nullptr;
	VExec(int e) : enc(e) {}
	static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
	block lab(uint32_t id, bool v) { uint64_t k = (uint64_t)id * 2 + v; if (id < 2) k = 1000000000000ULL + id; switch (enc) { case 0: return makeBlock(mix(k), k); case 1: return makeBlock(k, mix(k + 77)); default: return makeBlock(mix(k) ^ k, k ^ 1); } }
	void get(const block &b, uint32_t &id, bool &v) { uint64_t x[2]; memcpy(x, &b, 16); uint64_t k; switch (enc) { case 0: k = x[0]; break; case 1: k = x[1]; break; default: k = x[0] ^ 1; } block c; uint64_t q = k >= 1000000000000ULL ? k - 1000000000000ULL : k / 2; MC_REQUIRE(q < nid, "circuit code used a label no gate produced"); id = (uint32_t)q; v = k >= 1000000000000ULL ? id : k & 1; c = lab(id, v); MC_REQUIRE(memcmp(&c, &b, 16) == 0, "circuit code used a label no gate produced"); }
	void log(uint64_t op, uint64_t a, uint64_t b) { h = mc::hmix(mc::hmix(mc::hmix(h, op), a), b); ++n; }
	block and_gate(const block &a, const block &b) override { uint32_t x, y; bool u, v; get(a, x, u); get(b, y, v); log(0, x, y); return lab(nid++, u & v); }
	block xor_gate(const block &a, const block &b) override { uint32_t x, y; bool u, v; get(a, x, u); get(b, y, v); log(1, x, y); return lab(nid++, u ^ v); }
	block not_gate(const block &a) override { uint32_t x; bool u; get(a, x, u); log(2, x, 0); return lab(nid++, !u); }
	block public_label(bool b) override { return lab(b, b); }
	uint64_t num_and() override { return 0; }
};
struct VProt : ProtocolExecution {
	VExec *ex; VProt(VExec *e) : ex(e) {}
	void feed(block *l, int party, const bool *b, int n) override { ex->log(10 + party, n, 0); for (int i = 0; i < n; ++i) { if (party == PUBLIC) { l[i] = ex->public_label(b[i]); ex->log(20, b[i], 0); } else l[i] = ex->lab(ex->nid++, b[i]); } }
	void reveal(bool *o, int party, const block *l, int n) override { MC_REQUIRE(!ex->inop, "the operation reveals %d secret bits", n); ex->log(30 + party, n, 0); for (int i = 0; i < n; ++i) { uint32_t id; bool v; ex->get(l[i], id, v); ex->log(31, id, 0); o[i] = v; } }
};
struct S { VExec ex; VProt pr; S(int e) : ex(e), pr(&ex) { CircuitExecution::circ_exec = &ex; ProtocolExecution::prot_exec = &pr; } ~S() { CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; } };
typedef std::function<void(vector<Bit> &, vector<Bit> &)> Fn; typedef vector<bool> BV;
struct Trace { uint64_t h, n; };
static Trace run(int enc, const BV &in, const Fn &f, bool *fin = nullptr) {
	Trace t; { S s(enc); vector<Bit> i, o; for (size_t k = 0; k < in.size(); ++k) { Bit b(s.ex.lab(s.ex.nid, in[k])); s.ex.nid++; i.push_back(b); } s.ex.inop = true; f(i, o); s.ex.inop = false; for (auto &b : o) { uint32_t id; bool v; s.ex.get(b.bit, id, v); s.ex.log(40, id, 0); } t = {s.ex.h, s.ex.n}; mc::step(s.ex.n + 1); }
	return t;
}
static string str(const BV &b) { string s = "0b"; for (size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0'; return s; }
static void same(const char *what, const vector<BV> &ins, const Fn &f, int encs = 3) {
	for (int e = 0; e < encs; ++e) { Trace t0{0, 0}; for (size_t k = 0; k < ins.size(); ++k) { Trace t = run(e, ins[k], f); if (!k) t0 = t; MC_REQUIRE(t.h == t0.h && t.n == t0.n, "%s: private input %s gives a different gate trace (%lu steps) than %s (%lu steps)", what, str(ins[k]).c_str(), t.n, str(ins[0]).c_str(), t0.n); mc::points(1); mc::beat(); } }
}
static vector<BV> allv(int n) { vector<BV> r; for (uint64_t x = 0; x < (1ULL << n); ++x) { BV b(n); for (int i = 0; i < n; ++i) b[i] = x >> i & 1; r.push_back(b); } return r; }
static BV val(int n, int64_t v) { BV b(n); for (int i = 0; i < n; ++i) b[i] = i < 64 ? v >> i & 1 : v < 0; return b; }
static vector<BV> alph(int n) { std::set<BV> r; for (int64_t v : {0, 1, -1, 2, -2, 3, 7, 100}) r.insert(val(n, v)); BV m(n, false); m[n - 1] = true; r.insert(m); m.flip(); r.insert(m); BV p(n); for (int i = 0; i < n; ++i) p[i] = i & 1; r.insert(p); p.flip(); r.insert(p); for (int k = 0; k < n; k += (n > 16 ? n / 8 : 3)) { BV a(n, false); a[k] = true; r.insert(a); a.flip(); r.insert(a); } return vector<BV>(r.begin(), r.end()); }
static BV cat(const BV &a, const BV &b) { BV r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
static Integer I(const vector<Bit> &v, int o, int n) { return Integer(vector<Bit>(v.begin() + o, v.begin() + o + n)); }
static void put(vector<Bit> &o, const Integer &x) { o.insert(o.end(), x.bits.begin(), x.bits.end()); }
struct BinOp { const char *name; std::function<void(Integer, Integer, vector<Bit> &)> f; };
static const vector<BinOp> &bins() { static vector<BinOp> v{
	{"+", [](Integer a, Integer b, vector<Bit> &o) { put(o, a + b); }}, {"-", [](Integer a, Integer b, vector<Bit> &o) { put(o, a - b); }}, {"*", [](Integer a, Integer b, vector<Bit> &o) { put(o, a * b); }},
	{"/", [](Integer a, Integer b, vector<Bit> &o) { put(o, a / b); }}, {"%", [](Integer a, Integer b, vector<Bit> &o) { put(o, a % b); }}, {"&", [](Integer a, Integer b, vector<Bit> &o) { put(o, a & b); }},
	{"|", [](Integer a, Integer b, vector<Bit> &o) { put(o, a | b); }}, {"^", [](Integer a, Integer b, vector<Bit> &o) { put(o, a ^ b); }}, {"^=", [](Integer a, Integer b, vector<Bit> &o) { a ^= b; put(o, a); }},
	{"<<", [](Integer a, Integer b, vector<Bit> &o) { put(o, a << b); }}, {">>", [](Integer a, Integer b, vector<Bit> &o) { put(o, a >> b); }}, {">=", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a >= b); }},
	{"<", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a < b); }}, {"<=", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a <= b); }}, {">", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a > b); }},
	{"==", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a == b); }}, {"!=", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a != b); }}, {"geq", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a.geq(b)); }}, {"equal", [](Integer a, Integer b, vector<Bit> &o) { o.push_back(a.equal(b)); }},
	{"select", [](Integer a, Integer b, vector<Bit> &o) { put(o, a.select(b[0], b)); put(o, If(a[0], a, b)); }}, {"swap", [](Integer a, Integer b, vector<Bit> &o) { swap(b[0], a, b); put(o, a); put(o, b); }}, {"op on itself", [](Integer a, Integer b, vector<Bit> &o) { put(o, a + a); put(o, b * b); put(o, a / a); o.push_back(a >= a); }},
	{"public operand", [](Integer a, Integer b, vector<Bit> &o) { for (int c : {0, 1, -1, 5}) { Integer p(a.size(), c, PUBLIC); put(o, a + p); put(o, p - a); put(o, a * p); if (c) put(o, a / p); put(o, p % b); o.push_back(p >= b); put(o, p << b); put(o, a >> p); put(o, a.select(b[0], p)); } }},
}; return v; }
struct UnOp { const char *name; std::function<void(Integer, vector<Bit> &)> f; };
static const vector<UnOp> &uns() { static vector<UnOp> v{ {"neg", [](Integer a, vector<Bit> &o) { put(o, -a); }}, {"abs", [](Integer a, vector<Bit> &o) { put(o, a.abs()); }}, {"leading_zeros", [](Integer a, vector<Bit> &o) { put(o, a.leading_zeros()); }}, {"hamming_weight", [](Integer a, vector<Bit> &o) { put(o, a.hamming_weight()); }},
	{"resize", [](Integer a, vector<Bit> &o) { int n = a.size(); Integer b = a, c = a, d = a; put(o, b.resize(n + 3)); put(o, c.resize(n + 3, false)); put(o, d.resize((n + 1) / 2)); }}, {"public shifts", [](Integer a, vector<Bit> &o) { for (size_t s = 0; s <= a.size() + 1; ++s) { put(o, a << s); put(o, a >> s); } }}, {"copy/index", [](Integer a, vector<Bit> &o) { Integer b(a), c; c = b; o.push_back(c[0]); o.push_back(a[a.size() - 1]); put(o, c); }} }; return v; }
static const vector<uint32_t> FV{0, 0x80000000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x3f800000, 0xbf800000, 0x3fffffff, 0x40000000, 0x40490fdb, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x3f000000, 0x3eaaaaab, 0x4b000000, 0x42c80000, 0xc2c80000};
static Float F(const vector<Bit> &v, int o) { Float f; for (int i = 0; i < 32; ++i) f[i] = v[o + i]; return f; }
static void putf(vector<Bit> &o, const Float &f) { for (int i = 0; i < 32; ++i) o.push_back(f[i]); }
MC_MAIN("C19") {
	mc::explore("bit", {1, 0, 60}, [] { mc::note("all Bit operators on all values"); same("Bit operators", allv(3), [](vector<Bit> &i, vector<Bit> &o) { Bit a = i[0], b = i[1], s = i[2]; o = {a & b, a | b, a ^ b, a == b, a != b, !a, a.select(s, b), a.If(s, b), If(s, a, b)}; a ^= b; o.push_back(a); Bit c = i[0]; swap(s, c, b); o.push_back(c); o.push_back(b); Bit t(true, PUBLIC), f(false, PUBLIC); for (Bit p : {t, f}) { o.push_back(p & i[0]); o.push_back(i[0] | p); o.push_back(p ^ i[1]); o.push_back(i[0] == p); o.push_back(i[0].select(i[1], p)); o.push_back(i[0].select(p, i[1])); } }); });
	mc::explore("binary", {2, 0, 120}, [] { int op = mc::pick((int)bins().size()), w = 1 + mc::pick(mc::thorough ? 7 : 6); mc::note("Integer %s, width %d, all values", bins()[op].name, w); same(bins()[op].name, allv(2 * w), [&](vector<Bit> &i, vector<Bit> &o) { bins()[op].f(I(i, 0, w), I(i, w, w), o); }, w <= 4 ? 3 : 1); });
	mc::explore("binary-wide", {2, 0, 120}, [] { int op = mc::pick((int)bins().size()), w = mc::choose(mc::thorough ? vector<int>{7, 8, 13, 16, 31, 32, 33, 64, 65, 100, 128} : vector<int>{8, 16, 31, 32, 64}); mc::note("Integer %s, width %d, alphabet pairs", bins()[op].name, w); vector<BV> in, a = alph(w); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) if (w <= 16 || mc::thorough || (i * 7 + j) % 5 == 0) in.push_back(cat(a[i], a[j])); same(bins()[op].name, in, [&](vector<Bit> &i, vector<Bit> &o) { bins()[op].f(I(i, 0, w), I(i, w, w), o); }, 1); });
	mc::explore("unary", {2, 0, 120}, [] { int op = mc::pick((int)uns().size()), w = 1 + mc::pick(mc::thorough ? 12 : 9); mc::note("Integer %s, width %d, all values", uns()[op].name, w); same(uns()[op].name, allv(w), [&](vector<Bit> &i, vector<Bit> &o) { uns()[op].f(I(i, 0, w), o); }); });
	mc::explore("unary-wide", {2, 0, 120}, [] { int op = mc::pick((int)uns().size()), w = mc::choose(vector<int>{16, 31, 32, 33, 63, 64, 65, 127, 128}); mc::note("Integer %s, width %d, alphabet", uns()[op].name, w); same(uns()[op].name, alph(w), [&](vector<Bit> &i, vector<Bit> &o) { uns()[op].f(I(i, 0, w), o); }); });
	mc::explore("modexp", {1, 0, 120}, [] { int w = mc::choose(vector<int>{2, 3, 4}); mc::note("modExp width %d all values", w); same("modExp", allv(w == 4 && !mc::thorough ? 9 : 3 * w), [&](vector<Bit> &i, vector<Bit> &o) { Integer a = I(i, 0, w), p, q; if ((int)i.size() == 3 * w) { p = I(i, w, w); q = I(i, 2 * w, w); } else { p = I(i, w, 4); vector<Bit> z(3, Bit(true, PUBLIC)); z.insert(z.begin(), i[8]); q = Integer(z); } put(o, a.modExp(p, q)); }, 1); });
	mc::explore("sort", {2, 0, 120}, [] { int len = mc::pick(6), w = 1 + mc::pick(2), kind = mc::pick(3), sec = mc::pick(2); mc::note("sort of %d keys of %d bits, data %d, secret direction %d", len, w, kind, sec); if (len * w > 10) return; int n = len * w + sec; same("sort", allv(n), [&](vector<Bit> &i, vector<Bit> &o) { vector<Integer> k; vector<Integer> d; vector<Bit> b; for (int j = 0; j < len; ++j) { k.push_back(I(i, j * w, w)); d.push_back(I(i, j * w, w)); b.push_back(i[j * w]); } k.push_back(Integer()); d.push_back(Integer()); b.push_back(Bit()); Bit acc = sec ? i[n - 1] : Bit(true, PUBLIC); if (kind == 0) sort(k.data(), len, (Bit *)nullptr, acc); else if (kind == 1) sort(k.data(), len, d.data(), acc); else sort(k.data(), len, b.data(), acc); for (int j = 0; j < len; ++j) { put(o, k[j]); put(o, d[j]); o.push_back(b[j]); } }, 2); });
	mc::explore("sort-wide", {1, 0, 120}, [] { int len = mc::choose(vector<int>{7, 8, 9, 16, 20}); mc::note("sort of %d 8-bit keys: sorted, reversed, equal and mixed data", len); vector<BV> in; for (int p = 0; p < 12; ++p) { BV v; for (int j = 0; j < len; ++j) v = cat(v, val(8, p == 0 ? j : p == 1 ? -j : p == 2 ? 5 : p == 3 ? (j & 1) : (j * (2 * p + 1)) % 61 - 20)); in.push_back(v); } same("sort", in, [&](vector<Bit> &i, vector<Bit> &o) { vector<Integer> k; for (int j = 0; j < len; ++j) k.push_back(I(i, 8 * j, 8)); sort(k.data(), len); for (auto &x : k) put(o, x); }); });
	mc::explore("float", {1, 0, 120}, [] {
		int op = mc::pick(24); static const char *N[24] = {"+", "-", "*", "/", "equal", "less_equal", "less_than", "^", "&", "^=", "If", "swap", "neg", "abs", "sqr", "sqrt", "sin", "cos", "exp", "exp2", "ln", "log2", "copy", "public operand"}; mc::note("Float %s on special-value operands", N[op]); vector<BV> in; bool cheap = op < 14 || op >= 22; for (size_t a = 0; a < FV.size(); ++a) for (size_t b = 0; b < (cheap ? FV.size() : 1); ++b) if (mc::thorough || !cheap || (a + 3 * b) % 4 == 0) in.push_back(cat(val(32, FV[a]), val(32, FV[b])));
		same(N[op], in, [&](vector<Bit> &i, vector<Bit> &o) { Float a = F(i, 0), b = F(i, 32); switch (op) { case 0: putf(o, a + b); break; case 1: putf(o, a - b); break; case 2: putf(o, a * b); break; case 3: putf(o, a / b); break; case 4: o.push_back(a.equal(b)); break; case 5: o.push_back(a.less_equal(b)); break; case 6: o.push_back(a.less_than(b)); break; case 7: putf(o, a ^ b); break; case 8: putf(o, a & b); break; case 9: a ^= b; putf(o, a); break; case 10: putf(o, a.If(b[0], b)); putf(o, If(b[31], a, b)); break; case 11: swap(i[31], a, b); putf(o, a); putf(o, b); break; case 12: putf(o, -a); break; case 13: putf(o, a.abs()); break; case 14: putf(o, a.sqr()); break; case 15: putf(o, a.sqrt()); break; case 16: putf(o, a.sin()); break; case 17: putf(o, a.cos()); break; case 18: putf(o, a.exp()); break; case 19: putf(o, a.exp2()); break; case 20: putf(o, a.ln()); break; case 21: putf(o, a.log2()); break; case 22: { Float c(a), d; d = c; putf(o, d); o.push_back(d[3]); break; } case 23: { Float c(1.5f, PUBLIC); putf(o, a + c); putf(o, c * b); o.push_back(a.less_than(c)); putf(o, c / a); } } }, mc::thorough ? 3 : 1); });
	mc::explore("feed-reveal", {1, 0, 60}, [] {         // the amounts fed and revealed depend on type, width and owner only
		int ty = mc::pick(8), owner = mc::pick(2) ? ALICE : BOB, to = mc::choose(vector<int>{PUBLIC, ALICE, BOB, XOR}), w = 1 + mc::pick(12); mc::note("feed type %d width %d owner %d reveal to %d, all values", ty, w, owner, to); Trace t0{0, 0}; if (ty >= 4 && w > 1) return; uint64_t lim = ty >= 4 ? FV.size() : 1ULL << w;
		for (int e = 0; e < 3; ++e) for (uint64_t x = 0; x < lim; ++x) { Trace t; { S s(e); switch (ty) { case 0: { Integer a(w, (int64_t)x, owner); a.reveal<int64_t>(to); break; } case 1: { uint32_t m = x; Integer a(w, &m, owner); uint32_t r; a.reveal(&r, to); break; } case 2: { Integer a(w, -(int64_t)x, owner); a.reveal<string>(to); break; } case 3: { bool b[64]; for (int i = 0; i < w; ++i) b[i] = x >> i & 1; Integer a; a.init(b, w, owner); bool o[64]; a.revealBools(o, to); break; } case 4: { float f; memcpy(&f, &FV[x], 4); Float a(f, owner); a.reveal<double>(to); break; } case 5: { float f; memcpy(&f, &FV[x], 4); Float a(f, owner); a.reveal<string>(to); break; } case 6: { Bit b(FV[x] & 1, owner); b.reveal<bool>(to); b.reveal<string>(to); break; } case 7: { uint64_t m = FV[x] * 0x100000001ULL; Integer a(&m, owner); a.reveal<uint64_t>(to); a.reveal<uint32_t>(to); break; } } t = {s.ex.h, s.ex.n}; } if (!x) t0 = t; MC_REQUIRE(t.h == t0.h && t.n == t0.n, "value number %lu feeds or reveals different amounts", x); mc::step(); mc::points(1); } });
	mc::explore("aes-ctr", {2, 0, 300}, [] {
		int form = mc::pick(4), n = mc::choose(vector<int>{8, 128, 200}); mc::note("in-circuit AES-CTR form %d, %d bits", form, n); vector<BV> in; for (int k = 0; k < (mc::thorough ? 30 : 8); ++k) { BV v(256 + n); for (int i = 0; i < 256 + n; ++i) v[i] = k < 2 ? k : ((i * (2 * k + 3) + (i >> 4) * k) >> 2) & 1; in.push_back(v); } block iv = makeBlock(-1, -2), key = makeBlock(3, 4);
		same("AES-CTR", in, [&](vector<Bit> &i, vector<Bit> &o) { std::unique_ptr<AES_128_CTR_Calculator> c(new AES_128_CTR_Calculator()); vector<block> k(128), v(128), m(n), out(n); for (int j = 0; j < 128; ++j) { k[j] = i[j].bit; v[j] = i[128 + j].bit; } for (int j = 0; j < n; ++j) m[j] = i[256 + j].bit; if (form == 0) c->aes_128_ctr(k.data(), v.data(), m.data(), out.data(), n, PUBLIC, 3); else if (form == 1) c->aes_128_ctr(k.data(), iv, m.data(), out.data(), n); else if (form == 2) c->aes_128_ctr(key, iv, m.data(), out.data(), n); else c->aes_128_ctr(k.data(), v.data(), (block *)nullptr, out.data(), n); for (auto &b : out) o.push_back(Bit(b)); }, 1); });
	keccak_circuit();
	mc::explore("sha3", {1, 0, 300}, [] { int n = mc::choose(vector<int>{0, 1, 135, 136, 200}); mc::note("in-circuit SHA3 of %d bytes", n); vector<BV> in; for (int k = 0; k < 6; ++k) { BV v(8 * n); for (int i = 0; i < 8 * n; ++i) v[i] = k < 2 ? k : ((i * (2 * k + 3) + (i >> 4) * k) >> 2) & 1; in.push_back(v); } same("SHA3", in, [&](vector<Bit> &i, vector<Bit> &o) { SHA3_256_Calculator c; Integer x(i), y; if (i.size()) c.sha3_256(&y, &x); else c.sha3_256(&y, &x, 0); put(o, y); }, 1); });
	mc::explore("bristol", {1, 0, 60}, [] {             // every 2-gate netlist over 2 inputs, both loaders
		int fashion = mc::pick(2); int op[2], a[2], b[2]; for (int g = 0; g < 2; ++g) { op[g] = mc::pick(3); a[g] = mc::pick(2 + g); b[g] = op[g] == 2 ? 0 : mc::pick(2 + g); } std::ostringstream t; t << (fashion ? "2 4\n1 2\n1 1\n\n" : "2 4\n2 0 1\n\n"); static const char *N[3] = {"AND", "XOR", "INV"}; for (int g = 0; g < 2; ++g) { if (op[g] == 2) t << "1 1 " << a[g] << " " << 2 + g << " INV\n"; else t << "2 1 " << a[g] << " " << b[g] << " " << 2 + g << " " << N[op[g]] << "\n"; } string s = t.str(); mc::note("%s", s.c_str());
		same("Bristol circuit", allv(2), [&](vector<Bit> &i, vector<Bit> &o) { FILE *f = fmemopen((void *)s.data(), s.size(), "r"); block in[2] = {i[0].bit, i[1].bit}, out[1], dummy[1]; if (fashion) { BristolFashion c(f); c.compute(out, in); } else { BristolFormat c(f); c.compute(out, in, dummy); } fclose(f); o.push_back(Bit(out[0])); }); });
	mc::explore("plain-counts", {2, 0, 120}, [] {       // the plain backend's AND count is the same for all private values
		int op = mc::pick((int)bins().size()), w = 1 + mc::pick(4); mc::note("plain backend AND count of Integer %s, width %d", bins()[op].name, w); uint64_t n0 = 0; for (uint64_t x = 0; x < (1ULL << (2 * w)); ++x) { setup_plain_prot(false, ""); { vector<Bit> o; Integer a(w, (int64_t)x, ALICE), b(w, (int64_t)(x >> w), BOB); bins()[op].f(a, b, o); } uint64_t n = CircuitExecution::circ_exec->num_and(); finalize_plain_prot(); if (!x) n0 = n; MC_REQUIRE(n == n0, "inputs %lu: %lu AND gates instead of %lu", x, n, n0); mc::step(); mc::points(1); } });
}
