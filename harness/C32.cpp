// C32: P-256 point and scalar wrappers.
#include "mc.h"
#include "emp-tool/emp-tool.h"
#include <map>
#include <memory>
using namespace emp; using std::vector; using std::string;
static EC_GROUP *G0; static BN_CTX *CX; static BIGNUM *N;
static string hex(const unsigned char *p, size_t n) { string s; char b[4]; for (size_t i = 0; i < n; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; } return s; }
static BIGNUM *bn(const char *h) { BIGNUM *r = nullptr; BN_hex2bn(&r, h); return r; }
static string bhex(const BIGNUM *b) { char *c = BN_bn2hex(b); string s = c; OPENSSL_free(c); return s; }
// model of a point: its discrete logarithm; enc() is its standard encoding
static string enc(const string &k) { static std::map<string, string> m; auto it = m.find(k); if (it != m.end()) return it->second; BIGNUM *b = bn(k.c_str()); EC_POINT *p = EC_POINT_new(G0); EC_POINT_mul(G0, p, b, nullptr, nullptr, CX); unsigned char o[65]; size_t l = EC_POINT_point2oct(G0, p, POINT_CONVERSION_UNCOMPRESSED, o, 65, CX); EC_POINT_free(p); BN_free(b); return m[k] = hex(o, l); }
static string m_add(const string &a, const string &b) { BIGNUM *x = bn(a.c_str()), *y = bn(b.c_str()); BN_mod_add(x, x, y, N, CX); string s = bhex(x); BN_free(x); BN_free(y); return s; }
static string m_mul(const string &a, const string &b) { BIGNUM *x = bn(a.c_str()), *y = bn(b.c_str()); BN_mod_mul(x, x, y, N, CX); string s = bhex(x); BN_free(x); BN_free(y); return s; }
static string m_neg(const string &a) { BIGNUM *x = bn(a.c_str()), *z = BN_new(); BN_mod_sub(x, z, x, N, CX); string s = bhex(x); BN_free(x); BN_free(z); return s; }
static vector<string> scalars() { static vector<string> v; if (v.empty()) { v = {"00", "01", "02", "0B"}; for (int d : {-1, 0, 1}) { BIGNUM *t = BN_dup(N); if (d < 0) BN_sub_word(t, 1); else BN_add_word(t, d); v.push_back(bhex(t)); BN_free(t); } v.push_back("E3B0C44298FC1C149AFBF4C8996FB92427AE41E4649B934CA495991B7852B855"); v.push_back("01FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"); } return v; }
static BigInt big(const string &h) { BIGNUM *b = bn(h.c_str()); int l = BN_num_bytes(b); vector<unsigned char> o(l + 1); BN_bn2bin(b, o.data()); BigInt r; r.from_bin(o.data(), l); BN_free(b); return r; }
static string val(BigInt &b) { int n = b.size(); vector<unsigned char> o(n + 2, 0xEE); b.to_bin(o.data()); MC_REQUIRE(o[n] == 0xEE, "to_bin wrote past size()"); BIGNUM *t = BN_bin2bn(o.data(), n, nullptr); MC_REQUIRE(BN_num_bytes(t) == n, "size() is not minimal"); string s = bhex(t); BN_free(t); return s; }
static string encp(Point &p) { size_t l = p.size(); vector<unsigned char> o(l + 1, 0xEE); p.to_bin(o.data(), l); MC_REQUIRE(o[l] == 0xEE, "to_bin wrote past size()"); return hex(o.data(), l); }
static void init() { if (G0) return; G0 = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1); CX = BN_CTX_new(); N = BN_new(); EC_GROUP_get_order(G0, N, CX); }
struct World {
	Group g; vector<Point> p; vector<string> k;
	World() { p.push_back(Point(&g)); k.push_back("00"); p.push_back(g.get_generator()); k.push_back("01"); p.push_back(g.mul_gen(big("07"))); k.push_back("07"); }
	void check(const char *after) { for (int i = 0; i < 3; ++i) { string e = encp(p[i]), w = enc(k[i]); MC_REQUIRE(e == w, "after %s: point %d is %s, expected %s = %s*G", after, i, e.c_str(), w.c_str(), k[i].c_str()); } for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_REQUIRE((p[i] == p[j]) == (enc(k[i]) == enc(k[j])), "after %s: point %d == point %d is wrong", after, i, j); mc::step(); }
	void setp(int t, Point r, const string &m) { p[t] = r; k[t] = m; }
};
static string norm(const string &s) { BIGNUM *b = bn(s.c_str()); BN_nnmod(b, b, N, CX); string r = bhex(b); BN_free(b); return r; }
MC_MAIN("C32") {
	init();
	mc::explore("constants", {1, 0, 60}, [] {           // the curve is NIST P-256 (FIPS 186-4 D.1.2.3)
		mc::note("order, generator and known multiples"); Group g; MC_REQUIRE(val(g.order) == "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", "order %s", val(g.order).c_str()); Point p = g.get_generator(); MC_REQUIRE(encp(p) == "046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", "generator"); Point q = p.add(p); MC_REQUIRE(encp(q) == "047cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc4766997807775510db8ed040293d9ac69f7430dbba7dade63ce982299e04b79d227873d1", "2G"); Point r = g.mul_gen(big("05")); MC_REQUIRE(encp(r) == "0451590b7a515140d2d784c85608668fdfef8c82fd1f5be52421554a0dc3d033ede0c17da8904a727d8ae1bf36bf8a79260d012f00d4d80888d1d0bb44fda16da4", "5G"); Point z = g.mul_gen(g.order); MC_REQUIRE(z.size() == 1 && encp(z) == "00", "order*G is not the identity"); mc::step(5); mc::points(5); });
	mc::explore("histories", {2, 0, 120}, [] {
		World w; int depth = mc::thorough ? 3 : 3; string h; vector<string> S = scalars(); int ns = mc::thorough ? (int)S.size() : 3; if (!mc::thorough) S = {S[0], S[4], S[7]};
		for (int d = 0; d < depth; ++d) {
			int nop = 27 + 9 + 9 + 9 + 3 * ns + ns; int o = mc::pick(nop); char b[96];
			if (o < 27) { int i = o / 9, j = o / 3 % 3, t = o % 3; snprintf(b, 96, "p%d=p%d+p%d; ", t, i, j); mc::note("%s", b); w.setp(t, w.p[i].add(w.p[j]), m_add(w.k[i], w.k[j])); }
			else if ((o -= 27) < 9) { int i = o / 3, t = o % 3; snprintf(b, 96, "p%d=-p%d; ", t, i); mc::note("%s", b); w.setp(t, w.p[i].inv(), m_neg(w.k[i])); }
			else if ((o -= 9) < 9) { int i = o / 3, t = o % 3; snprintf(b, 96, "p%d=p%d; ", t, i); mc::note("%s", b); if (d & 1) { Point c(w.p[i]); w.p[t] = c; } else w.p[t] = w.p[i]; w.k[t] = w.k[i]; }
			else if ((o -= 9) < 9) { int i = o / 3, t = o % 3; snprintf(b, 96, "p%d=decode(encode(p%d)); ", t, i); mc::note("%s", b); size_t l = w.p[i].size(); vector<unsigned char> e(l); w.p[i].to_bin(e.data(), l); if (d & 1) w.p[t].from_bin(&w.g, e.data(), l); else { Point c; c.from_bin(&w.g, e.data(), l); w.p[t] = c; } w.k[t] = w.k[i]; }
			else if ((o -= 9) < 3 * ns) { int i = o / ns, s = o % ns, t = (i + s) % 3; snprintf(b, 96, "p%d=p%d*s%d; ", t, i, s); mc::note("%s", b); BigInt x = big(S[s]); Point r = w.p[i].mul(x); MC_REQUIRE(val(x) == S[s] || S[s] == "00", "scalar changed"); w.setp(t, r, m_mul(w.k[i], S[s])); }
			else { o -= 3 * ns; int t = o % 3; snprintf(b, 96, "p%d=G*s%d; ", t, o); mc::note("%s", b); w.setp(t, w.g.mul_gen(big(S[o])), norm(S[o])); }
			w.check(b);
			uint64_t hh = 1; for (auto &k : w.k) hh = mc::hmix(hh, mc::hbytes(k.data(), k.size())); mc::state(hh);
		}
	});
	mc::explore("laws", {1, 0, 120}, [] {               // scalar alphabet: homomorphism, distributivity, associativity
		vector<string> S = scalars(); string a = mc::choose(S), b = mc::choose(S); mc::note("a=%s b=%s", a.c_str(), b.c_str()); Group g; BigInt A = big(a), B = big(b); Point ga = g.mul_gen(A), gb = g.mul_gen(B); Point s1 = ga.add(gb), s2 = g.mul_gen(A.add(B)), s3 = gb.add(ga); MC_REQUIRE(s1 == s2 && s1 == s3, "aG+bG != (a+b)G"); Point m1 = ga.mul(B), m2 = gb.mul(A), m3 = g.mul_gen(A.mul_mod(B, g.order, g.bn_ctx)), m4 = g.get_generator().mul(A).mul(B); MC_REQUIRE(m1 == m2 && m1 == m3 && m1 == m4, "a(bG) != b(aG) != (ab)G"); Point n = ga.inv(), z = ga.add(n), o(&g), back = n.inv(); MC_REQUIRE(z == o && encp(z) == "00", "P + -P is not the identity"); MC_REQUIRE(back == ga, "double inverse"); Point c = ga.add(gb).add(s1), e = ga.add(s3 = gb.add(s1)); MC_REQUIRE(c == e, "associativity"); MC_REQUIRE(encp(m1) == enc(m_mul(a, b)) && encp(s1) == enc(m_add(a, b)), "value"); mc::step(10); mc::points(1); });
	mc::explore("scalars", {1, 0, 120}, [] {             // BigInt as integers; modular helpers reduce
		vector<string> S = scalars(); for (const char *e : {"FF", "0100", "FFFF", "80000000000000000000", "FFFFFFFFFFFFFFFF", "010000000000000000"}) S.push_back(e); string a = mc::choose(S), b = mc::choose(S); mc::note("a=%s b=%s", a.c_str(), b.c_str()); BigInt A = big(a), B = big(b); BIGNUM *x = bn(a.c_str()), *y = bn(b.c_str()), *r = BN_new(); string nx = bhex(x), ny = bhex(y);
		MC_REQUIRE(val(A) == nx && val(B) == ny && A.size() == BN_num_bytes(x), "from_bin/to_bin"); BigInt s = A.add(B); BN_add(r, x, y); MC_REQUIRE(val(s) == bhex(r), "add"); BigInt p = A.mul(B, CX); BN_mul(r, x, y, CX); MC_REQUIRE(val(p) == bhex(r), "mul"); if (!BN_is_zero(y)) { BigInt m = A.mod(B, CX); BN_nnmod(r, x, y, CX); MC_REQUIRE(val(m) == bhex(r), "mod"); }
		for (auto &q : S) { BIGNUM *m = bn(q.c_str()); if (!BN_is_zero(m)) { BigInt M = big(q); BigInt am = A.add_mod(B, M, CX); BN_mod_add(r, x, y, m, CX); MC_REQUIRE(val(am) == bhex(r), "add_mod %s", q.c_str()); BigInt mm = A.mul_mod(B, M, CX); BN_mod_mul(r, x, y, m, CX); MC_REQUIRE(val(mm) == bhex(r), "mul_mod %s", q.c_str()); MC_REQUIRE(val(M) == bhex(m), "modulus changed"); mc::step(2); } BN_free(m); }
		MC_REQUIRE(val(A) == nx && val(B) == ny, "operand changed"); BigInt C(A), D; D = B; MC_REQUIRE(val(C) == nx && val(D) == ny, "copy"); C = C; A = A; MC_REQUIRE(val(C) == nx && val(A) == nx, "self-assignment"); C = B; MC_REQUIRE(val(C) == ny && val(A) == nx, "assignment"); unsigned char one[2] = {1, 2}; D.from_bin(one, 2); MC_REQUIRE(val(D) == "0102" && val(B) == ny, "copies share state"); BigInt E = A.add(A); BN_add(r, x, x); MC_REQUIRE(val(E) == bhex(r), "a+a"); BN_free(x); BN_free(y); BN_free(r); mc::step(8); mc::points(1); });
	mc::explore("sizes", {1, 0, 60}, [] {               // scalars of every byte length
		int l = mc::pick(mc::thorough ? 1100 : 300), k = mc::pick(3); mc::note("%d-byte number, kind %d", l, k); vector<unsigned char> in(l + 1, 0), out; for (int i = 0; i < l; ++i) in[i] = k == 0 ? (i == 0 ? 1 : 0) : k == 1 ? 0xff : (unsigned char)(i * 37 + 1); BigInt a; a.from_bin(in.data(), l); MC_REQUIRE(a.size() == l, "size() of a %d-byte number is %d", l, (int)a.size()); unsigned char *o = (unsigned char *)malloc(l + 1); memset(o, 0xEE, l + 1); a.to_bin(o); MC_REQUIRE(memcmp(o, in.data(), l) == 0 && o[l] == 0xEE, "a %d-byte number is not returned unchanged", l); free(o);
		BigInt b = a.add(a), c(a), d; d = b; BIGNUM *x = BN_bin2bn(in.data(), l, nullptr), *r = BN_new(); BN_add(r, x, x); MC_REQUIRE(val(b) == bhex(r) && val(d) == bhex(r) && val(c) == bhex(x), "sum or copy of a %d-byte number", l); BigInt m = a.mul(b, CX); BN_mul(r, x, r, CX); MC_REQUIRE(val(m) == bhex(r), "product of a %d-byte number", l); Group g; BigInt q = m.mod(g.order, CX); BN_nnmod(r, r, N, CX); MC_REQUIRE(val(q) == bhex(r), "reduction of a %d-byte number", l); if (l < 80) { Point p = g.mul_gen(a), p2 = g.mul_gen(a.mod(g.order, CX)); MC_REQUIRE(p == p2, "multiplication by an unreduced %d-byte scalar", l); } BN_free(x); BN_free(r); mc::step(6); mc::points(1); });
	mc::explore("lifetime", {1, 0, 120}, [] {           // copies, default points, containers, groups side by side, scratch growth
		int n = mc::pick(6); size_t sz = mc::choose(vector<size_t>{0, 1, 65, 255, 256, 257, 1000, 100000}); mc::note("%d points, scratch %zu", n, sz); Group g, g2; g.resize_scratch(sz); memset(g.scratch, 0x5a, std::max<size_t>(sz, 256)); vector<Point> v; for (int i = 0; i < n; ++i) v.push_back(g.mul_gen(big(i ? "0" + std::to_string(i) : "00"))); Point d, e(d); d = e; vector<Point> u(v); for (auto &p : v) p = p.inv(); for (int i = 0; i < n; ++i) { string k = "0" + std::to_string(i); MC_REQUIRE(encp(u[i]) == enc(k), "copy changed with its original"); MC_REQUIRE(encp(v[i]) == enc(m_neg(k)), "inverse"); v[i] = v[i]; MC_REQUIRE(encp(v[i]) == enc(m_neg(k)), "self-assignment"); d = u[i]; v[i] = d; MC_REQUIRE(encp(v[i]) == enc(k) && encp(d) == enc(k), "assignment"); d = Point(); } BigInt r; for (int i = 0; i < 50; ++i) { g.get_rand_bn(r); MC_REQUIRE(BN_cmp(r.n, N) < 0 && !BN_is_negative(r.n), "random scalar out of range"); } Point q = g2.mul_gen(r), q2 = g.mul_gen(r); MC_REQUIRE(encp(q) == encp(q2), "groups disagree"); mc::step(n + 1); mc::points(1); });
}
