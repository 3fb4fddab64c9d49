// C33: decoding of curve points.
#include "mc.h"
#include "emp-tool/emp-tool.h"
#include "emp-tool/io/mem_io_channel.h"
#include <openssl/err.h>
using namespace emp; using std::vector; using std::string;
typedef vector<unsigned char> B; static BN_CTX *CX; static BIGNUM *P, *Bc;
static string hex(const B &b) { string s; char t[4]; for (unsigned char c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }
static B unhex(const char *h) { B r; for (; *h; h += 2) { unsigned v; sscanf(h, "%2x", &v); r.push_back(v); } return r; }
static void init() { if (CX) return; CX = BN_CTX_new(); P = Bc = nullptr; BN_hex2bn(&P, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF"); BN_hex2bn(&Bc, "5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B"); }
static BIGNUM *rhs(const BIGNUM *x) { BIGNUM *r = BN_new(), *t = BN_new(); BN_mod_sqr(r, x, P, CX); BN_mod_mul(r, r, x, P, CX); BN_set_word(t, 3); BN_mod_mul(t, t, x, P, CX); BN_mod_sub(r, r, t, P, CX); BN_mod_add(r, r, Bc, P, CX); BN_free(t); return r; }   // x^3-3x+b
// SEC 1 meaning of an encoding: empty if invalid, else the canonical uncompressed encoding (or "00" for the identity)
static B meaning(const B &e) {
	B bad; if (e.empty()) return bad; if (e[0] == 0) return e.size() == 1 ? B{0} : bad; bool comp = e[0] == 2 || e[0] == 3, unc = e[0] == 4, hyb = e[0] == 6 || e[0] == 7; if (!comp && !unc && !hyb) return bad; if (e.size() != (comp ? 33 : 65)) return bad;
	BIGNUM *x = BN_bin2bn(&e[1], 32, nullptr), *y = nullptr, *r; B out = bad; if (BN_cmp(x, P) < 0) { r = rhs(x); if (comp) { y = BN_mod_sqrt(nullptr, r, P, CX); ERR_clear_error(); if (y && BN_is_odd(y) != (e[0] & 1)) { if (BN_is_zero(y)) { BN_free(y); y = nullptr; } else BN_sub(y, P, y); } } else { y = BN_bin2bn(&e[33], 32, nullptr); BIGNUM *q = BN_new(); BN_mod_sqr(q, y, P, CX); if (BN_cmp(y, P) >= 0 || BN_cmp(q, r) != 0 || (hyb && BN_is_odd(y) != (e[0] & 1))) { BN_free(y); y = nullptr; } BN_free(q); } if (y) { out.assign(65, 0); out[0] = 4; memcpy(&out[1], &e[1], 32); BN_bn2binpad(y, &out[33], 32); BN_free(y); } BN_free(r); } BN_free(x); return out;
}
static Group *gp() { static Group *g = new Group(); return g; }
static B encode(Point &p) { B o(p.size()); p.to_bin(o.data(), o.size()); return o; }
// decode e through entry point `how`; compare with its meaning
static void decode(const B &e, int how) {
	B want = meaning(e), got; bool done = false; Group *g = gp(); Point other = g->mul_gen(g->order), after; MemIO *io = nullptr;
	int rc = mc::guarded([&] {
		if (how == 0) { Point p; p.from_bin(g, e.data(), e.size()); got = encode(p); }
		else if (how == 1) { Point p = g->get_generator(); p.from_bin(g, e.data(), e.size()); got = encode(p); }
		else { io = new MemIO(4096); uint32_t l = e.size(); io->send_data(&l, 4); io->send_data(e.data(), l); char mark = 77; io->send_data(&mark, 1); Point p; io->recv_pt(g, &p, 1); got = encode(p); char m = 0; io->recv_data(&m, 1); MC_REQUIRE(m == 77, "receiving a point consumed the wrong number of bytes"); }
		done = true; });
	mc::step(); mc::points(1);
	if (want.empty()) MC_REQUIRE(!done && rc != 0, "invalid encoding %s was accepted (as %s, exit %d)", hex(e).c_str(), hex(got).c_str(), rc);
	else { bool must = e[0] == 4 || e[0] == 0; MC_REQUIRE(done || !must, "valid encoding %s was rejected", hex(e).c_str()); MC_REQUIRE(!done || got == want, "encoding %s was decoded as %s, expected %s", hex(e).c_str(), hex(got).c_str(), hex(want).c_str()); MC_REQUIRE(done || rc != 0, "rejected with status 0"); }
}
static vector<B> &valid() { static vector<B> v; if (v.empty()) { Group *g = gp(); for (int k : {1, 2, 3, 77}) { BigInt b; unsigned char c = k; b.from_bin(&c, 1); Point p = g->mul_gen(b); v.push_back(encode(p)); } } return v; }
MC_MAIN("C33") {
	init();
	mc::explore("corruptions", {2, 0, 60}, [] { int w = mc::pick(mc::thorough ? 4 : 2), pos = mc::pick(65), how = mc::pick(3); B e = valid()[w]; mc::note("point %d byte %d entry %d", w, pos, how); unsigned char o = e[pos]; for (int v = 0; v < 256; ++v) { e[pos] = v; decode(e, how); } e[pos] = o; });
	mc::explore("lengths", {1, 0, 60}, [] { int w = mc::pick(4), how = mc::pick(3), fmt = mc::pick(9); mc::note("point %d format %d entry %d, every length", w, fmt, how); B e = valid()[w]; e[0] = fmt == 8 ? 0xff : fmt; for (size_t l = 0; l <= 140; ++l) { B t = e; t.resize(l, 0); decode(t, how); } });
	mc::explore("declared-length", {1, 0, 60}, [] {      // the length prefix on the channel is any number up to and beyond the protocol's limit
		static const vector<uint32_t> ls{0, 1, 2, 33, 64, 65, 66, 255, 256, 257, 2047, 2048, 2049, 2113, 4096, 4161, 65536 + 65, 65536 + 33, (1u << 20) + 65, 0x7fffffffu, 0x80000000u, 0x80000041u, 0xffffffffu}; uint32_t l = mc::choose(ls); int w = mc::pick(4), extra = mc::pick(2); mc::note("declared length %u, point %d, followed by %s", l, w, extra ? "much more data" : "exactly a valid point"); MemIO io(1 << 20); B e = valid()[w]; io.send_data(&l, 4); io.send_data(e.data(), e.size()); if (extra) { vector<char> z(5000, 0); io.send_data(z.data(), z.size()); }
		bool done = false; B got; int rc = mc::guarded([&] { Point p; io.recv_pt(gp(), &p, 1); got = encode(p); done = true; }); mc::step(); mc::points(1); if (l == 65) MC_REQUIRE(done && got == e, "a valid point was not accepted"); else if (!(l == 0 || l == 33 || l == 1)) MC_REQUIRE(!done && rc != 0, "a point declared as %u bytes long was accepted as %s (exit %d)", l, hex(got).c_str(), rc); else MC_REQUIRE(!done && rc != 0, "truncated encoding accepted"); });
	mc::explore("formats", {1, 0, 60}, [] { int f = mc::pick(256), how = mc::pick(3); mc::note("format byte %d entry %d", f, how); for (B e : valid()) { e[0] = f; decode(e, how); e.resize(33); decode(e, how); e.resize(1); decode(e, how); } });
	mc::explore("compressed-x", {1, 0, 60}, [] { int x = mc::pick(mc::thorough ? 2000 : 400), fmt = 2 + mc::pick(2), how = mc::pick(3); mc::note("compressed x=%d format %d", x, fmt); B e(33, 0); e[0] = fmt; e[32] = x & 255; e[31] = x >> 8; decode(e, how); B q = meaning(e); if (q.size()) { B t = q; decode(t, how); t[64] ^= 1; decode(t, how); t = q; BIGNUM *X = BN_bin2bn(&q[1], 32, nullptr); BN_add(X, X, P); if (BN_num_bytes(X) <= 32) { BN_bn2binpad(X, &t[1], 32); decode(t, how); B c = e; BN_bn2binpad(X, &c[1], 32); decode(c, how); } BN_free(X); } else { for (int y = 0; y < 4; ++y) { B t(65, 0); t[0] = 4; memcpy(&t[1], &e[1], 32); t[64] = y; decode(t, how); } } });
	mc::explore("special", {1, 0, 60}, [] { int c = mc::pick(12), how = mc::pick(3); mc::note("special case %d entry %d", c, how); B e = valid()[0], p = unhex("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF"); auto sw = [&](int a, const B &v) { memcpy(&e[a], v.data(), 32); }; switch (c) { case 0: e = {0}; break; case 1: e.assign(65, 0); break; case 2: e.assign(65, 0); e[0] = 4; break; case 3: e.assign(65, 0xff); e[0] = 4; break; case 4: sw(1, p); break; case 5: sw(33, p); break; case 6: { B x(e.begin() + 1, e.begin() + 33), y(e.begin() + 33, e.end()); sw(1, y); sw(33, x); break; } case 7: sw(33, B(valid()[1].begin() + 33, valid()[1].end())); break; case 8: { BIGNUM *y = BN_bin2bn(&e[33], 32, nullptr); BN_sub(y, P, y); BN_bn2binpad(y, &e[33], 32); BN_free(y); break; } case 9: e = unhex("0479be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"); break; case 10: e.assign(1, 4); break; case 11: e.clear(); } decode(e, how); });
	if (mc::thorough) mc::explore("double-corruptions", {2, 0, 60}, [] { int a = mc::pick(65), b = mc::pick(65); if (b <= a) return; mc::note("bytes %d and %d", a, b); B e = valid()[1]; for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) { B t = e; t[a] ^= 1 << i; t[b] ^= 1 << j; decode(t, 0); } });
	mc::explore("sequences", {1, 0, 60}, [] {            // several points in one message, the k-th one bad
		int n = 1 + mc::pick(4), k = mc::pick(n + 1), kind = mc::pick(3); mc::note("%d points, bad one at %d, kind %d", n, k, kind); bool bad = k < n; MemIO io(4096); vector<B> es; for (int i = 0; i < n; ++i) { B e = valid()[i % 4]; if (i == k) { if (kind == 0) e[40] ^= 1; else if (kind == 1) e[0] = 5; else e.resize(64); } es.push_back(e); uint32_t l = e.size(); io.send_data(&l, 4); io.send_data(e.data(), l); } vector<Point> p(n); bool done = false; int rc = mc::guarded([&] { io.recv_pt(gp(), p.data(), n); done = true; }); MC_REQUIRE(done == !bad && (done || rc != 0), "%s (exit %d)", done ? "accepted an invalid point" : "rejected valid points", rc); for (int i = 0; i < (bad ? k : n); ++i) MC_REQUIRE(encode(p[i]) == es[i], "point %d differs", i); mc::step(n); mc::points(1); });
}
