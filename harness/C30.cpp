// C30: correlation-robust hashes == their definitions.
#include "mc.h"
#include "ref.h"
#include <utility>
using namespace emp; using namespace ref; using std::vector; using std::string;
static block rsigma(block a) { uint64_t v[2]; memcpy(v, &a, 16); return blk(v[1] ^ v[0], v[1]); }   // sigma(hi||lo) = (hi^lo)||hi  (checked to be a linear orthomorphism below)
static block crh(Aes &a, block x) { return bx(a.enc(x), x); }
static block ccrh(Aes &a, block x) { return crh(a, rsigma(x)); }
static block tccrh(Aes &a, block x, uint64_t i) { block p = a.enc(x); return bx(a.enc(bx(p, blk(0, i))), p); }
static block in(int base, int i) { return i % 5 == 4 ? onehot((base + i) % 128) : pat(base * 131 + i); }
template <int N> static void tmpl(int base) {
	block key = base % 3 == 0 ? blk(0, 0) : pat(base + 3); Aes a(&key); CRH c(key); CCRH cc(key); TCCRH t(key); uint64_t id = base % 4 == 0 ? 0 : base % 4 == 1 ? 0xfffffffffffffffdULL : base * 1000;
	for (int inplace = 0; inplace < 2; ++inplace) {
		Arr x(N), y(N); auto init = [&] { for (int i = 0; i < N; ++i) { x[i] = in(base, i); y[i] = blk(0xA5A5, i); } }; auto keep = [&] { for (int i = 0; i < N; ++i) MC_REQUIRE(inplace || eq(x[i], in(base, i)), "H<%d> changed its input", N); };
		block *o = inplace ? (block *)x : (block *)y;
		init(); c.H<N>(o, x); for (int i = 0; i < N; ++i) MC_REQUIRE(eq(o[i], crh(a, in(base, i))), "CRH::H<%d>%s: block %d", N, inplace ? " in place" : "", i); keep();
		init(); cc.H<N>(o, x); for (int i = 0; i < N; ++i) MC_REQUIRE(eq(o[i], ccrh(a, in(base, i))), "CCRH::H<%d>%s: block %d", N, inplace ? " in place" : "", i); keep();
		init(); t.H<N>(o, x, id); for (int i = 0; i < N; ++i) MC_REQUIRE(eq(o[i], tccrh(a, in(base, i), id + i)), "TCCRH::H<%d>%s: block %d with id %lu", N, inplace ? " in place" : "", i, id); keep();
		mc::step(3 * N); mc::points(3);
	}
}
template <int... N> static void tmpl_all(int base, std::integer_sequence<int, N...>) { int z[] = {(tmpl<N + 1>(base), 0)...}; (void)z; }
static block key_i(block s, uint64_t i) { return bx(s, blk(i, 0)); }
// one call of the re-keyed hash
template <int B, int K, int H, bool C> static void mit_call(MITCCRH<B> &m, vector<block> &v) { Arr b(K * H); for (int i = 0; i < K * H; ++i) b[i] = v[i]; if (C) m.template hash_cir<K, H>(b); else m.template hash<K, H>(b); v.assign(b.p, b.p + K * H); }
typedef void (*Call)(MITCCRH<8> &, vector<block> &);
struct Shape { int k, h; bool c; Call f; };
#define S8(K, H) {K, H, false, mit_call<8, K, H, false>}, {K, H, true, mit_call<8, K, H, true>}
static const vector<Shape> shapes{S8(1, 1), S8(1, 2), S8(1, 3), S8(2, 1), S8(2, 2), S8(2, 4), S8(4, 1), S8(4, 2), S8(8, 1), S8(8, 2), S8(1, 8), S8(4, 3)};
static vector<block> expect(const Shape &s, block S, uint64_t k0, const vector<block> &x) { vector<block> r(s.k * s.h); for (int i = 0; i < s.k; ++i) { block k = key_i(S, k0 + i); Aes a(&k); for (int j = 0; j < s.h; ++j) { block y = s.c ? rsigma(x[i * s.h + j]) : x[i * s.h + j]; r[i * s.h + j] = bx(a.enc(y), y); } } return r; }
static bool veq(const vector<block> &a, const vector<block> &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * 16) == 0; }
template <int B, int K, int H> static void mit_uniform(int base) {
	MITCCRH<B> *m = new MITCCRH<B>(); block S = base ? pat(base) : blk(0, 0); m->setS(S); uint64_t k0 = 0; Shape s{K, H, false, nullptr}; int x = 0;
	for (int i = 0; i < 3 * B / K + 2; ++i) { vector<block> v; for (int j = 0; j < K * H; ++j) v.push_back(in(base, x++)); s.c = i & 1; auto w = expect(s, S, k0, v); if (s.c) mit_call<B, K, H, true>(*m, v); else mit_call<B, K, H, false>(*m, v); MC_REQUIRE(veq(v, w), "MITCCRH<%d>: call %d of hash<%d,%d> is not the hash under keys %lu.. of the start point", B, i, K, H, k0); k0 += K; mc::step(); } mc::points(1); delete m;
}
MC_MAIN("C30") {
	mc::explore("sigma", {1, 0, 60}, [] {         // sigma is the stated linear orthomorphism on a basis and all pairs of basis elements
		int i = mc::pick(128), j = mc::pick(129); block x = onehot(i), y = j == 128 ? blk(0, 0) : onehot(j); mc::note("sigma of bits %d,%d", i, j); block z = bx(x, y); if (i == j) z = blk(~0ULL, ~0ULL);
		MC_REQUIRE(eq(sigma(z), rsigma(z)), "sigma(%s) = %s", hex(z).c_str(), hex(sigma(z)).c_str()); mc::step(); mc::points(1);
	});
	mc::explore("values", {1, 0, 60}, [] {        // single-block forms over the byte alphabet
		static vector<block> al = bytes_alphabet(); int i = mc::pick((int)al.size()); block x = al[i]; mc::note("block %s", hex(x).c_str()); block z = blk(0, 0); Aes a(&z); CRH c; CCRH cc; TCCRH t;
		MC_REQUIRE(eq(c.H(x), crh(a, x)), "CRH::H"); MC_REQUIRE(eq(cc.H(x), ccrh(a, x)), "CCRH::H"); for (uint64_t id : vector<uint64_t>{0, 1, (uint64_t)i << 40, ~0ULL, 1ULL << 63, 1ULL << 32}) MC_REQUIRE(eq(t.H(x, id), tccrh(a, x, id)), "TCCRH::H with id %lx", id);
		block k = pat(i); Aes b(&k); CRH c2(k); CCRH cc2(k); TCCRH t2(k); MC_REQUIRE(eq(c2.H(x), crh(b, x)) && eq(cc2.H(x), ccrh(b, x)) && eq(t2.H(x, i), tccrh(b, x, i)), "keyed variant"); mc::step(11); mc::points(1);
	});
	mc::explore("templates", {1, 0, 60}, [] { int b = mc::pick(mc::thorough ? 40 : 8); mc::note("variant %d, compile-time batches 1..20,32,64", b); tmpl_all(b, std::make_integer_sequence<int, 20>()); tmpl<32>(b); tmpl<64>(b); });
	mc::explore("Hn", {1, 0, 60}, [] {            // every length, separate / in place, with and without scratch
		static const vector<int> big{127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 600, 1000, 1024, 1025, 4095, 4097, 10000, 65537}; int bs = mc::thorough ? 600 : 80, cc0 = mc::pick(bs + (int)big.size()), n = cc0 < bs ? cc0 : big[cc0 - bs], form = mc::pick(4); bool ip = form & 1, sc = form & 2; mc::note("length %d %s %s", n, ip ? "in place" : "", sc ? "scratch" : ""); block key = n % 3 ? pat(n) : blk(0, 0); Aes a(&key); CRH c(key); CCRH cc(key); TCCRH t(key); uint64_t id = n % 2 ? n * 77 : 0xfffffffffffffff0ULL;
		Arr x(n), y(n), s(n); block *o = ip ? (block *)x : (block *)y, *scr = sc ? (block *)s : nullptr; auto init = [&] { for (int i = 0; i < n; ++i) x[i] = in(n, i); };
		init(); c.Hn(o, x, n, scr); for (int i = 0; i < n; ++i) { MC_REQUIRE(eq(o[i], crh(a, in(n, i))), "CRH::Hn block %d", i); MC_REQUIRE(ip || eq(x[i], in(n, i)), "CRH::Hn changed its input"); }
		init(); cc.Hn(o, x, n, scr); for (int i = 0; i < n; ++i) { MC_REQUIRE(eq(o[i], ccrh(a, in(n, i))), "CCRH::Hn block %d", i); MC_REQUIRE(ip || eq(x[i], in(n, i)), "CCRH::Hn changed its input"); }
		init(); t.Hn(o, x, id, n, scr); for (int i = 0; i < n; ++i) { MC_REQUIRE(eq(o[i], tccrh(a, in(n, i), id + i)), "TCCRH::Hn block %d", i); MC_REQUIRE(ip || eq(x[i], in(n, i)), "TCCRH::Hn changed its input"); }
		mc::step(3 * n); mc::points(3);
	});
	mc::explore("rekeyed-uniform", {1, 0, 60}, [] {
		int b = mc::pick(mc::thorough ? 30 : 6); mc::note("variant %d", b); mit_uniform<8, 1, 1>(b); mit_uniform<8, 2, 1>(b); mit_uniform<8, 2, 2>(b); mit_uniform<8, 4, 2>(b); mit_uniform<8, 8, 2>(b); mit_uniform<8, 8, 8>(b); mit_uniform<4, 2, 2>(b); mit_uniform<4, 4, 1>(b); mit_uniform<2, 1, 3>(b); mit_uniform<2, 2, 2>(b); mit_uniform<16, 4, 2>(b); mit_uniform<16, 16, 1>(b); mit_uniform<1, 1, 2>(b); mit_uniform<6, 3, 2>(b); mit_uniform<6, 2, 1>(b); });
	// every call history: uniform K must follow the running index exactly; after any mix, calls use consecutive keys never used before; renewing with an index restarts there
	mc::explore("rekeyed-histories", {2, 0, 60}, [] {
		MITCCRH<8> *m = new MITCCRH<8>(); block S = pat(77); m->setS(S); uint64_t exact = 0, hi = 0; int depth = mc::thorough ? 5 : 4, x = 0; bool mixed = false; int lastk = 0;
		for (int i = 0; i < depth; ++i) {
			int o = mc::pick((int)shapes.size() / 2 + 4);
			if (o == (int)shapes.size() / 2 + 3) { mc::note("setS(same) "); m->setS(S); mixed = true; lastk = 99; continue; }      // the same start point again: what was used stays used
			if (o == (int)shapes.size() / 2) { uint64_t g = mc::choose(vector<uint64_t>{0, 100, 0xffffffffffULL}); mc::note("renew(%lu) ", g); m->renew_ks(g); exact = hi = g; mixed = false; lastk = 0; continue; }
			if (o == (int)shapes.size() / 2 + 1) { S = pat(78 + i); mc::note("setS+renew(0) "); m->setS(S); m->renew_ks(0); exact = hi = 0; mixed = false; lastk = 0; continue; }
			if (o == (int)shapes.size() / 2 + 2) { mc::note("5x<1,1> "); for (int j = 0; j < 5; ++j) { vector<block> v{in(3, x++)}; vector<block> in0 = v; shapes[0].f(*m, v); if (lastk && lastk != 1) mixed = true; lastk = 1; uint64_t k = hi; bool ok = false; for (; k < hi + 8 && !ok; ++k) ok = veq(v, expect(shapes[0], S, k, in0)); MC_REQUIRE(ok && (mixed || k == exact + 1), "call uses a key that is not the next unused one"); exact = hi = k; mc::step(); } continue; }
			const Shape &s = shapes[2 * o + (i & 1)]; mc::note("%s<%d,%d> ", s.c ? "hash_cir" : "hash", s.k, s.h); vector<block> v; for (int j = 0; j < s.k * s.h; ++j) v.push_back(in(9, x++)); vector<block> in0 = v; if (lastk && lastk != s.k) mixed = true; lastk = s.k; s.f(*m, v);
			bool ok = false; uint64_t k = hi; for (; k < hi + 8; ++k) if (veq(v, expect(s, S, k, in0))) { ok = true; break; }
			MC_REQUIRE(ok, "call %d: result is not the hash under %d consecutive keys unused so far (next unused index %lu)", i, s.k, hi); MC_REQUIRE(mixed || k == exact, "call %d: uses key index %lu, the running index is %lu", i, k, exact);
			exact = hi = k + s.k; mc::step(); mc::state(mc::hmix(hi, mc::hmix(mixed, mc::hbytes(&S, 16))));
		}
		delete m;
	});
}
