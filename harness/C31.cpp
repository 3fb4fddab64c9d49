// C31: GF(2^128) arithmetic.
#include "mc.h"
#include "ref.h"
#include <bitset>
#include <utility>
using namespace emp; using namespace ref; using std::vector; using std::string;
struct W { uint64_t w[4]; };                     // polynomial of degree < 256
static W cl(block a, block b) { uint64_t x[2], y[2]; memcpy(x, &a, 16); memcpy(y, &b, 16); W r{{0, 0, 0, 0}}; for (int i = 0; i < 128; ++i) if (x[i / 64] >> (i % 64) & 1) for (int k = 0; k < 2; ++k) { int s = i % 64, o = i / 64 + k; r.w[o] ^= y[k] << s; if (s) r.w[o + 1] ^= y[k] >> (64 - s); } return r; }
static block red(W r) { for (int d = 255; d >= 128; --d) if (r.w[d / 64] >> (d % 64) & 1) for (int e : {128, 7, 2, 1, 0}) { int p = d - 128 + e; r.w[p / 64] ^= 1ULL << (p % 64); } return blk(r.w[1], r.w[0]); }
static block gm(block a, block b) { return red(cl(a, b)); }
static block rev(block a) { uint64_t x[2], y[2] = {0, 0}; memcpy(x, &a, 16); for (int i = 0; i < 128; ++i) if (x[i / 64] >> (i % 64) & 1) y[(127 - i) / 64] |= 1ULL << ((127 - i) % 64); return blk(y[1], y[0]); }
static block lo(const W &r) { return blk(r.w[1], r.w[0]); } static block hi(const W &r) { return blk(r.w[3], r.w[2]); }
static void one(block a, block b) {
	block l, h, r; mul128(a, b, &l, &h); W w = cl(a, b); MC_REQUIRE(eq(l, lo(w)) && eq(h, hi(w)), "mul128(%s,%s) = %s:%s, expected %s:%s", hex(a).c_str(), hex(b).c_str(), hex(h).c_str(), hex(l).c_str(), hex(hi(w)).c_str(), hex(lo(w)).c_str());
	gfmul(a, b, &r); MC_REQUIRE(eq(r, red(w)), "gfmul(%s,%s) = %s, expected %s", hex(a).c_str(), hex(b).c_str(), hex(r).c_str(), hex(red(w)).c_str());
	block x = a; gfmul(x, b, &x); MC_REQUIRE(eq(x, red(w)), "gfmul with result aliasing an operand"); 
	gfmul_reflect(a, b, &r); block e = rev(gm(rev(a), rev(b))); MC_REQUIRE(eq(r, e), "gfmul_reflect(%s,%s) = %s, expected %s", hex(a).c_str(), hex(b).c_str(), hex(r).c_str(), hex(e).c_str());
	mc::step(4); mc::points(1);
}
static block v(int base, int i) { return i % 7 == 3 ? onehot((base + 3 * i) % 128) : i % 7 == 5 ? blk(~0ULL, ~0ULL) : pat(base * 211 + i); }
template <int N> static void tm(int base) {
	Arr a(N), b(N), c(N); for (int i = 0; i < N; ++i) { a[i] = v(base, i); b[i] = v(base + 50, i); } block r, s = blk(0, 0); Arr rr(2); W t{{0, 0, 0, 0}}; block xs = blk(0, 0); for (int i = 0; i < N; ++i) { W w = cl(a[i], b[i]); for (int k = 0; k < 4; ++k) t.w[k] ^= w.w[k]; xs = bx(xs, a[i]); } s = red(t);
	vector_inn_prdt_sum_red<N>(&r, a, b); MC_REQUIRE(eq(r, s), "vector_inn_prdt_sum_red<%d>", N); vector_inn_prdt_sum_no_red<N>(rr, a, b); MC_REQUIRE(eq(rr[0], lo(t)) && eq(rr[1], hi(t)), "vector_inn_prdt_sum_no_red<%d>", N); vector_self_xor<N>(&r, a); MC_REQUIRE(eq(r, xs), "vector_self_xor<%d>", N);
	uni_hash_coeff_gen<N>(c, pat(base)); block p = pat(base); for (int i = 0; i < N; ++i) { MC_REQUIRE(eq(c[i], p), "uni_hash_coeff_gen<%d>: coefficient %d is not seed^%d", N, i, i + 1); p = gm(p, pat(base)); } mc::step(4); mc::points(4);
}
template <int... N> static void tm_all(int base, std::integer_sequence<int, N...>) { int z[] = {(tm<N + 1>(base), 0)...}; (void)z; }
MC_MAIN("C31") {
	mc::explore("basis", {1, 0, 60}, [] { int i = mc::pick(128), j = mc::pick(128); mc::note("x^%d * x^%d", i, j); one(onehot(i), onehot(j)); });
	mc::explore("bilinearity", {2, 0, 60}, [] {   // sums of two basis elements on either side (extends the basis result to all values when the code is linear)
		int i = mc::pick(128), j = mc::pick(i + 1), n = 128; mc::note("pairs x^%d+x^%d", i, j); block a = bx(onehot(i), onehot(j)); if (i == j) a = bx(onehot(i), blk(~0ULL, ~0ULL)); for (int k = 0; k < n; ++k) { int kk = k; one(a, onehot(kk)); one(onehot(kk), a); block b = bx(onehot(kk), blk(~0ULL, ~0ULL)); one(a, b); one(a, bx(onehot(kk), onehot((kk + i) % 128))); } });
	mc::explore("alphabet", {1, 0, 60}, [] { static vector<block> al = [] { vector<block> r = bytes_alphabet(); for (int i = 0; i < 128; ++i) { r.push_back(bx(onehot(i), blk(~0ULL, ~0ULL))); uint64_t m = i < 64 ? 0 : (i == 127 ? ~0ULL : (1ULL << (i - 63)) - 1); r.push_back(blk(m, i < 63 ? (1ULL << (i + 1)) - 1 : ~0ULL)); } return r; }();
		int i = mc::pick((int)al.size()); mc::note("operand %s", hex(al[i]).c_str()); for (int j = 0; j < (mc::thorough ? 2000 : 60); ++j) { block b = j % 3 == 0 ? al[(i * 31 + j * 177) % al.size()] : j % 3 == 1 ? pat(i * 300 + j) : rev(al[(i + j) % al.size()]); one(al[i], b); one(b, al[i]); } });
	mc::explore("reduce", {1, 0, 60}, [] {         // every double-length basis element and pairs of them
		int i = mc::pick(256), j = mc::pick(256); W w{{0, 0, 0, 0}}; w.w[i / 64] ^= 1ULL << (i % 64); w.w[j / 64] ^= 1ULL << (j % 64); if (i == j) w.w[i / 64] ^= 1ULL << (i % 64); mc::note("x^%d+x^%d", i, j);
		block r = reduce(lo(w), hi(w)); MC_REQUIRE(eq(r, red(w)), "reduce(x^%d + x^%d) = %s, expected %s", i, j, hex(r).c_str(), hex(red(w)).c_str());
		// reflected: inputs are the bit-reversed product shifted as mul128 of reversed operands produces (degree <= 254)
		if (i < 255 && j < 255) { W q{{0, 0, 0, 0}}; for (int d = 0; d < 255; ++d) if (w.w[d / 64] >> (d % 64) & 1) q.w[(254 - d) / 64] ^= 1ULL << ((254 - d) % 64); block rr = reduce_reflect(lo(q), hi(q)); MC_REQUIRE(eq(rr, rev(red(w))), "reduce_reflect of x^%d + x^%d", i, j); }
		mc::step(2); mc::points(1); });
	mc::explore("vectors", {1, 0, 60}, [] {        // every length: inner products, coefficients, XOR sums
		static const vector<int> big{127, 128, 129, 255, 256, 257, 258, 259, 511, 513, 1000, 1023, 1025, 4095, 4097, 65537}; int bs = mc::thorough ? 600 : 70, c0 = mc::pick(bs + (int)big.size()), n = c0 < bs ? c0 : big[c0 - bs], base = mc::pick(3); mc::note("length %d variant %d", n, base); Arr a(n), b(n), rr(2); for (int i = 0; i < n; ++i) { a[i] = v(base + n, i); b[i] = v(base + n + 50, i); } W t{{0, 0, 0, 0}}; block xs = blk(0, 0), r; for (int i = 0; i < n; ++i) { W w = cl(a[i], b[i]); for (int k = 0; k < 4; ++k) t.w[k] ^= w.w[k]; xs = bx(xs, a[i]); }
		vector_inn_prdt_sum_red(&r, a, b, n); MC_REQUIRE(eq(r, red(t)), "vector_inn_prdt_sum_red of length %d", n); vector_inn_prdt_sum_no_red(rr, a, b, n); MC_REQUIRE(eq(rr[0], lo(t)) && eq(rr[1], hi(t)), "vector_inn_prdt_sum_no_red of length %d", n); vector_self_xor(&r, a, n); MC_REQUIRE(eq(r, xs), "vector_self_xor of length %d", n);
		if (!n) { Arr c(1); c[0] = pat(77); uni_hash_coeff_gen(c, pat(5), 0); MC_REQUIRE(eq(c[0], pat(77)), "uni_hash_coeff_gen of size 0 wrote a coefficient"); }
		if (n) { Arr c(n); block s = base == 0 ? pat(n) : base == 1 ? onehot(n % 128) : blk(~0ULL, n); uni_hash_coeff_gen(c, s, n); block p = s; for (int i = 0; i < n; ++i) { MC_REQUIRE(eq(c[i], p), "uni_hash_coeff_gen of size %d: coefficient %d is not seed^%d", n, i, i + 1); p = gm(p, s); } } mc::step(4); mc::points(1); });
	mc::explore("templates", {1, 0, 60}, [] { int b = mc::pick(mc::thorough ? 20 : 4); mc::note("variant %d compile-time lengths 1..33,128", b); tm_all(b, std::make_integer_sequence<int, 33>()); tm<128>(b); });
	mc::explore("packing", {1, 0, 60}, [] { int i = mc::pick(128), k = mc::pick(4); GaloisFieldPacking g; Arr d(128); for (int j = 0; j < 128; ++j) d[j] = k == 0 ? blk(0, 0) : k == 1 ? pat(i * 128 + j) : k == 2 ? blk(0, (j * 7 + i) & 1) : v(i, j); if (k == 0) d[i] = i % 2 ? blk(0, 1) : pat(i); mc::note("packing %d kind %d", i, k);
		W t{{0, 0, 0, 0}}; for (int j = 0; j < 128; ++j) { W w = cl(d[j], onehot(j)); for (int q = 0; q < 4; ++q) t.w[q] ^= w.w[q]; } block r; g.packing(&r, d); MC_REQUIRE(eq(r, red(t)), "packing = %s, expected %s", hex(r).c_str(), hex(red(t)).c_str()); mc::step(); mc::points(1); });
}
