// C36: conversion, block and transpose utilities.
#include "mc.h"
#include <set>
#include "ref.h"
using namespace emp; using namespace ref; using std::vector; using std::string;
static bool bit(const void *p, int i) { return ((const unsigned char *)p)[i / 8] >> (i % 8) & 1; }
struct Mem {                // n bytes between canaries, exactly-sized for the sanitizer at the end
	unsigned char *base, *p; int n; Mem(int n, int off = 0) : n(n) { base = (unsigned char *)malloc(64 + off + n); memset(base, 0x5A, 64 + off + n); p = base + 64 + off; } bool ok() { for (unsigned char *q = base; q < p; ++q) if (*q != 0x5A) return false; return true; } ~Mem() { free(base); } };
static void content(unsigned char *p, int n, int kind) { block z; for (int i = 0; i < n; ++i) { if (i % 16 == 0) z = pat(kind * 1000 + i / 16); p[i] = kind == 0 ? 0 : kind == 1 ? 0xff : (unsigned char)(((unsigned char *)&z)[i % 16] * 37 + i * 73 + kind); } }
template <class T> static void tofrom(int len, int kind) {      // kind < 8*nbytes: one-hot; then complement; then mixed contents
	int nb = (len + 7) / 8; int tb = ((nb + (int)sizeof(T) - 1) / (int)sizeof(T)) * (int)sizeof(T); if (tb == 0) tb = sizeof(T);
	for (int rev = 0; rev < 2; ++rev) {
		Mem in(tb), out(len); if (kind < len) { memset(in.p, 0, tb); in.p[kind / 8] = 1 << (kind % 8); } else if (kind < 2 * len) { memset(in.p, 0xff, tb); in.p[(kind - len) / 8] &= ~(1 << ((kind - len) % 8)); } else content(in.p, tb, kind - 2 * len); vector<unsigned char> keep(in.p, in.p + tb);
		if (rev) to_bool<T>((bool *)out.p, (const T *)in.p, len, true); else to_bool<T>((bool *)out.p, (const T *)in.p, len);
		for (int i = 0; i < len; ++i) MC_REQUIRE(out.p[rev ? len - 1 - i : i] == (bit(keep.data(), i) ? 1 : 0), "to_bool(len %d%s): bit %d", len, rev ? ", reversed" : "", i);
		MC_REQUIRE(out.ok() && in.ok() && memcmp(in.p, keep.data(), tb) == 0, "to_bool touched memory outside its result");
		for (int fill = 0; fill < 2; ++fill) { Mem back(tb); memset(back.p, fill ? 0xff : 0, tb); if (rev) from_bool<T>((const bool *)out.p, (T *)back.p, len, true); else from_bool<T>((const bool *)out.p, (T *)back.p, len);
			for (int i = 0; i < tb * 8; ++i) MC_REQUIRE(bit(back.p, i) == (i < len ? bit(keep.data(), i) : fill != 0), "from_bool(len %d%s, destination initially %s): bit %d", len, rev ? ", reversed" : "", fill ? "ones" : "zeros", i); MC_REQUIRE(back.ok(), "from_bool wrote before its destination"); }
		mc::step(3); mc::points(1);
	}
}
template <class T> static void ints(int seg) {    // every 16-bit slice value placed at every byte of T
	const int w = sizeof(T) * 8; vector<T> vals; typedef typename std::make_unsigned<T>::type U; for (int v = 0; v < 256; ++v) for (int s = 0; s < w; s += 8) { vals.push_back((T)((U)v << s)); vals.push_back((T)~((U)v << s)); vals.push_back((T)(((U)v << s) ^ (U)0x9E3779B97F4A7C15ULL)); }
	for (size_t k = seg; k < vals.size(); k += 8) { T x = vals[k]; for (int len = 0; len <= w; ++len) { Mem m(len); int_to_bool<T>((bool *)m.p, x, len); for (int i = 0; i < len; ++i) MC_REQUIRE(m.p[i] == (((U)x >> i) & 1), "int_to_bool(%lx, len %d): bit %d", (unsigned long)x, len, i); MC_REQUIRE(m.ok(), "int_to_bool wrote outside"); if (len == w) { T y = bool_to_int<T>((bool *)m.p); MC_REQUIRE(y == x, "bool_to_int(bits of %lx) = %lx", (unsigned long)x, (unsigned long)y); } } mc::step(w + 2); mc::points(1); mc::beat(); }
}
MC_MAIN("C36") {
	mc::explore("to/from bool", {2, 0, 60}, [] { int t = mc::pick(5), N = mc::thorough ? 200 : 137, q = mc::pick(N + 12), len = q < N ? q : vector<int>{255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 70001}[q - N]; mc::note("type %d length %d", t, len); int step = q < N ? 1 : 1 + len / 24; for (int k = 0; k < 2 * len + 6; k += (k + step < 2 * len ? step : 1)) { if (t == 0) tofrom<uint8_t>(len, k); else if (t == 1) tofrom<uint16_t>(len, k); else if (t == 2) tofrom<uint32_t>(len, k); else if (t == 3) tofrom<uint64_t>(len, k); else tofrom<char>(len, k); mc::beat(); } });
	mc::explore("ints", {1, 0, 60}, [] { int t = mc::pick(8), s = mc::pick(8); mc::note("int type %d part %d", t, s); switch (t) { case 0: ints<uint8_t>(s); break; case 1: ints<uint16_t>(s); break; case 2: ints<uint32_t>(s); break; case 3: ints<uint64_t>(s); break; case 4: ints<int8_t>(s); break; case 5: ints<int16_t>(s); break; case 6: ints<int32_t>(s); break; default: ints<int64_t>(s); } });
	mc::explore("blocks", {1, 0, 60}, [] {         // bool<->block, construction, LSB, bit setting
		static vector<block> al = [] { vector<block> r = bytes_alphabet(); for (int i = 0; i < 128; ++i) { r.push_back(onehot(i)); r.push_back(bx(onehot(i), blk(~0ULL, ~0ULL))); } for (int i = 0; i < 100; ++i) r.push_back(pat(i)); return r; }(); int i = mc::pick((int)al.size()); block x = al[i]; mc::note("block %s", hex(x).c_str()); uint64_t v[2]; memcpy(v, &x, 16);
		Mem m(128); block_to_bool((bool *)m.p, x); for (int k = 0; k < 128; ++k) MC_REQUIRE(m.p[k] == (bit(&x, k) ? 1 : 0), "block_to_bool: bit %d", k); MC_REQUIRE(eq(bool_to_block((bool *)m.p), x) && m.ok(), "bool_to_block does not invert block_to_bool");
		MC_REQUIRE(eq(makeBlock(v[1], v[0]), x), "makeBlock(hi, lo)"); MC_REQUIRE(getLSB(x) == bit(&x, 0), "getLSB");
		for (int k = 0; k < 128; ++k) { block s = set_bit(x, k), w = x; ((unsigned char *)&w)[k / 8] |= 1 << (k % 8); MC_REQUIRE(eq(s, w), "set_bit(%d)", k); block y = bx(x, onehot(k)); MC_REQUIRE(!cmpBlock(&x, &y, 1), "cmpBlock misses a difference in bit %d", k); } block y = x; MC_REQUIRE(cmpBlock(&x, &y, 1), "cmpBlock of equal blocks");
		MC_REQUIRE(eq(zero_block, blk(0, 0)) && eq(all_one_block, blk(~0ULL, ~0ULL)) && eq(select_mask[0], zero_block) && eq(select_mask[1], all_one_block), "constants"); mc::step(260); mc::points(1); });
	mc::explore("long-block-arrays", {1, 0, 60}, [] {
		int n = mc::choose(vector<int>{32767, 32769, 65535, 65536, 65537, 65600, 131073, (1 << 20) + 3, (1 << 24) / 16 * 5 + 1}); mc::note("%d blocks", n); Arr x(n), y(n), r(n); for (int i = 0; i < n; ++i) { x[i] = blk(i * 77ull, ~(uint64_t)i); y[i] = blk(i ^ 5, i * 0x123456789ull); } xorBlocks_arr(r, x, y, n); for (int i = 0; i < n; ++i) MC_REQUIRE(eq(r[i], bx(x[i], y[i])), "xorBlocks_arr: element %d", i); block c = pat(3); xorBlocks_arr(r, x, c, n); for (int i = 0; i < n; ++i) MC_REQUIRE(eq(r[i], bx(x[i], c)), "xorBlocks_arr with one block: element %d", i); mc::beat();
		for (int i = 0; i < n; ++i) r[i] = x[i]; MC_REQUIRE(cmpBlock(r, x, n), "cmpBlock of equal arrays"); std::set<int> at{0, 1, n / 3, n - 2, n - 1}; for (int k = 4; k <= 24; ++k) for (int d = -1; d <= 1; ++d) if ((1 << k) + d < n) { at.insert((1 << k) + d); at.insert(n - (1 << k) - d); } for (int i : at) if (i >= 0 && i < n) for (int b : {0, 63, 64, 127}) { block s = r[i]; r[i] = bx(s, onehot(b)); MC_REQUIRE(!cmpBlock(r, x, n), "cmpBlock of %d blocks misses a difference in block %d bit %d", n, i, b); r[i] = s; } mc::step(3); mc::points(1); });
	mc::explore("block-arrays", {1, 0, 60}, [] {    // xor and comparison over every length, difference in every position
		int N = mc::thorough ? 130 : 50, sp = mc::pick(N + 10), n = sp < N ? sp : vector<int>{63, 64, 65, 127, 128, 129, 255, 256, 1000, 4099}[sp - N], al = mc::pick(4); mc::note("%d blocks, aliasing %d", n, al); Arr x(n), y(n), r(n); vector<block> xs(n), ys(n); for (int i = 0; i < n; ++i) { x[i] = xs[i] = pat(n * 7 + i); y[i] = ys[i] = i % 3 == 0 ? onehot(i % 128) : pat(i + 9999); } block *o = al == 1 ? (block *)x : al == 2 ? (block *)y : (block *)r;
		if (al == 3) { block c = pat(5); xorBlocks_arr(r, x, c, n); for (int i = 0; i < n; ++i) MC_REQUIRE(eq(r[i], bx(xs[i], c)), "xorBlocks_arr with one block: element %d", i); xorBlocks_arr(x, x, c, n); for (int i = 0; i < n; ++i) MC_REQUIRE(eq(x[i], bx(xs[i], c)), "xorBlocks_arr with one block in place: element %d", i); }
		else { xorBlocks_arr(o, x, y, n); for (int i = 0; i < n; ++i) { MC_REQUIRE(eq(o[i], bx(xs[i], ys[i])), "xorBlocks_arr: element %d", i); MC_REQUIRE((al == 1 || eq(x[i], xs[i])) && (al == 2 || eq(y[i], ys[i])), "xorBlocks_arr changed an operand"); } }
		Arr p(n), q(n); for (int i = 0; i < n; ++i) p[i] = q[i] = xs[i]; MC_REQUIRE(cmpBlock(p, q, n), "cmpBlock of equal arrays of %d", n); for (int i = 0; i < n; ++i) for (int b = 0; b < 128; b += (mc::thorough && sp < N ? 1 : sp < N ? 9 : 64)) { block s = q[i]; q[i] = bx(s, onehot((b + i) % 128)); MC_REQUIRE(!cmpBlock(p, q, n), "cmpBlock of %d blocks misses a difference in block %d bit %d", n, i, (b + i) % 128); q[i] = s; } mc::step(n + 1); mc::points(1); });
	mc::explore("transpose", {2, 0, 60}, [] {       // every shape: every one-hot and one-cold matrix and mixed contents
		int m = mc::thorough ? 24 : 18, r = 8 * (1 + mc::pick(m)), c = 8 * (1 + mc::pick(m)); mc::note("%d x %d", r, c); int nb = r * c / 8; unsigned char *in = (unsigned char *)malloc(nb), *out = (unsigned char *)malloc(nb);
		auto chk = [&](const char *what, int k) { memset(out, 0xEE, nb); sse_trans(out, in, r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_REQUIRE(bit(out + j * r / 8, i) == bit(in + i * c / 8, j), "sse_trans %dx%d of %s %d: entry (%d,%d)", r, c, what, k, i, j); mc::step(); mc::beat(); };
		for (int k = 0; k < 6; ++k) { content(in, nb, k); chk("content", k); }
		// one-hot / one-cold: compare whole outputs
		unsigned char *exp = (unsigned char *)malloc(nb); for (int cold = 0; cold < 2; ++cold) for (int k = 0; k < r * c; ++k) { memset(in, cold ? 0xff : 0, nb); memset(exp, cold ? 0xff : 0, nb); int i = k / c, j = k % c; in[i * c / 8 + j / 8] ^= 1 << (j % 8); exp[j * r / 8 + i / 8] ^= 1 << (i % 8); memset(out, cold ? 0 : 0xff, nb); sse_trans(out, in, r, c); MC_REQUIRE(memcmp(out, exp, nb) == 0, "sse_trans %dx%d of a single %s bit at (%d,%d)", r, c, cold ? "cleared" : "set", i, j); if ((k & 255) == 0) mc::beat(); }
		mc::step(2 * r * c); mc::points(r * c); free(exp); free(in); free(out); });
	mc::explore("transpose-large", {1, 0, 120}, [] { static const vector<std::pair<int, int>> sh{{128, 128}, {128, 1024}, {1024, 128}, {128, 2048}, {136, 264}, {264, 136}, {8, 4096}, {4096, 8}, {120, 1000}, {1000, 120}, {256, 512}, {40, 4000}, {1024, 1024}, {128, 65536 + 128}, {65544, 8}, {16, 70000}}; auto s = mc::choose(sh); int r = s.first, c = s.second, nb = r * c / 8; int k = mc::pick(5); mc::note("%d x %d content %d", r, c, k); vector<unsigned char> in(nb), out(nb); content(in.data(), nb, k); sse_trans(out.data(), in.data(), r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_REQUIRE(bit(&out[j * (r / 8)], i) == bit(&in[i * (c / 8)], j), "sse_trans %dx%d: entry (%d,%d)", r, c, i, j); mc::step(); mc::points(1); });
	mc::explore("transpose-huge", {1, 0, 240}, [] {  // more than 2^32 entries, as OT extension of many instances uses it
		size_t r = 128, c = ((size_t)1 << 25) + 256, nb = r * c / 8; mc::note("%zu x %zu", r, c); uint64_t *in = (uint64_t *)malloc(nb), x = 88172645463325252ULL; unsigned char *out = (unsigned char *)malloc(nb); for (size_t i = 0; i < nb / 8; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; in[i] = x; if (!(i & 0xfffff)) mc::beat(); } sse_trans(out, (uint8_t *)in, r, c); mc::beat(); auto b = [](const void *p, size_t i) { return ((const unsigned char *)p)[i / 8] >> (i % 8) & 1; };
		for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; j += (j < 4096 || j > c - 4096 || ((j + 512) & 0xffffff) < 1024 ? 1 : 1009)) if (b(out, j * r + i) != b(in, i * c + j)) mc::fail("sse_trans %zux%zu: entry (%zu,%zu)", r, c, i, j); mc::step(); mc::points(1); free(in); free(out); });
}
