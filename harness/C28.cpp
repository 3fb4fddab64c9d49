// C28: AES primitives == AES-128.
#include "mc.h"
#include "ref.h"
#include <utility>
using namespace emp; using namespace ref; using std::vector; using std::string;
template <int N> static void opt_ks(int base, const vector<block> &al) {
	block *uk = (block *)aligned_alloc(16, N * 16); emp::AES_KEY *k = (emp::AES_KEY *)aligned_alloc(16, N * sizeof(emp::AES_KEY));
	for (int i = 0; i < N; ++i) uk[i] = al[(base + i * 17) % al.size()];
	vector<block> keep(uk, uk + N); AES_opt_key_schedule<N>(uk, k);
	for (int i = 0; i < N; ++i) { MC_REQUIRE(eq(uk[i], keep[i]), "key schedule changed the user key"); emp::AES_KEY r; AES_set_encrypt_key(keep[i], &r); Aes a(&keep[i]);
		for (int j = 0; j < 3; ++j) { block x = pat(j + i), y = x; AES_ecb_encrypt_blks(&y, 1, &k[i]); MC_REQUIRE(eq(y, a.enc(x)), "parallel schedule of %d keys, key %d = %s: block %s encrypts to %s, AES-128 gives %s", N, i, hex(keep[i]).c_str(), hex(x).c_str(), hex(y).c_str(), hex(a.enc(x)).c_str()); y = x; AES_ecb_encrypt_blks(&y, 1, &r); MC_REQUIRE(eq(y, a.enc(x)), "schedule of key %s wrong", hex(keep[i]).c_str()); } }
	mc::step(N); mc::points(N); free(uk); free(k);
}
template <int K, int E> static void para(int base) {
	emp::AES_KEY *k = (emp::AES_KEY *)aligned_alloc(16, K * sizeof(emp::AES_KEY)); block uk[K]; for (int i = 0; i < K; ++i) { uk[i] = pat(base * 100 + i); AES_set_encrypt_key(uk[i], &k[i]); }
	Arr b(K * E); for (int i = 0; i < K * E; ++i) b[i] = pat(base * 1000 + i); vector<block> in(b.p, b.p + K * E);
	ParaEnc<K, E>(b, k);
	for (int i = 0; i < K; ++i) { Aes a(&uk[i]); for (int j = 0; j < E; ++j) MC_REQUIRE(eq(b[i * E + j], a.enc(in[i * E + j])), "ParaEnc<%d,%d>: block %d of key %d is not AES under that key", K, E, j, i); }
	mc::step(K * E); mc::points(1); free(k);
}
template <int K, int... E> static void para_row(int base, std::integer_sequence<int, E...>) { int z[] = {(para<K, E + 1>(base), 0)...}; (void)z; }
template <int... K> static void para_all(int base, std::integer_sequence<int, K...>) { int z[] = {(para_row<K + 1>(base, std::make_integer_sequence<int, 9>()), 0)...}; (void)z; }
template <int N> static void enc_t(int base) { block uk = pat(base + 9); emp::AES_KEY k; AES_set_encrypt_key(uk, &k); Aes a(&uk); Arr b(N); for (int i = 0; i < N; ++i) b[i] = pat(base + i); vector<block> in(b.p, b.p + N); AES_ecb_encrypt_blks<N>(b, &k); for (int i = 0; i < N; ++i) MC_REQUIRE(eq(b[i], a.enc(in[i])), "AES_ecb_encrypt_blks<%d>: block %d", N, i); mc::step(N); mc::points(1); }
template <int... N> static void enc_all(int base, std::integer_sequence<int, N...>) { int z[] = {(enc_t<N + 1>(base), 0)...}; (void)z; }
template <int... N> static void ks_all(int base, const vector<block> &al, std::integer_sequence<int, N...>) { int z[] = {(opt_ks<N + 1>(base, al), 0)...}; (void)z; }
MC_MAIN("C28") {
	static vector<block> al = bytes_alphabet(); for (int i = 0; i < 128; ++i) { al.push_back(onehot(i)); al.push_back(bx(onehot(i), blk(~0ULL, ~0ULL))); } for (int i = 0; i < 64; ++i) al.push_back(pat(i));
	mc::explore("keys", {1, 0, 60}, [&] {         // every alphabet key: schedule, encrypt, decrypt
		int i = mc::pick((int)al.size()); block uk = al[i]; mc::note("key %s", hex(uk).c_str()); emp::AES_KEY k, dk, dk2; AES_set_encrypt_key(uk, &k); AES_set_decrypt_key(uk, &dk); AES_set_decrypt_key_fast(&dk2, &k); dk2.rounds = k.rounds; Aes a(&uk);
		for (int j = 0; j < 4; ++j) { block x = j == 0 ? blk(0, 0) : j == 1 ? blk(~0ULL, ~0ULL) : pat(i * 4 + j), y = x; AES_ecb_encrypt_blks(&y, 1, &k); MC_REQUIRE(eq(y, a.enc(x)), "E(%s) = %s, AES-128 gives %s", hex(x).c_str(), hex(y).c_str(), hex(a.enc(x)).c_str());
			block z = y; AES_ecb_decrypt_blks(&z, 1, &dk); MC_REQUIRE(eq(z, x), "decryption does not invert encryption of %s", hex(x).c_str()); z = x; AES_ecb_decrypt_blks(&z, 1, &dk); MC_REQUIRE(eq(z, a.dec(x)), "D(%s) wrong", hex(x).c_str()); z = y; AES_ecb_decrypt_blks(&z, 1, &dk2); MC_REQUIRE(eq(z, x), "fast decryption key differs"); mc::step(4); }
		mc::points(1); mc::outcome(mc::hbytes(&uk, 16));
	});
	mc::explore("blocks", {1, 0, 60}, [&] {       // every alphabet block under a few keys
		int i = mc::pick((int)al.size()); block x = al[i]; mc::note("block %s", hex(x).c_str());
		for (int j = 0; j < 4; ++j) { block uk = pat(1000 + j); emp::AES_KEY k, dk; AES_set_encrypt_key(uk, &k); AES_set_decrypt_key(uk, &dk); Aes a(&uk); block y = x; AES_ecb_encrypt_blks(&y, 1, &k); MC_REQUIRE(eq(y, a.enc(x)), "E(%s) wrong", hex(x).c_str()); y = x; AES_ecb_decrypt_blks(&y, 1, &dk); MC_REQUIRE(eq(y, a.dec(x)), "D(%s) wrong", hex(x).c_str()); mc::step(2);
			PRP p(uk); y = x; p.permute_block(&y, 1); MC_REQUIRE(eq(y, a.enc(x)), "PRP(key) is not AES under its key"); } mc::points(1);
	});
	mc::explore("lengths", {1, 0, 60}, [&] {      // every batch length for the run-time length entry points
		static const vector<int> big{127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 1100, 2047, 2049, 4095, 4096, 4097, 8193, 16385, 32767, 32769, 65535, 65536, 65537, 65545, 131073}; int base = mc::thorough ? 600 : 100, c = mc::pick(base + (int)big.size()), n = c < base ? c : big[c - base]; mc::note("batch of %d blocks", n); block uk = pat(n + 5000); emp::AES_KEY k, dk; AES_set_encrypt_key(uk, &k); AES_set_decrypt_key(uk, &dk); Aes a(&uk);
		for (int m = 0; m < 6; ++m) { Arr b(n); vector<block> in(n); for (int i = 0; i < n; ++i) b[i] = in[i] = pat(n * 1000 + i); PRP p(uk), q, q0((const char *)nullptr), q2; q2.aes_set_key(uk); 
			if (m == 0) AES_ecb_encrypt_blks(b, n, &k); else if (m == 1) AES_ecb_decrypt_blks(b, n, &dk); else if (m == 2) p.permute_block(b, n); else if (m == 3) q.permute_block(b, n); else if (m == 4) q2.permute_block(b, n); else { unsigned char kb[17]; memcpy(kb + 1, &uk, 16); PRP q3((const char *)(kb + 1)); q3.permute_block(b, n); }
			block zk = blk(0, 0); Aes z(&zk); for (int i = 0; i < n; ++i) { block w = m == 1 ? a.dec(in[i]) : m == 3 ? z.enc(in[i]) : a.enc(in[i]); MC_REQUIRE(eq(b[i], w), "entry point %d (0 encrypt,1 decrypt,2 PRP(block key),3 PRP default key,4 aes_set_key,5 PRP(char* key)), length %d: block %d is %s expected %s", m, n, i, hex(b[i]).c_str(), hex(w).c_str()); } mc::step(n); }
		mc::points(6);
	});
	mc::explore("templates", {1, 0, 60}, [&] { int b = mc::pick(40); mc::note("compile-time batches 1..24 and ParaEnc shapes 1..8 x 1..9, data set %d", b); enc_all(b * 50, std::make_integer_sequence<int, 24>()); para_all(b, std::make_integer_sequence<int, 8>()); });
	mc::explore("parallel-schedule", {1, 0, 60}, [&] { int b = mc::pick((int)al.size()); mc::note("AES_opt_key_schedule<1..9> starting at key %s", hex(al[b]).c_str()); ks_all(b, al, std::make_integer_sequence<int, 9>()); if (mc::thorough || b % 16 == 0) opt_ks<16>(b, al); });
}
