// Small reference implementations shared by the crypto harnesses (OpenSSL-based, independent of /repo).
#pragma once
#include <openssl/evp.h>
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
#include "emp-tool/emp-tool.h"
namespace ref {
using emp::block;
struct Aes {            // one AES-128 key, ECB
	EVP_CIPHER_CTX *c, *d;
	Aes(const void *k) { c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), 0, (const unsigned char *)k, 0); EVP_CIPHER_CTX_set_padding(c, 0); d = EVP_CIPHER_CTX_new(); EVP_DecryptInit_ex(d, EVP_aes_128_ecb(), 0, (const unsigned char *)k, 0); EVP_CIPHER_CTX_set_padding(d, 0); }
	Aes(const Aes &) = delete;
	~Aes() { EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); }
	block enc(block b) { unsigned char o[32]; int l = 0; EVP_EncryptUpdate(c, o, &l, (unsigned char *)&b, 16); block r; memcpy(&r, o, 16); return r; }
	block dec(block b) { unsigned char o[48]; int l = 0; EVP_DecryptUpdate(d, o, &l, (unsigned char *)&b, 16); block r; memcpy(&r, o, 16); return r; }
};
inline bool eq(const block &a, const block &b) { return memcmp(&a, &b, 16) == 0; }
inline block blk(uint64_t hi, uint64_t lo) { uint64_t v[2] = {lo, hi}; block b; memcpy(&b, v, 16); return b; }
inline block bx(const block &a, const block &b) { uint64_t x[2], y[2]; memcpy(x, &a, 16); memcpy(y, &b, 16); x[0] ^= y[0]; x[1] ^= y[1]; block r; memcpy(&r, x, 16); return r; }
inline block onehot(int i) { return i < 64 ? blk(0, 1ULL << i) : blk(1ULL << (i - 64), 0); }
inline std::string hex(const void *p, size_t n) { std::string o; char b[3]; for (size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", ((const unsigned char *)p)[i]); o += b; } return o; }
inline std::string hex(const block &b) { return hex(&b, 16); }
inline uint64_t sm(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
inline block pat(uint64_t i) { uint64_t s = i * 77777 + 5; uint64_t a = sm(s), b = sm(s); return blk(a, b); }
// structured block alphabet: zero, ones, every byte value in every byte position
inline std::vector<block> bytes_alphabet() { std::vector<block> r; for (int p = 0; p < 16; ++p) for (int v = 0; v < 256; ++v) { unsigned char x[16] = {0}; x[p] = v; block b; memcpy(&b, x, 16); r.push_back(b); } return r; }
// exactly-sized aligned heap array (address sanitizer sees over-runs)
struct Arr { block *p; int n; Arr(int n) : n(n) { p = (block *)aligned_alloc(16, n ? n * 16 : 16); if (n == 0) memset(p, 0, 16); } ~Arr() { free(p); } block &operator[](int i) { return p[i]; } operator block *() { return p; } Arr(const Arr &) = delete; };
template <int A, int B, template <int> class F, class... X> struct For { static void go(X... x) { F<A>::go(x...); For<A + 1, B, F, X...>::go(x...); } };
}
