// C34: AES-128-CTR out of and in circuit.
#include "sweep.h"
#include "ref.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace emp; using namespace sw; using ref::hex; using std::string; using ref::Aes;
typedef vector<unsigned char> Bytes;
static block addc(block iv, unsigned __int128 n) { unsigned char *b = (unsigned char *)&iv; unsigned carry = 0; for (int i = 15; i >= 0; --i) { carry += b[i] + (unsigned)(n & 255); b[i] = carry; carry >>= 8; n >>= 8; } return iv; }
static Bytes stream(block key, block iv, uint64_t start, size_t nbytes) { Aes a(&key); Bytes r; for (size_t i = 0; r.size() < nbytes; ++i) { block c = a.enc(addc(addc(iv, start), i)); for (int j = 0; j < 16 && r.size() < nbytes; ++j) r.push_back(((unsigned char *)&c)[j]); } return r; }
static block ffiv(int k, int last) { unsigned char b[16]; for (int i = 0; i < 16; ++i) b[i] = i >= 16 - k ? 0xff : i * 11 + 3; if (k) b[15] = last; block r; memcpy(&r, b, 16); return r; }       // low k bytes all ones, last byte chosen: every carry chain
static const vector<uint64_t> CH{0, 1, 2, 3, 255, 256, 0xffff, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0xfffffffffffffffeULL, 0xffffffffffffffffULL};
template <class T> static void local(block key, block iv, size_t len, uint64_t st, int form) {
	size_t nb = len * sizeof(T); Bytes in(nb); for (size_t i = 0; i < nb; ++i) in[i] = i * 13 + 7; Bytes s = stream(key, iv, st, nb), w(nb); for (size_t i = 0; i < nb; ++i) w[i] = in[i] ^ s[i]; T *x = (T *)malloc(nb ? nb : 1); uint8_t *o = (uint8_t *)malloc(nb ? nb : 1); memcpy(x, in.data(), nb); memset(o, 0xEE, nb); int rc;
	if (form == 0) { rc = aes_128_ctr<T>(key, iv, x, o, len, st); MC_REQUIRE(rc == 0 && memcmp(o, w.data(), nb) == 0, "encryption of %zu bytes is not AES-128-CTR", nb); MC_REQUIRE(memcmp(x, in.data(), nb) == 0, "input changed"); rc = aes_128_ctr<uint8_t>(key, iv, o, nullptr, nb, st); MC_REQUIRE(memcmp(o, in.data(), nb) == 0, "decryption does not invert"); }
	else if (form == 1) { rc = aes_128_ctr<T>(key, iv, x, nullptr, len, st); MC_REQUIRE(rc == 0 && memcmp(x, w.data(), nb) == 0, "in-place encryption of %zu bytes", nb); }
	else { rc = aes_128_ctr<T>(key, iv, nullptr, o, nb, st); MC_REQUIRE(rc == 0 && memcmp(o, s.data(), nb) == 0, "key stream of %zu bytes", nb); }
	free(x); free(o); mc::step(); mc::points(1);
}
static AES_128_CTR_Calculator *calc() { return new AES_128_CTR_Calculator(); }
static BV bits(const Bytes &b, size_t n) { BV r(n); for (size_t i = 0; i < n; ++i) r[i] = b[i / 8] >> (i % 8) & 1; return r; }
static Bytes tobytes(const BV &v, int off, int nb) { Bytes b(nb, 0); for (int i = 0; i < 8 * nb; ++i) if (v[off + i]) b[i / 8] |= 1 << (i % 8); return b; }
static block toblock(const Bytes &b) { block r; memcpy(&r, b.data(), 16); return r; }
static BV blkbits(block b) { Bytes x(16); memcpy(x.data(), &b, 16); return bits(x, 128); }
MC_MAIN("C34") {
	mc::explore("local", {2, 0, 60}, [] { int k = mc::pick(17), last = mc::choose(vector<int>{0xff, 0xfe, 0xfd, 0x00}); uint64_t st = mc::choose(CH); int form = mc::pick(3); block key = ref::pat(k), iv = ffiv(k, last); mc::note("iv %s start %lu form %d", hex(iv).c_str(), st, form); for (size_t len = 0; len < (mc::thorough ? 300 : 70); ++len) { local<uint8_t>(key, iv, len, st, form); if (form < 2 && len < 20) { local<uint32_t>(key, iv, len, st, form); local<uint64_t>(key, iv, len, st, form); } } });
	mc::explore("local-long", {1, 0, 60}, [] { size_t n = mc::choose(vector<size_t>{255, 256, 257, 1000, 4079, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 70001, 1048576, 1048593}); int form = mc::pick(3), k = mc::choose(vector<int>{0, 1, 2, 4, 8, 16}); uint64_t st = mc::choose(vector<uint64_t>{0, 0xffffff00ULL, 0xffffffffffffff00ULL}); if (n > 70001 && (k != 2 || st == 0)) { mc::note("longest messages: one iv"); return; } block iv = ffiv(k, 0xf0); mc::note("%zu bytes iv %s start %lx form %d", n, hex(iv).c_str(), st, form); local<uint8_t>(ref::pat(k + 77), iv, n, st, form); if (form < 2) local<uint64_t>(ref::pat(k), iv, n / 8, st, form); });
	mc::explore("local-huge", {1, 0, 300}, [] {        // lengths no int can hold
		size_t n = mc::choose(mc::thorough ? vector<size_t>{(1UL << 31) - 1, 1UL << 31, (1UL << 31) + 17, (3UL << 30) + 7, (1UL << 32) - 3, 1UL << 32, (1UL << 32) + 21, (1UL << 33) + 5} : vector<size_t>{(1UL << 31) + 17, (1UL << 32) + 5}); int form = mc::pick(2); if (!mc::thorough && (n >> 32 != 0) == (form == 0)) { mc::note("one form per length"); return; }
		block key = ref::pat(91), iv = ffiv(3, 0xf0); uint64_t st = 0xfffffff0ULL; mc::note("%zu bytes, %s", n, form ? "key stream only" : "in place"); unsigned char *p = (unsigned char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
		if (form == 0) for (size_t i = 0; i < n; i += 4096) p[i] = (unsigned char)(i / 4096 + 1);
		int rc = form == 0 ? aes_128_ctr<uint8_t>(key, iv, p, nullptr, n, st) : aes_128_ctr<uint8_t>(key, iv, (uint8_t *)nullptr, p, n, st); MC_REQUIRE(rc == 0, "returned %d", rc);
		EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, (unsigned char *)&key, nullptr); EVP_CIPHER_CTX_set_padding(c, 0); static block ctr[4096], out[4096]; block cur = addc(iv, st); uint64_t hi = 0, lo; { unsigned char b[16]; memcpy(b, &cur, 16); lo = 0; for (int i = 0; i < 8; ++i) { hi = hi << 8 | b[i]; lo = lo << 8 | b[8 + i]; } }
		for (size_t o = 0; o < n; o += sizeof ctr) { for (int i = 0; i < 4096; ++i) { uint64_t w[2] = {__builtin_bswap64(hi), __builtin_bswap64(lo)}; memcpy(&ctr[i], w, 16); if (++lo == 0) ++hi; } int l = 0; EVP_EncryptUpdate(c, (unsigned char *)out, &l, (unsigned char *)ctr, sizeof ctr); size_t m = std::min(sizeof ctr, n - o); if (form == 0) for (size_t i = 0; i < m; i += 4096) ((unsigned char *)out)[i] ^= (unsigned char)((o + i) / 4096 + 1); MC_REQUIRE(memcmp(p + o, out, m) == 0, "bytes %zu.. are not AES-128-CTR", o); }
		EVP_CIPHER_CTX_free(c); munmap(p, n); mc::step(); mc::points(1); });
	mc::explore("public key, long", {1, 0, 300}, [] {      // very many bits under one call
		size_t n = mc::choose(mc::thorough ? vector<size_t>{1000003, 1u << 24, (1u << 26) + 5, (1u << 28) + 131} : vector<size_t>{1000003, (1u << 26) + 5}); int form = n > 2000000 ? 0 : mc::pick(3); block key = ref::pat(23), iv = ffiv(2, 0xf0); mc::note("public key, %zu bits, form %d", n, form); setup_plain_prot(false, ""); std::unique_ptr<AES_128_CTR_Calculator> c(calc()); block pl[2] = {CircuitExecution::circ_exec->public_label(false), CircuitExecution::circ_exec->public_label(true)};
		vector<block> m(n), o(form ? n : 0); for (size_t i = 0; i < n; ++i) m[i] = pl[i % 3 == 0]; int rc = c->aes_128_ctr(key, iv, form == 2 ? nullptr : m.data(), form ? o.data() : nullptr, n, PUBLIC, 9); MC_REQUIRE(rc == 0, "returned %d", rc); block *r = form ? o.data() : m.data(); Bytes st = stream(key, iv, 9, (n + 7) / 8); std::unique_ptr<bool[]> v(new bool[n]); ProtocolExecution::prot_exec->reveal(v.get(), PUBLIC, r, (int)n);
		for (size_t i = 0; i < n; ++i) MC_REQUIRE(v[i] == (bool)((st[i / 8] >> (i % 8) & 1) ^ (form != 2 && i % 3 == 0)), "bit %zu is not AES-128-CTR", i); finalize_plain_prot(); mc::step(n); mc::points(1); });
	mc::explore("local-keys", {1, 0, 60}, [] { static vector<block> al = ref::bytes_alphabet(); int i = mc::pick((int)al.size()); mc::note("key/iv byte pattern %s", hex(al[i]).c_str()); local<uint8_t>(al[i], ref::pat(i), 33, i, i % 3); local<uint8_t>(ref::pat(i), al[i], 33, i % 5, i % 3); });
	mc::explore("local-splits", {1, 0, 60}, [] {       // any split at chunk boundaries gives the whole message
		int nb = mc::pick(7), rest = mc::choose(vector<int>{0, 1, 15}), k = mc::pick(17); size_t n = 16 * nb + rest; unsigned cuts = mc::pick(1 << (nb ? nb - 1 + (rest > 0) : 0)); block key = ref::pat(5), iv = ffiv(k, 0xfe); mc::note("%zu bytes cuts %x iv %s", n, cuts, hex(iv).c_str()); Bytes m(n), s = stream(key, iv, 7, n); for (size_t i = 0; i < n; ++i) m[i] = i; Bytes x = m; size_t a = 0; for (int b = 1; b <= nb + 1; ++b) { size_t e = std::min<size_t>(16 * b, n); if (e == n || (cuts >> (b - 1) & 1)) { if (e > a || n == 0) aes_128_ctr<uint8_t>(key, iv, x.data() + a, nullptr, e - a, 7 + a / 16); a = e; if (e == n) break; } } for (size_t i = 0; i < n; ++i) MC_REQUIRE(x[i] == (m[i] ^ s[i]), "piecewise encryption differs at byte %zu", i); mc::step(); mc::points(1); });
	// in circuit, value-blind backend: netlist evaluated for many keys/ivs/messages at once
	mc::explore("circuit", {2, 0, 300}, [] {
		int form = mc::pick(3); size_t n = mc::choose(mc::thorough ? vector<size_t>{1, 7, 8, 127, 128, 129, 136, 255, 256, 257, 384, 500} : vector<size_t>{1, 127, 128, 129, 256, 300}); uint64_t st = mc::choose(mc::thorough ? CH : vector<uint64_t>{0, 1, 0xffffffffffffffffULL}); mc::note("iv-in-circuit form %d, %zu bits, start %lu", form, n, st); size_t nb = (n + 7) / 8;
		vector<BV> in; for (int k = 0; k <= 16; ++k) for (int last : {0xff, 0xfe, 0}) { block key = ref::pat(k + last), iv = ffiv(k, last); Bytes m(nb); for (size_t i = 0; i < nb; ++i) m[i] = i * 29 + k; in.push_back(cat(cat(blkbits(key), blkbits(iv)), bits(m, n))); } for (int i = 0; i < 128; i += 1) { in.push_back(cat(cat(blkbits(ref::onehot(i)), blkbits(ref::pat(i))), BV(n, i & 1))); in.push_back(cat(cat(blkbits(ref::pat(i)), blkbits(ref::onehot(i))), BV(n, false))); }
		sw::list("in-circuit AES-CTR", 256 + (int)n, [&](vector<Bit> &i, vector<Bit> &o) { std::unique_ptr<AES_128_CTR_Calculator> c(calc()); vector<Bit> key(i.begin(), i.begin() + 128), iv(i.begin() + 128, i.begin() + 256), m(i.begin() + 256, i.end()); int rc; if (form == 0) { o.resize(n); rc = c->aes_128_ctr(&key[0].bit, &iv[0].bit, &m[0].bit, &o[0].bit, n, PUBLIC, st); } else if (form == 1) { rc = c->aes_128_ctr(&key[0].bit, &iv[0].bit, &m[0].bit, nullptr, n, PUBLIC, st); o = m; } else { o.resize(n); rc = c->aes_128_ctr(&key[0].bit, &iv[0].bit, nullptr, &o[0].bit, n, PUBLIC, st); } MC_REQUIRE(rc == 0, "returned %d", rc); }, in, [&](const BV &v) { Bytes k = tobytes(v, 0, 16), iv = tobytes(v, 128, 16); BV s = bits(stream(toblock(k), toblock(iv), st, nb), n); if (form != 2) for (size_t i = 0; i < n; ++i) s[i] = s[i] ^ v[256 + i]; return s; }); });
	mc::explore("circuit-long", {1, 0, 300}, [] {      // many chunks in one call
		int form = mc::pick(3), pub = mc::pick(2); size_t n = mc::choose(vector<size_t>{1024, 2051}); uint64_t st = mc::choose(vector<uint64_t>{0, 250, 0xfffffffcULL, 0xfffffffffffffffcULL}); size_t nb = (n + 7) / 8; block piv = ffiv(2, 0xfa); mc::note("%zu bits, form %d, start %lu, %s IV", n, form, st, pub ? "public" : "secret");
		vector<BV> in; for (int k = 0; k < 12; ++k) { Bytes m(nb); for (size_t i = 0; i < nb; ++i) m[i] = i * 29 + k + (i >> 8); in.push_back(cat(cat(blkbits(ref::pat(k + 31)), blkbits(ffiv(k, 0xfe - k))), bits(m, n))); }
		sw::list("in-circuit AES-CTR", 256 + (int)n, [&](vector<Bit> &i, vector<Bit> &o) { std::unique_ptr<AES_128_CTR_Calculator> c(calc()); vector<Bit> key(i.begin(), i.begin() + 128), iv(i.begin() + 128, i.begin() + 256), m(i.begin() + 256, i.end()); int rc; if (form != 1) o.resize(n); block *mi = form == 2 ? nullptr : &m[0].bit, *mo = form == 1 ? nullptr : &o[0].bit; if (pub) rc = c->aes_128_ctr(&key[0].bit, piv, mi, mo, n, PUBLIC, st); else rc = c->aes_128_ctr(&key[0].bit, &iv[0].bit, mi, mo, n, PUBLIC, st); if (form == 1) o = m; MC_REQUIRE(rc == 0, "returned %d", rc); }, in, [&](const BV &v) { Bytes k = tobytes(v, 0, 16), iv = tobytes(v, 128, 16); BV s = bits(stream(toblock(k), pub ? piv : toblock(iv), st, nb), n); if (form != 2) for (size_t i = 0; i < n; ++i) s[i] = s[i] ^ v[256 + i]; return s; }); });
	mc::explore("circuit-public-iv", {2, 0, 300}, [] {  // IV known outside the circuit: every carry boundary and start chunk
		int k = mc::pick(17), last = mc::choose(vector<int>{0xff, 0xfe}), form = mc::pick(3); uint64_t st = mc::choose(mc::thorough ? CH : vector<uint64_t>{0, 1, 256, 0xffffffffffffffffULL}); size_t n = mc::choose(mc::thorough ? vector<size_t>{8, 128, 130, 384, 385} : vector<size_t>{8, 300}); block iv = ffiv(k, last); mc::note("iv %s, form %d, %zu bits, start %lu", hex(iv).c_str(), form, n, st); size_t nb = (n + 7) / 8;
		vector<BV> in; for (int i = 0; i < 20; ++i) { Bytes m(nb); for (size_t j = 0; j < nb; ++j) m[j] = j * 7 + i; in.push_back(cat(blkbits(i < 8 ? ref::onehot(i * 16) : ref::pat(i)), bits(m, n))); }
		sw::list("in-circuit AES-CTR with public IV", 128 + (int)n, [&](vector<Bit> &i, vector<Bit> &o) { std::unique_ptr<AES_128_CTR_Calculator> c(calc()); vector<Bit> key(i.begin(), i.begin() + 128), m(i.begin() + 128, i.end()); int rc; if (form == 0) { o.resize(n); rc = c->aes_128_ctr(&key[0].bit, iv, &m[0].bit, &o[0].bit, n, PUBLIC, st); } else if (form == 1) { rc = c->aes_128_ctr(&key[0].bit, iv, &m[0].bit, nullptr, n, PUBLIC, st); o = m; } else { o.resize(n); rc = c->aes_128_ctr(&key[0].bit, iv, nullptr, &o[0].bit, n, PUBLIC, st); } MC_REQUIRE(rc == 0, "returned %d", rc); }, in, [&](const BV &v) { BV s = bits(stream(toblock(tobytes(v, 0, 16)), iv, st, nb), n); if (form != 2) for (size_t i = 0; i < n; ++i) s[i] = s[i] ^ v[128 + i]; return s; }); });
	mc::explore("circuit-public-key", {2, 0, 300}, [] { // key and IV known: only the message is secret; every length
		int k = mc::thorough ? mc::pick(17) : 2 * mc::pick(9), form = mc::pick(3); uint64_t st = mc::choose(CH); block iv = ffiv(k, 0xfe), key = ref::pat(k + 3); mc::note("public key, iv %s form %d start %lu", hex(iv).c_str(), form, st); for (size_t n : (mc::thorough ? vector<size_t>{1, 2, 7, 8, 9, 64, 127, 128, 129, 255, 256, 257, 512, 1000, 4097, 33001, 70000} : vector<size_t>{1, 8, 9, 128, 129, 257, 1025, 4099})) { size_t nb = (n + 7) / 8; vector<BV> in{BV(n, false), BV(n, true), bits(Bytes(nb, 0x5a), n)}; sw::list("AES-CTR with public key", (int)n, [&](vector<Bit> &i, vector<Bit> &o) { std::unique_ptr<AES_128_CTR_Calculator> c(calc()); vector<Bit> m = i; int rc; if (form == 0) { o.resize(n); rc = c->aes_128_ctr(key, iv, &m[0].bit, &o[0].bit, n, PUBLIC, st); } else if (form == 1) { rc = c->aes_128_ctr(key, iv, &m[0].bit, nullptr, n, PUBLIC, st); o = m; } else { o.resize(n); rc = c->aes_128_ctr(key, iv, (block *)nullptr, &o[0].bit, n, PUBLIC, st); } MC_REQUIRE(rc == 0, "returned %d", rc); }, in, [&](const BV &v) { BV s = bits(stream(key, iv, st, nb), n); if (form != 2) for (size_t i = 0; i < n; ++i) s[i] = s[i] ^ v[i]; return s; }); } });
	mc::explore("plain", {1, 0, 300}, [] {              // plain backend, secret key/iv/message of different owners; calculator reuse and remembered key; decrypt inverts
		int reuse = mc::pick(3), n = mc::choose(vector<int>{8, 128, 200, 256, 260}), own = mc::pick(3); static const int OW[3] = {ALICE, BOB, PUBLIC}; mc::note("%d bits owner %d reuse %d", n, OW[own], reuse); setup_plain_prot(false, ""); AES_128_CTR_Calculator *c = calc(); block key = ref::pat(n), iv = ffiv(3, 0xff); size_t nb = (n + 7) / 8; Integer K(128, &key, ALICE), IV(128, &iv, BOB); Bytes m(nb); for (size_t i = 0; i < nb; ++i) m[i] = i * 3 + 1; Integer M(n, m.data(), OW[own]); for (int r = 0; r <= reuse; ++r) { uint64_t st = r * 5; Integer O(n, 0, PUBLIC); Integer M2 = M; int rc = c->aes_128_ctr(r ? nullptr : &K[0].bit, &IV[0].bit, &M2[0].bit, &O[0].bit, n, PUBLIC, st); MC_REQUIRE(rc == 0, "returned %d", rc); Bytes s = stream(key, iv, st, nb); string q = O.reveal<string>(PUBLIC); for (int i = 0; i < n; ++i) MC_REQUIRE((q[i] == '1') == (bool)(((m[i / 8] ^ s[i / 8]) >> (i % 8)) & 1), "call %d: bit %d", r, i); MC_REQUIRE(M2.reveal<string>(PUBLIC) == M.reveal<string>(PUBLIC), "message changed"); c->aes_128_ctr((block *)nullptr, &IV[0].bit, &O[0].bit, nullptr, n, PUBLIC, st); MC_REQUIRE(O.reveal<string>(PUBLIC) == M.reveal<string>(PUBLIC), "decryption does not invert encryption"); mc::step(2); } delete c; finalize_plain_prot(); mc::points(1); });
}
