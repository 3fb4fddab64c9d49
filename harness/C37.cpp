// C37: the shipped circuit files compute the functions they are named for.
#include "sweep.h"
#include "ref.h"
#include <openssl/sha.h>
#include <memory>
using namespace emp; using namespace sw; using ref::hex; using std::string;
static string dir(const char *f) { return string(REPO_DIR) + "/emp-tool/circuits/files/" + f; }
typedef vector<unsigned char> Bytes;
// two conventions: A = numbers, least significant bit first (bytes reversed); B = bytes in order, most significant bit first
static int pos(bool a, int nbytes, int i) { return a ? 8 * (nbytes - 1 - i / 8) + (i % 8) : 8 * (i / 8) + 7 - i % 8; }      // wire of bit i (byte i/8, bit i%8)
static void putb(BV &v, int off, const Bytes &b, bool a) { for (size_t i = 0; i < b.size() * 8; ++i) v[off + pos(a, (int)b.size(), (int)i)] = b[i / 8] >> (i % 8) & 1; }
static Bytes getb(const BV &v, int off, int n, bool a) { Bytes b(n, 0); for (int i = 0; i < 8 * n; ++i) if (v[off + pos(a, n, i)]) b[i / 8] |= 1 << (i % 8); return b; }
static Bytes aes(const Bytes &k, const Bytes &m) { static EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, k.size() == 16 ? EVP_aes_128_ecb() : k.size() == 24 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), 0, k.data(), 0); EVP_CIPHER_CTX_set_padding(c, 0); Bytes o(32); int l; EVP_EncryptUpdate(c, o.data(), &l, m.data(), 16); o.resize(16); return o; }
// input patterns of n bits: zero, ones, one-hot, one-cold, two-hot (of a share), byte alphabet, mixed
static vector<BV> patterns(int n, int part, int parts, bool two) {
	vector<BV> r; uint64_t c = 0; auto add = [&](const BV &b) { if ((int)(c++ % parts) == part) r.push_back(b); }; BV z(n, false), o(n, true); add(z); add(o); for (int i = 0; i < n; ++i) { BV a = z; a[i] = true; add(a); BV b = o; b[i] = false; add(b); } for (int i = 0; i < n / 8; ++i) for (int v = 1; v < 256; v += (two ? 1 : 7)) { BV a = z; for (int j = 0; j < 8; ++j) a[8 * i + j] = v >> j & 1; add(a); } int m = two ? 2000 : 400; for (int k = 0; k < m; ++k) { BV a(n); for (int i = 0; i < n; ++i) { block p = ref::pat(k * 100 + i / 128); a[i] = ((unsigned char *)&p)[i % 128 / 8] >> (i % 8) & 1; } add(a); } if (two) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { BV a = z; a[i] = a[j] = true; add(a); } return r;
}
static void aes_file(const char *f, bool fashion, int kl, bool A, bool keyfirst) {
	mc::note("%s ", f); int part = mc::pick(8), nin = 8 * (kl + 16); std::shared_ptr<BristolFashion> ba; std::shared_ptr<BristolFormat> bo; if (fashion) { ba.reset(new BristolFashion(dir(f).c_str())); MC_REQUIRE(ba->num_input == nin && ba->num_output == 128, "%s declares %d inputs and %d outputs", f, ba->num_input, ba->num_output); } else { bo.reset(new BristolFormat(dir(f).c_str())); MC_REQUIRE(bo->n1 + bo->n2 == nin && bo->n3 == 128, "%s declares sizes %d %d %d", f, bo->n1, bo->n2, bo->n3); }
	int ko = keyfirst ? 0 : 128, mo = keyfirst ? 8 * kl : 0;
	sw::list(f, nin, [&](vector<Bit> &i, vector<Bit> &o) { o.resize(128); if (fashion) ba->compute(o.data(), i.data()); else bo->compute(o.data(), i.data(), i.data() + bo->n1); }, patterns(nin, part, 8, mc::thorough), [&](const BV &v) { Bytes k = getb(v, ko, kl, A), m = getb(v, mo, 16, A), c = aes(k, m); BV r(128); putb(r, 0, c, A); return r; });
}
MC_MAIN("C37") {
	mc::explore("aes", {2, 0, 300}, [] { switch (mc::pick(4)) { case 0: aes_file("bristol_fashion/aes_128.txt", true, 16, true, true); break; case 1: aes_file("bristol_fashion/aes_192.txt", true, 24, true, true); break; case 2: aes_file("bristol_fashion/aes_256.txt", true, 32, true, true); break; default: aes_file("bristol_format/AES-non-expanded.txt", false, 16, false, false); } });
	mc::explore("sha", {2, 0, 300}, [] {
		int w = mc::pick(3), part = mc::pick(8); const char *f = w == 0 ? "bristol_format/sha-1.txt" : w == 1 ? "bristol_format/sha-256.txt" : "bristol_fashion/sha256.txt"; mc::note("%s", f);
		if (w < 2) { BristolFormat c(dir(f).c_str()); int n = w == 0 ? 20 : 32; MC_REQUIRE(c.n1 + c.n2 == 512 && c.n3 == 8 * n, "%s declares sizes %d %d %d", f, c.n1, c.n2, c.n3);
			sw::list(f, 512, [&](vector<Bit> &i, vector<Bit> &o) { o.resize(8 * n); c.compute(o.data(), i.data(), i.data() + c.n1); }, patterns(512, part, 8, mc::thorough), [&](const BV &v) { Bytes m = getb(v, 0, 64, false), d(n); if (w == 0) { SHA_CTX x; SHA1_Init(&x); SHA1_Transform(&x, m.data()); uint32_t h[5] = {x.h0, x.h1, x.h2, x.h3, x.h4}; for (int i = 0; i < 20; ++i) d[i] = h[i / 4] >> (24 - 8 * (i % 4)); } else { SHA256_CTX x; SHA256_Init(&x); SHA256_Transform(&x, m.data()); for (int i = 0; i < 32; ++i) d[i] = x.h[i / 4] >> (24 - 8 * (i % 4)); } BV r(8 * n); putb(r, 0, d, false); return r; }); }
		else { BristolFashion c(dir(f).c_str()); MC_REQUIRE(c.num_input == 768 && c.num_output == 256, "%s declares %d inputs", f, c.num_input);
			sw::list(f, 768, [&](vector<Bit> &i, vector<Bit> &o) { o.resize(256); c.compute(o.data(), i.data()); }, patterns(768, part, 8, mc::thorough), [&](const BV &v) { Bytes m = getb(v, 0, 64, true), s = getb(v, 512, 32, true), d(32); SHA256_CTX x; SHA256_Init(&x); for (int i = 0; i < 8; ++i) x.h[i] = (uint32_t)s[4 * i] << 24 | s[4 * i + 1] << 16 | s[4 * i + 2] << 8 | s[4 * i + 3]; SHA256_Transform(&x, m.data()); for (int i = 0; i < 32; ++i) d[i] = x.h[i / 4] >> (24 - 8 * (i % 4)); BV r(256); putb(r, 0, d, true); return r; }); } });
	mc::explore("adder", {1, 0, 300}, [] {            // all pairs from a carry alphabet
		int part = mc::pick(16); static vector<uint32_t> al = [] { vector<uint32_t> r{0, ~0u, 0x55555555, 0xaaaaaaaa, 0x12345678, 0xdeadbeef}; for (int i = 0; i < 32; ++i) { r.push_back(1u << i); r.push_back((1u << i) - 1); r.push_back(~((1u << i) - 1)); r.push_back(~(1u << i)); for (int j = 0; j < i; j += mc::thorough ? 1 : 5) r.push_back((1u << i) - (1u << j)); } return r; }(); mc::note("adder_32bit part %d of %zu^2 pairs", part, al.size()); BristolFormat c(dir("bristol_format/adder_32bit.txt").c_str()); MC_REQUIRE(c.n1 == 32 && c.n2 == 32 && c.n3 == 33, "sizes %d %d %d", c.n1, c.n2, c.n3); vector<BV> in; for (size_t i = part; i < al.size(); i += 16) for (uint32_t b : al) in.push_back(cat(bv(32, al[i]), bv(32, b))); sw::list("adder_32bit", 64, [&](vector<Bit> &i, vector<Bit> &o) { o.resize(33); c.compute(o.data(), i.data(), i.data() + 32); }, in, [](const BV &v) { uint64_t a = 0, b = 0; for (int i = 0; i < 32; ++i) { a |= (uint64_t)v[i] << i; b |= (uint64_t)v[32 + i] << i; } return bv(33, a + b); }); });
	mc::explore("plain", {1, 0, 300}, [] {            // the same files through the plain backend (binds the extracted netlists to ordinary execution)
		int w = mc::pick(4), k = mc::pick(4); static const char *fs[4] = {"bristol_fashion/aes_128.txt", "bristol_fashion/aes_192.txt", "bristol_fashion/aes_256.txt", "bristol_format/AES-non-expanded.txt"}; mc::note("%s value %d", fs[w], k); int kl = w == 1 ? 24 : w == 2 ? 32 : 16; bool A = w < 3; Bytes key, m; for (int i = 0; i < kl; ++i) key.push_back(i * 17 + k * 59); for (int i = 0; i < 16; ++i) m.push_back(i * 31 ^ k * 7); BV v(8 * (kl + 16)); putb(v, A ? 0 : 128, key, A); putb(v, A ? 8 * kl : 0, m, A); setup_plain_prot(false, ""); vector<Bit> in, o(128); for (size_t i = 0; i < v.size(); ++i) in.push_back(Bit(v[i], i < 128 ? ALICE : BOB)); if (w < 3) { BristolFashion c(dir(fs[w]).c_str()); for (int t = 0; t < 2; ++t) c.compute(o.data(), in.data()); } else { BristolFormat c(dir(fs[w]).c_str()); for (int t = 0; t < 2; ++t) c.compute(o.data(), in.data(), in.data() + 128); } BV r(128); for (int i = 0; i < 128; ++i) r[i] = o[i].reveal<bool>(); MC_REQUIRE(getb(r, 0, 16, A) == aes(key, m), "%s under the plain backend", fs[w]); finalize_plain_prot(); mc::step(); mc::points(1); });
}
