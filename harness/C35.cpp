// C35: in-circuit SHA3-256 over a harness-generated Keccak-f[1600] netlist, and the local helper.
#include "sweep.h"
#include "ref.h"
#include "keccak.h"
#include <openssl/evp.h>
#include <sstream>
using namespace emp; using namespace sw; using std::string;
typedef vector<unsigned char> Bytes;
static Bytes ossl(const void *p, size_t n) { Bytes r(32); unsigned l = 32; EVP_Digest(p, n, r.data(), &l, EVP_sha3_256(), nullptr); return r; }
static BV bits(const Bytes &b) { BV r(8 * b.size()); for (size_t i = 0; i < r.size(); ++i) r[i] = b[i / 8] >> (i % 8) & 1; return r; }
static BV dig(const BV &v) { Bytes m(v.size() / 8); for (size_t i = 0; i < v.size(); ++i) if (v[i]) m[i / 8] |= 1 << (i % 8); return bits(ossl(m.data(), m.size())); }
static SHA3_256_Calculator *calc() { static SHA3_256_Calculator *c; if (!c) { nl::Session s; c = new SHA3_256_Calculator(); } return c; }      // public labels of the trace backend are the same in every session
static vector<BV> contents(size_t n, bool rich) { vector<BV> r; for (int p : {0, 255, 0x80, 1, 0x55}) r.push_back(bits(Bytes(n, p))); Bytes m(n); for (int k = 0; k < (rich ? 40 : 10); ++k) { for (size_t i = 0; i < n; ++i) m[i] = i * (2 * k + 3) + k * 41 + (i >> 4); r.push_back(bits(m)); } if (rich) for (size_t i = 0; i < 8 * n && i < 4000; i += n > 60 ? 7 : 1) { BV h(8 * n, false); h[i] = true; r.push_back(h); } return r; }
// kinds of entry point: how the message bits are handed over
static void run(SHA3_256_Calculator *c, int kind, vector<Bit> &i, vector<Bit> &o, const vector<size_t> &cut) {
	vector<block> raw(i.size() + 1); for (size_t k = 0; k < i.size(); ++k) raw[k] = i[k].bit; size_t n = i.size(); vector<const block *> ps; vector<size_t> ls; size_t a = 0; for (size_t e : cut) { ps.push_back(raw.data() + a); ls.push_back(e - a); a = e; } ps.push_back(raw.data() + a); ls.push_back(n - a);
	vector<Integer> is; for (size_t k = 0; k < ps.size(); ++k) { Integer x; x.bits.resize(ls[k]); for (size_t j = 0; j < ls[k]; ++j) x.bits[j].bit = ps[k][j]; is.push_back(x); }
	vector<block> out(256); Integer O(8, 0, PUBLIC); vector<block> keep = raw;
	switch (kind) { case 0: c->sha3_256(out.data(), ps.data(), ls.data(), ps.size()); break; case 1: c->sha3_256(out.data(), is.data(), is.size()); break; case 2: c->sha3_256(out.data(), (const block *)raw.data(), n); break; case 3: c->sha3_256(&O, ps.data(), ls.data(), ps.size()); break; case 4: c->sha3_256(&O, (const block *)raw.data(), n); break; case 5: c->sha3_256(&O, is.data(), is.size()); break; case 6: if (ps.size() == 1) c->sha3_256(&O, is.data()); else c->sha3_256(&O, is.data(), is.size()); break;
		case 7: { vector<block> io(raw); io.resize(n + 256); c->sha3_256(io.data(), (const block *)io.data(), n); out.assign(io.begin(), io.begin() + 256); kind = 0; } break;      // the digest over the message: hash chains
		case 8: { O = is[0]; vector<Integer> js(is); c->sha3_256(&js[0], js.data(), js.size()); O = js[0]; kind = 3; } }
	for (size_t k = 0; k < n; ++k) MC_REQUIRE(memcmp(&raw[k], &keep[k], 16) == 0, "message changed"); if (kind >= 3) { MC_REQUIRE(O.size() == 256, "digest has %d bits", (int)O.size()); for (int k = 0; k < 256; ++k) out[k] = O.bits[k].bit; } o.clear(); for (auto &b : out) o.push_back(Bit(b));
}
MC_MAIN("C35") {
	keccak_circuit();
	mc::explore("lengths", {1, 0, 300}, [] { int N = mc::thorough ? 700 : 420, q = mc::pick(N + 6), n = q < N ? q : vector<int>{1000, 1087, 1088, 1089, 1360, 2048}[q - N], kind = n % 3 == 0 ? 5 : n % 3 == 1 ? 4 : 0; mc::note("%d byte message, entry point %d", n, kind); sw::list("in-circuit SHA3-256", 8 * n, [&](vector<Bit> &i, vector<Bit> &o) { run(calc(), kind, i, o, {}); }, contents(n, n < 8 || (n < 700 && (n % 136 < 2 || n % 136 > 133 || mc::thorough))), dig); });
	mc::explore("entries", {2, 0, 300}, [] {            // every overload, every way of cutting the message into pieces
		int kind = mc::pick(9), n = mc::choose(vector<int>{0, 1, 2, 135, 136, 137, 271, 272, 273}), how = mc::pick(6); vector<size_t> cut; size_t L = 8 * n; if (how == 1) cut = {0}; else if (how == 2) cut = {L}; else if (how == 3) cut = {L / 3, L / 3, 2 * L / 3}; else if (how == 4) { for (size_t e = 7; e < L; e += 129) cut.push_back(e); } else if (how == 5 && L > 1088) cut = {1088}; mc::note("%d bytes, overload %d, cuts %d", n, kind, how); sw::list("in-circuit SHA3-256", 8 * n, [&](vector<Bit> &i, vector<Bit> &o) { run(calc(), kind, i, o, cut); }, contents(n, false), dig); });
	mc::explore("reuse", {1, 0, 300}, [] {              // histories on one object; nothing of an earlier message remains
		SHA3_256_Calculator *c = calc(); vector<int> ns; int d = 3; for (int k = 0; k < d; ++k) ns.push_back(mc::choose(vector<int>{0, 5, 135, 136, 200})); mc::note("messages of %d, %d, %d bytes on one object", ns[0], ns[1], ns[2]); int tot = ns[0] + ns[1] + ns[2]; sw::list("three hashes", 8 * tot, [&](vector<Bit> &i, vector<Bit> &o) { size_t a = 0; o.clear(); for (int k = 0; k < 3; ++k) { vector<Bit> m(i.begin() + a, i.begin() + a + 8 * ns[k]), q; run(c, k == 0 ? 4 : k == 1 ? 5 : 0, m, q, {}); o.insert(o.end(), q.begin(), q.end()); a += 8 * ns[k]; } }, contents(tot, false), [&](const BV &v) { BV r; size_t a = 0; for (int k = 0; k < 3; ++k) { r = cat(r, dig(part(v, a, 8 * ns[k]))); a += 8 * ns[k]; } return r; }); });
	mc::explore("plain", {1, 0, 300}, [] {              // plain backend, fresh object, owners
		int n = mc::choose(vector<int>{0, 1, 32, 135, 136, 137, 300}), own = mc::pick(3); static const int OW[3] = {ALICE, BOB, PUBLIC}; mc::note("%d bytes, owner %d", n, OW[own]); setup_plain_prot(false, ""); { SHA3_256_Calculator c; Bytes m(n); for (int i = 0; i < n; ++i) m[i] = 7 * i + 1; Integer M; if (n) M = Integer(8 * n, m.data(), OW[own]); for (int r = 0; r < 2; ++r) { Integer O; c.sha3_256(&O, &M); Bytes w = ossl(m.data(), n); string q = O.reveal<string>(PUBLIC); for (int i = 0; i < 256; ++i) MC_REQUIRE((q[i] == '1') == (bool)(w[i / 8] >> (i % 8) & 1), "digest bit %d", i); } } finalize_plain_prot(); mc::step(2); mc::points(1); });
	mc::explore("local", {1, 0, 60}, [] { int N = mc::thorough ? 2000 : 600, q = mc::pick(N + 10), n = q < N ? q : vector<int>{4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 1000003}[q - N]; mc::note("local, %d elements", n); Bytes m(8 * n + 1); for (size_t i = 0; i < m.size(); ++i) m[i] = i * 31 + (i >> 7) + n; uint8_t o[40]; auto t = [&](int rc, size_t nb) { MC_REQUIRE(rc == 0 && memcmp(o, ossl(m.data(), nb).data(), 32) == 0, "local SHA3-256 of %zu bytes", nb); for (int i = 32; i < 40; ++i) MC_REQUIRE(o[i] == 0xEE, "wrote past 32 bytes"); mc::step(); mc::points(1); memset(o, 0xEE, 40); }; memset(o, 0xEE, 40); t(sha3_256<uint8_t>(o, m.data(), n), n); t(sha3_256<uint64_t>(o, (uint64_t *)m.data(), n), 8 * n); t(sha3_256<char>(o, (char *)m.data(), n), n); if (n >= 2) { t(sha3_256<uint64_t>(o, (uint64_t *)m.data()), 8); t(sha3_256<block>(o, (block *)m.data(), n / 2), n / 2 * 16); } });
}
