// C29: Hash == SHA-256 of everything put since construction / last digest / last reset.
#include "mc.h"
#include "mapped.h"
#include "emp-tool/emp-tool.h"
#include <openssl/evp.h>
using namespace emp; using std::string; using std::vector;
static unsigned char pool[1 << 17];
static string sha(const string &s) { unsigned char d[32]; unsigned l = 0; EVP_Digest(s.data(), s.size(), d, &l, EVP_sha256(), nullptr); return string((char *)d, 32); }
static string hex(const string &s) { string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }

MC_MAIN("C29") {
	for (size_t i = 0; i < sizeof pool; ++i) pool[i] = (unsigned char)(i * 131 + (i >> 8) * 7 + (i >> 16));
	const int B = HASH_BUFFER_SIZE;
	static vector<int> lens = {0, 1, 15, B / 2, B - 1, B, B + 1};
	if (mc::thorough) lens = {0, 1, 15, 16, 31, B / 2 - 1, B / 2, B - 2, B - 1, B, B + 1, 2 * B, 2 * B + 5};
	// histories of put/digest/reset; every history ends in a digest
	auto hist = [](int depth) {
		Hash h; string model; int off = 0; string prev;
		for (int i = 0; i < depth; ++i) {
			int k = mc::pick((int)lens.size() + 2 + 1);
			if (k == 0) { mc::note("stop;"); break; }
			--k;
			if (k < (int)lens.size()) {
				int n = lens[k]; off = (off * 31 + n + i) % 4096; mc::note("put(%d) ", n);
				// an exactly sized heap copy, so that an over-read is a sanitizer report
				char *p = (char *)malloc(n ? n : 1); memcpy(p, pool + off, n);
				h.put(p, n); memset(p, 0xEE, n); free(p); model.append((char *)pool + off, n);
			} else if (k == (int)lens.size()) {
				unsigned char d[40]; memset(d, 0xA5, sizeof d); h.digest(d); mc::note("digest ");
				MC_REQUIRE(string((char *)d, 32) == sha(model), "digest %s differs from SHA-256 of the %zu bytes put (%s)", hex(string((char *)d, 32)).c_str(), model.size(), hex(sha(model)).c_str());
				for (int j = 32; j < 40; ++j) MC_REQUIRE(d[j] == 0xA5, "digest wrote past 32 bytes");
				model.clear();
			} else { h.reset(); model.clear(); mc::note("reset "); }
			mc::step(); mc::state(mc::hmix(mc::hbytes(model.data(), model.size()), i));
		}
		unsigned char d[32]; h.digest(d); mc::step();
		MC_REQUIRE(string((char *)d, 32) == sha(model), "final digest %s differs from SHA-256 of the %zu bytes put (%s)", hex(string((char *)d, 32)).c_str(), model.size(), hex(sha(model)).c_str());
		h.digest(d); MC_REQUIRE(string((char *)d, 32) == sha(""), "second digest is not the digest of the empty string");
		mc::outcome(mc::hbytes(sha(model).data(), 32));
	};
	mc::explore("histories", {2, 0, 60}, [&] { hist(mc::thorough ? 5 : 4); });
	// every fill level of the streaming buffer x every second chunk length around the limit
	mc::explore("two-chunk", {1, 0, 60}, [&] {
		int a = mc::thorough ? mc::pick(B + 2) : (mc::pick(B / 16 + 2) * 16); if (a > B + 1) a = B + 1;
		mc::note("put(%d) then each second length, then put(3)", a);
		vector<int> second = {0, 1, 2, B - a - 1, B - a, B - a + 1, B - 1, B, B + 1, B + a, 2 * B};
		for (int b : second) if (b >= 0) {
			Hash h; string m((char *)pool, a); h.put(pool, a); h.put(pool + 50000, b); m.append((char *)pool + 50000, b); h.put(pool + 77, 3); m.append((char *)pool + 77, 3);
			unsigned char d[32]; h.digest(d); mc::step(4); mc::state(mc::hmix(a, b));
			MC_REQUIRE(string((char *)d, 32) == sha(m), "put(%d) put(%d) put(3) digest differs from SHA-256 of the concatenation", a, b);
		}
	});
	// many small puts: chunk size c repeated until past several buffer flushes
	mc::explore("repeat", {1, 0, 60}, [&] {
		static const vector<int> big{500, 1000, 1023, 1025, 2000, B / 4, B / 2 - 1, B / 2, B / 2 + 1, 5000, B - 1, B, B + 1, 3 * B / 2}; int lim = mc::thorough ? 400 : 64, c0 = mc::pick(lim + (int)big.size()), c = c0 < lim ? c0 + 1 : big[c0 - lim]; int total = c > 400 ? 300 * c : c < 4 ? 300000 : 3 * B + 17; mc::note("put(%d) repeatedly up to %d bytes", c, total);
		Hash h; string m; int i = 0; for (; (int)m.size() < total; ++i) { h.put(pool + (i * 7) % 1000, c); m.append((char *)pool + (i * 7) % 1000, c); mc::step(); }
		unsigned char d[32]; h.digest(d); mc::state(mc::hmix(77, c));
		MC_REQUIRE(string((char *)d, 32) == sha(m), "%d puts of %d bytes: digest differs", i, c);
	});
	// one-shot helpers and put_block, every length up to a bound plus the boundary lengths
	mc::explore("one-shot", {1, 0, 60}, [&] {
		int n = mc::pick(mc::thorough ? 2 * B + 40 : 600); if (!mc::thorough && n >= 500) n = B - 50 + (n - 500);
		mc::note("hash_once/hash_for_block of %d bytes", n);
		char *p = (char *)malloc(n ? n : 1); memcpy(p, pool + 5, n); string e = sha(string((char *)pool + 5, n));
		unsigned char d[32]; Hash::hash_once(d, p, n); MC_REQUIRE(string((char *)d, 32) == e, "hash_once(%d) differs from SHA-256", n);
		block b = Hash::hash_for_block(p, n); MC_REQUIRE(memcmp(&b, e.data(), 16) == 0, "hash_for_block(%d) is not the first half of SHA-256", n);
		free(p);
		if (n % 16 == 0) { block *bl = new block[n / 16 + 1]; memcpy(bl, pool + 5, n); Hash h; h.put_block(bl, n / 16); h.digest(d); MC_REQUIRE(string((char *)d, 32) == e, "put_block of %d blocks differs", n / 16);
			Hash g; for (int i = 0; i < n / 16; ++i) g.put_block(bl + i); g.digest(d); MC_REQUIRE(string((char *)d, 32) == e, "put_block one by one, %d blocks differs", n / 16); delete[] bl; mc::step(2); }
		mc::step(2); mc::state(mc::hmix(99, n)); mc::outcome(mc::hbytes(e.data(), 32));
	});
	// KDF of a point: SHA-256(encoding || 8-byte id)
	mc::explore("kdf", {1, 0, 60}, [&] {
		static Group G; int k = mc::pick(24); static const uint64_t ids[] = {0, 1, 2, 255, 256, 1ULL << 32, ~0ULL}; uint64_t id = ids[mc::pick(7)]; mc::note("KDF(%d*G, %lu)", k + 1, id);
		Point P = G.get_generator(); for (int i = 0; i < k; ++i) { Point g = G.get_generator(); P = P.add(g); }
		size_t l = P.size(); string e(l, 0); P.to_bin((unsigned char *)&e[0], l); e.append((char *)&id, 8);
		block b = Hash::KDF(P, id); block b2 = Hash::KDF(P, id); mc::step(2); mc::state(mc::hmix(mc::hmix(k, id), 5));
		MC_REQUIRE(memcmp(&b, sha(e).data(), 16) == 0 && memcmp(&b2, &b, 16) == 0, "KDF is not the first 16 bytes of SHA-256(point encoding || id)");
	});
	// single requests near and beyond 2^31 bytes (the memory behind them repeats)
	mc::explore("beyond 4 GB", {1, 0, 240}, [&] {
		int how = mc::pick(3); size_t n = ((size_t)1 << 32) + (how == 0 ? 0 : 16 * 3 + 5); mc::note("%s of %zu bytes", how < 2 ? "put" : "hash_once", n);
		Mapped m(n); for (size_t i = 0; i < Mapped::period(); ++i) m.p[i] = (i * 2654435761u) >> 13; EVP_MD_CTX *c = EVP_MD_CTX_create(); EVP_DigestInit_ex(c, EVP_sha256(), nullptr); for (size_t o = 0; o < n; o += 1 << 24) { EVP_DigestUpdate(c, m.p + o, std::min<size_t>(1 << 24, n - o)); mc::beat(); } unsigned char e[32], d[32]; unsigned l = 32; EVP_DigestFinal_ex(c, e, &l); EVP_MD_CTX_destroy(c);
		if (how < 2) { Hash h; h.put(m.p, n); h.digest(d); } else Hash::hash_once(d, m.p, n); mc::step(); mc::state(mc::hmix(124 + how, n)); MC_REQUIRE(memcmp(d, e, 32) == 0, "digest differs from SHA-256 of the bytes put");
	});
	mc::explore("huge", {1, 0, 240}, [&] {
		int how = mc::pick(4); size_t G = (size_t)1 << 31, n = how == 0 ? G - 1 : how == 1 ? G - 16 : how == 2 ? G : G + 16 * 5; size_t first = how == 0 ? 1 : how == 1 ? (size_t)B - 1 : how == 2 ? 0 : 7; mc::note("put(%zu), then %s of %zu bytes, then put(3)", first, how < 1 ? "put" : "put_block", n);
		Mapped m(n); for (size_t i = 0; i < Mapped::period(); ++i) m.p[i] = (i * 2654435761u) >> 13; EVP_MD_CTX *c = EVP_MD_CTX_create(); EVP_DigestInit_ex(c, EVP_sha256(), nullptr); EVP_DigestUpdate(c, pool, first); for (size_t o = 0; o < n; o += 1 << 24) { EVP_DigestUpdate(c, m.p + o, std::min<size_t>(1 << 24, n - o)); mc::beat(); } EVP_DigestUpdate(c, pool + 9, 3); unsigned char e[32], d[32]; unsigned l = 32; EVP_DigestFinal_ex(c, e, &l); EVP_MD_CTX_destroy(c);
		Hash h; h.put(pool, (int)first); if (how == 0) h.put(m.p, n); else h.put_block((block *)m.p, (int)(n / 16)); h.put(pool + 9, 3); h.digest(d); mc::step(3); mc::state(mc::hmix(123, n)); MC_REQUIRE(memcmp(d, e, 32) == 0, "digest differs from SHA-256 of the bytes put");
	});
}
