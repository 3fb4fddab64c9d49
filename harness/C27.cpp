// C27: PRG == AES-CTR keystream of the seed, for every request history.
#include "mc.h"
#include "ref.h"
#include <random>
#include <memory>
using namespace emp; using namespace ref; using std::vector; using std::string;

// ---- operating-system entropy as an environment the explorer controls
static bool env_on = false; static int draws = 0, flip_draw = -1, flip_bit = 0; static uint64_t env_state = 1;
extern "C" unsigned int __real__ZNSt13random_device9_M_getvalEv(void *);
extern "C" unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void *self) {
	if (!env_on) return __real__ZNSt13random_device9_M_getvalEv(self);
	uint32_t v = (uint32_t)sm(env_state); if (draws == flip_draw) v ^= 1u << flip_bit; ++draws; return v;
}

struct Ref {             // reference generator
	std::unique_ptr<Aes> a; uint64_t ctr = 0; vector<uint64_t> words; size_t wp = 0;
	void reseed(block s, uint64_t id) { block k = bx(s, blk(0, id)); a.reset(new Aes(&k)); ctr = 0; words.clear(); wp = 0; }
	block next() { return a->enc(blk(0, ctr++)); }
	void bytes(unsigned char *o, int n) { for (int i = 0; i < n; i += 16) { block b = next(); memcpy(o + i, &b, std::min(16, n - i)); } }
	uint64_t word() { if (wp == words.size()) { words.assign(32, 0); wp = 0; bytes((unsigned char *)words.data(), 256); } return words[wp++]; }
};
struct Buf {             // n bytes at a chosen misalignment inside canaries; exactly-sized at the end
	unsigned char *base, *p; int n, mis;
	Buf(int n, int mis) : n(n), mis(mis) { base = (unsigned char *)aligned_alloc(64, 64 + ((mis + n + 63) / 64) * 64 + 64); memset(base, 0xA5, 64 + ((mis + n + 63) / 64) * 64 + 64); p = base + 64 + mis; }
	bool intact() { for (unsigned char *q = base; q < p; ++q) if (*q != 0xA5) return false; for (unsigned char *q = p + n; q < base + 64 + ((mis + n + 63) / 64) * 64 + 64; ++q) if (*q != 0xA5) return false; return true; }
	~Buf() { free(base); }
};
struct Sys {
	PRG g; Ref r; int nops = 0;
	Sys(block s, int id) : g(&s, id) { r.reseed(s, (uint64_t)(int64_t)id); }
	void chk(Buf &b, const vector<unsigned char> &w, const char *what) {
		MC_REQUIRE(memcmp(b.p, w.data(), w.size()) == 0, "operation %d: %s of %d at misalignment %d returned %s, the keystream gives %s", nops, what, b.n, b.mis, hex(b.p, std::min(b.n, 64)).c_str(), hex(w.data(), std::min((int)w.size(), 64)).c_str());
		MC_REQUIRE(b.intact(), "operation %d: %s of %d at misalignment %d wrote outside its buffer", nops, what, b.n, b.mis);
	}
	void data(int n, int mis, bool unal) { mc::note("%s(%d)@%d ", unal ? "unaligned" : "data", n, mis); Buf b(n, mis); if (unal) g.random_data_unaligned(b.p, n); else g.random_data(b.p, n); vector<unsigned char> w(n); r.bytes(w.data(), n); chk(b, w, unal ? "random_data_unaligned" : "random_data"); ++nops; mc::step(); }
	void bools(int n, int mis) { mc::note("bool(%d)@%d ", n, mis); Buf b(n, mis); g.random_bool((bool *)b.p, n); vector<unsigned char> w(n); r.bytes(w.data(), n); for (auto &x : w) x &= 1; chk(b, w, "random_bool"); ++nops; mc::step(); }
	void blocks(int n, int mis) { mc::note("block(%d) ", n); Buf b(n * 16, mis); g.random_block((block *)b.p, n); vector<unsigned char> w(n * 16); r.bytes(w.data(), n * 16); chk(b, w, "random_block"); ++nops; mc::step(); }
	void word(int k) { mc::note("word*%d ", k); for (int i = 0; i < k; ++i) { uint64_t x = g(), y = r.word(); MC_REQUIRE(x == y, "operation %d: operator() returned %016lx, the keystream gives %016lx", nops, x, y); } ++nops; mc::step(k); }
	void reseed(block s, uint64_t id) { mc::note("reseed(%s,%lx) ", hex(s).c_str(), id); g.reseed(&s, id); r.reseed(s, id); ++nops; mc::step(); }
	uint64_t key() { return mc::hmix(r.ctr, mc::hmix(r.words.size(), r.wp)); }
	void tail() { blocks(3, 0); word(1); data(5, 1, true); blocks(1, 0); }       // the stream position is what it should be
};
static int me_note() { return mc::me->nnote; } static void cut_note(int l) { mc::me->nnote = l; mc::me->note[l] = 0; }
template <class P> static auto jump(P &g, uint64_t now, uint64_t to, int) -> typename std::enable_if<std::is_integral<decltype(g.counter)>::value, bool>::type { if ((uint64_t)g.counter != now) return false; g.counter = to; return true; }
template <class P> static bool jump(P &, uint64_t, uint64_t, long) { return false; }
MC_MAIN("C27") {
	static vector<block> seeds{blk(0, 0), blk(~0ULL, ~0ULL), blk(1, 0), blk(0, 1), pat(1)};
	static vector<uint64_t> ids{0, 1, 2, 0x7fffffffULL, 0xffffffffffffffffULL, 0x123456789abcdefULL};
	mc::explore("seeds", {1, 0, 60}, [] {             // every seed bit and id matter and are used as defined
		int i = mc::pick(128 + 5); block s = i < 128 ? onehot(i) : seeds[i - 128]; int id = mc::choose(vector<int>{0, 1, 2, 7, 0x7fffffff, -1}); mc::note("seed %s id %d: ", hex(s).c_str(), id);
		Sys y(s, id); y.blocks(9, 0); y.tail(); for (uint64_t j : ids) { y.reseed(seeds[4], j); y.tail(); } mc::points(1); mc::outcome(mc::hmix(mc::hbytes(&s, 16), id));
		{ unsigned char raw[32]; memcpy(raw + 3, &s, 16); PRG g(raw + 3, id); block x; g.random_block(&x, 1); Ref r; r.reseed(s, (uint64_t)(int64_t)id); MC_REQUIRE(eq(x, r.next()), "seed read from an unaligned address gives a different stream"); }
	});
	mc::explore("lengths", {2, 0, 60}, [] {           // every length x every alignment x every entry point
		int mis = mc::pick(mc::thorough ? 64 : 17), n = mc::pick(mc::thorough ? 420 : 150), k = mc::pick(4); if (k == 3 && mis % 16) return;
		Sys y(seeds[4], 3); mc::note("first: "); if (k == 0) y.data(n, mis, false); else if (k == 1) y.data(n, mis, true); else if (k == 2) y.bools(n, mis); else y.blocks(n, mis);
		y.tail(); mc::points(1);
	});
	mc::explore("histories", {2, 0, 60}, [] {         // every history of requests, crossing batch and word-buffer limits
		struct O { int kind, n, mis; }; static const vector<O> ops{{0, 15, 0}, {0, 16, 1}, {0, 17, 8}, {1, 15, 1}, {1, 16, 4}, {1, 33, 3}, {1, 16, 0}, {2, 1, 0}, {2, 17, 5}, {3, 1, 0}, {3, 8, 0}, {3, 9, 0}, {4, 1, 0}, {4, 31, 0}, {4, 33, 0}, {5, 0, 0}, {5, 1, 1}, {0, 0, 0}};
		int depth = mc::thorough ? 6 : 5; Sys y(seeds[4], 1); mc::state(y.key());
		for (int i = 0; i < depth; ++i) { const O &o = mc::choose(ops); if (o.kind == 0) y.data(o.n, o.mis, false); else if (o.kind == 1) y.data(o.n, o.mis, true); else if (o.kind == 2) y.bools(o.n, o.mis); else if (o.kind == 3) y.blocks(o.n, o.mis); else if (o.kind == 4) y.word(o.n); else y.reseed(seeds[o.n + 2], o.mis); mc::state(y.key()); }
		y.tail();
	});
	mc::explore("long", {1, 0, 120}, [] {             // long streams: no block repeats, every request size divides the same stream
		int c = mc::choose(vector<int>{1, 3, 7, 8, 9, 16, 31, 64, 100, 1000}); Sys y(seeds[mc::pick(5)], 0); mc::note("chunks of %d: ", c); int total = mc::thorough ? 70000 : 5000; vector<std::pair<uint64_t, uint64_t>> seen;
		for (int i = 0; i < total; i += c) { vector<block> b(c); y.g.random_block(b.data(), c); for (auto &x : b) { block w = y.r.next(); MC_REQUIRE(eq(x, w), "block %d differs from the keystream", i); uint64_t v[2]; memcpy(v, &x, 16); seen.push_back({v[0], v[1]}); } mc::beat(); }
		std::sort(seen.begin(), seen.end()); MC_REQUIRE(std::unique(seen.begin(), seen.end()) == seen.end(), "a keystream block was handed out twice"); mc::step(total); mc::points(1);
	});
	mc::explore("far", {2, 0, 120}, [] {              // streams of more than 2^17 blocks through every entry point, and single requests that large
		int kind = mc::pick(5), c = mc::choose(vector<int>{1, 8, 9, 1000, 65535, 65536, 65537, 131081}); Sys y(seeds[4], 2); int total = (mc::thorough ? (1 << 21) : (1 << 17)) + 50; if (c == 1 && kind && kind < 4 && !mc::thorough) return; mc::note("entry point %d, requests of %d blocks: ", kind, c); int lim = me_note();
		for (int i = 0; i < total; i += c) { cut_note(lim); if (kind == 0) y.blocks(c, 0); else if (kind == 1) y.data(c * 16 - (i & 15), 0, false); else if (kind == 2) y.data(c * 16 - 3, i % 17, true); else if (kind == 3) y.bools(c * 16 - 1, i % 5); else y.word(2 * c + 1); }
		cut_note(lim); y.tail(); mc::points(1);
	});
	mc::explore("far-jump", {1, 0, 60}, [] {          // the same, starting near every power of two of the block counter (when the generator exposes it)
		int k = 8 + mc::pick(56), d = mc::pick(10); Sys y(seeds[4], 2); y.blocks(3, 0); uint64_t to = (1ULL << k) - d; mc::note("block number %lx: ", to); if (!jump(y.g, y.r.ctr, to, 0)) return; y.r.ctr = to; y.blocks(9, 0); y.data(33, 3, true); y.bools(5, 0); y.word(70); y.tail(); mc::points(1);
	});
	mc::explore("unseeded", {1, 0, 60}, [] {          // unseeded generators: pairwise different, and every entropy bit drawn reaches the stream
		int m = mc::pick(2);
		if (m == 0) { vector<string> s; for (int i = 0; i < 64; ++i) { PRG *g = new PRG(); block b[2]; g->random_block(b, 2); s.push_back(hex(b[0]) + hex(b[1])); delete g; { PRG h; h.random_block(b, 2); s.push_back(hex(b[0]) + hex(b[1])); } mc::step(2); } std::sort(s.begin(), s.end()); MC_REQUIRE(std::unique(s.begin(), s.end()) == s.end(), "two unseeded generators gave the same output"); mc::points(64); return; }
		auto run = [](int fd, int fb, int id) { env_on = true; env_state = 42; draws = 0; flip_draw = fd; flip_bit = fb; PRG g(nullptr, id); block b[2]; g.random_block(b, 2); env_on = false; return hex(b[0]) + hex(b[1]); };
		string base = run(-1, 0, 0); int nd = draws; mc::note("%d entropy words drawn ", nd); if (nd == 0) return;        // some other entropy source
		MC_REQUIRE(base == run(-1, 0, 0), "an unseeded generator is not a function of the entropy it draws");
		MC_REQUIRE(nd * 32 >= 128, "an unseeded generator draws only %d bits of entropy for a 128-bit seed", nd * 32);
		MC_REQUIRE(base != run(-1, 0, 1), "the id of an unseeded generator is ignored");
		if (nd == 4) for (int d = 0; d < nd; ++d) for (int b = 0; b < 32; ++b) { MC_REQUIRE(run(d, b, 0) != base, "bit %d of entropy word %d does not reach the seed", b, d); mc::step(); mc::points(1); }
	});
}
