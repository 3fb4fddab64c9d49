// C23: oblivious sort.
#include "sweep.h"
using namespace sw;
// netlist of sort over len keys of w bits (+ optional data of d bits), direction public or secret
struct Cfg { int len, w, d, dir; };   // dir: 0 default arg, 1 explicit ascending, 2 explicit descending, 3 secret direction
static void sorter(const Cfg &c, vector<Bit> &in, vector<Bit> &out) {
	int o = 0; Integer *k = new Integer[c.len + 2], *dt = new Integer[c.len + 2]; Bit *db = new Bit[c.len + 2];
	// guard elements on both sides must stay untouched
	Integer g0(c.w, 1, PUBLIC); k[0] = k[c.len + 1] = g0; dt[0] = dt[c.len + 1] = g0;
	for (int i = 0; i < c.len; ++i) { k[i + 1] = sub(in, o, c.w); o += c.w; }
	if (c.d > 0) for (int i = 0; i < c.len; ++i) { dt[i + 1] = sub(in, o, c.d); o += c.d; }
	if (c.d < 0) for (int i = 0; i < c.len; ++i) db[i + 1] = in[o++];
	switch (c.dir) {
	case 0: if (c.d > 0) sort(k + 1, c.len, dt + 1); else if (c.d < 0) sort(k + 1, c.len, db + 1); else sort(k + 1, c.len); break;
	default: { Bit acc = c.dir == 3 ? in[o] : Bit(c.dir == 1, PUBLIC); if (c.d > 0) sort(k + 1, c.len, dt + 1, acc); else if (c.d < 0) sort(k + 1, c.len, db + 1, acc); else sort(k + 1, c.len, (Bit *)nullptr, acc); } }
	for (int e : {0, c.len + 1}) MC_REQUIRE(k[e].size() == g0.size() && memcmp(k[e].bits.data(), g0.bits.data(), g0.size() * sizeof(Bit)) == 0 && memcmp(dt[e].bits.data(), g0.bits.data(), g0.size() * sizeof(Bit)) == 0, "sort touched an element outside the array");
	for (int i = 1; i <= c.len; ++i) { MC_REQUIRE((int)k[i].size() == c.w, "key width changed"); put(out, k[i]); }
	if (c.d > 0) for (int i = 1; i <= c.len; ++i) put(out, dt[i]);
	if (c.d < 0) for (int i = 1; i <= c.len; ++i) out.push_back(db[i]);
	delete[] k; delete[] dt; delete[] db;
}
// oracle on one result: keys sorted, multiset of (key,data) pairs preserved.  kv/dv in, ko/do out.
static void judge(const Cfg &c, bool asc, const vector<int64_t> &ki, const vector<int64_t> &di, const vector<int64_t> &ko, const vector<int64_t> &dd) {
	auto s = [](const vector<int64_t> &v) { std::string r = "["; for (auto x : v) r += std::to_string(x) + " "; return r + "]"; };
	for (int i = 0; i + 1 < c.len; ++i) MC_REQUIRE(asc ? ko[i] <= ko[i + 1] : ko[i] >= ko[i + 1], "keys %s sorted %s to %s", s(ki).c_str(), asc ? "ascending" : "descending", s(ko).c_str());
	vector<std::pair<int64_t, int64_t>> a, b; for (int i = 0; i < c.len; ++i) { a.push_back({ki[i], c.d ? di[i] : 0}); b.push_back({ko[i], c.d ? dd[i] : 0}); }
	std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_REQUIRE(a == b, "(key,data) pairs not preserved: keys %s data %s -> keys %s data %s", s(ki).c_str(), s(di).c_str(), s(ko).c_str(), s(dd).c_str());
}
static void run(const Cfg &c, uint64_t nin_cases, const std::function<void(uint64_t, vector<int64_t> &, vector<int64_t> &, bool &)> &gen) {
	int dbits = c.d < 0 ? 1 : c.d; int nin = c.len * (c.w + dbits) + (c.dir == 3);
	nl::Net n = nl::extract(nin, [&](vector<Bit> &i, vector<Bit> &o) { sorter(c, i, o); }); auto s = n.mk();
	vector<vector<int64_t>> K(256), D(256); vector<char> A(256);
	for (uint64_t b = 0; b < nin_cases; b += 256) {
		size_t m = std::min<uint64_t>(256, nin_cases - b); for (int i = 0; i < nin; ++i) s[2 + i] = v4{0, 0, 0, 0};
		for (size_t k = 0; k < m; ++k) { K[k].assign(c.len, 0); D[k].assign(c.len, 0); bool asc = c.dir != 2; gen(b + k, K[k], D[k], asc); A[k] = asc; int o = 2;
			for (int i = 0; i < c.len; ++i) for (int j = 0; j < c.w; ++j, ++o) if ((K[k][i] >> j) & 1) s[o][k / 64] |= 1ULL << (k % 64);
			if (dbits) for (int i = 0; i < c.len; ++i) for (int j = 0; j < dbits; ++j, ++o) if ((D[k][i] >> j) & 1) s[o][k / 64] |= 1ULL << (k % 64);
			if (c.dir == 3 && asc) s[o][k / 64] |= 1ULL << (k % 64); }
		n.eval(s.data());
		for (size_t k = 0; k < m; ++k) { vector<int64_t> ko(c.len), dd(c.len); int o = 0; auto rd = [&](int w) { uint64_t v = 0; for (int j = 0; j < w; ++j, ++o) if ((s[n.out[o]][k / 64] >> (k % 64)) & 1) v |= 1ULL << j; return v; };
			for (int i = 0; i < c.len; ++i) ko[i] = sx(rd(c.w), c.w); if (dbits) for (int i = 0; i < c.len; ++i) dd[i] = rd(dbits); judge(c, A[k], K[k], D[k], ko, dd); }
		mc::step(m * n.gates.size()); mc::points(m);
	}
}
MC_MAIN("C23") {
	int LZ = mc::thorough ? 18 : 14;
#ifdef LIGHT
	LZ = 10;
#endif
	static const char *dn[] = {"default", "ascending", "descending", "secret direction"};
	mc::explore("zero-one", {3, 0, 300}, [&] {        // all 0/1 key vectors of each length (2-bit keys 0/1), data = position
		int len = mc::pick(LZ + 1), dir = mc::pick(4), data = mc::pick(3); if (len == 0 && dir == 0) { mc::note("empty array"); Integer k; nl::Session s; sort(&k, 0); mc::step(); mc::points(1); return; } if (len == 0) return;
		Cfg c{len, 2, data == 0 ? 0 : data == 1 ? 5 : -1, dir}; mc::note("all 0/1 keys of length %d, %s, %s", len, dn[dir], data == 0 ? "no data" : data == 1 ? "position as data" : "Bit data");
		run(c, (1ULL << len) * (dir == 3 ? 2 : 1), [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { for (int i = 0; i < len; ++i) { k[i] = (x >> i) & 1; d[i] = data == 1 ? i : ((x * 2654435761u >> (i + 3)) & 1); } if (dir == 3) asc = x >> len; });
	});
	mc::explore("all-keys", {3, 0, 300}, [&] {         // all key assignments incl. negatives and duplicates
		int len = 1 + mc::pick(mc::thorough ? 7 : 6), w = 1 + mc::pick(3), dir = mc::pick(4), bits = len * w; if (bits > (mc::thorough ? 21 : 16)) { mc::note("out of bounds"); return; }
		Cfg c{len, w, 4, dir}; mc::note("all %d-bit signed keys, length %d, %s", w, len, dn[dir]);
		run(c, (1ULL << bits) * (dir == 3 ? 2 : 1), [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { for (int i = 0; i < len; ++i) { k[i] = sx(x >> (i * w), w); d[i] = i + 1; } if (dir == 3) asc = x >> bits; });
	});
	mc::explore("long", {2, 0, 300}, [&] {             // longer arrays: every sorted-threshold 0/1 pattern with one and two runs, rotations
		static vector<int> lens = {15, 16, 17, 24, 31, 32, 33, 48, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700}; int len = mc::choose(lens), dir = mc::pick(4);
#ifdef LIGHT
		if (len > 33) return;
#endif
		mc::note("length %d: all cyclic runs of ones and all one-hot/one-cold keys, %s", len, dn[dir]); Cfg c{len, 8, len > 100 ? 10 : 7, dir}; if (len > 100) { mc::note("length %d: runs of ones of 16 lengths at 16 starts, %s", len, dn[dir]); if (len > 300 && dir != 3 && dir != 0) { mc::note("longest arrays: default and secret direction"); return; } run(c, 256 * (dir == 3 ? 2 : 1), [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { int st = (x % 16) * len / 16, ln = x / 16 % 16 * len / 15; for (int i = 0; i < len; ++i) { bool in = ((i - st + len) % len) < ln; k[i] = in ? 100 - (i % 3) : (i % 5) - 100; d[i] = i; } if (dir == 3) asc = x >= 256; }); return; }
		run(c, (uint64_t)len * len * (dir == 3 ? 2 : 1), [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { int st = x % len, ln = (x / len) % len; for (int i = 0; i < len; ++i) { bool in = ((i - st + len) % len) < ln; k[i] = in ? 100 - (i % 3) : (i % 5) - 100; d[i] = i; } if (dir == 3) asc = x >= (uint64_t)len * len; });
	});
	// every length: by the 0-1 principle and induction over the length, sorting is right if it is right for every number of zeros in the first and in the second half
	mc::explore("halves", {2, 0, 300}, [&] {
#ifdef LIGHT
		return;
#endif
		static vector<int> lens; if (lens.empty()) { for (int i = 2; i <= (mc::thorough ? 400 : 150); ++i) lens.push_back(i); for (int x : {160, 171, 192, 193, 200, 255, 256, 257, 300, 384, 385, 500, 511, 512, 513}) lens.push_back(x); if (mc::thorough) for (int x : {600, 768, 1000, 1023, 1024, 1025}) lens.push_back(x); }
		int len = mc::choose(lens), desc = mc::pick(2), fm = len / 2; bool st = len > 150 && !mc::thorough; Cfg c{len, 1, 0, desc ? 2 : 0}; int sa = st ? fm / 24 + 1 : 1, A = fm / sa + 1, B = (len - fm) / sa + 1; mc::note("length %d, %s: every number of small keys in each half%s", len, dn[c.dir], st ? " in steps" : "");
		run(c, (uint64_t)A * B * 2, [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { (void)d; (void)asc; int a = x / 2 % A * sa, b = x / 2 / A * sa; for (int i = 0; i < len; ++i) { int at = i < fm ? i : i - fm, sz = i < fm ? fm : len - fm, cnt = i < fm ? a : b; if (x & 1) at = sz - 1 - at; k[i] = at < cnt ? -1 : 0; } });
	});
	// every pair of positions has to be able to change places, and the data has to follow
	mc::explore("far pairs", {2, 0, 300}, [&] {
#ifdef LIGHT
		return;
#endif
		static vector<int> lens; if (lens.empty()) for (int i = 2; i <= (mc::thorough ? 200 : 70); ++i) lens.push_back(i); int len = mc::choose(lens), dir = mc::pick(3); Cfg c{len, 9, 9, dir}; mc::note("length %d, %s: sorted arrays with every two elements exchanged", len, dn[dir]);
		run(c, (uint64_t)len * len, [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { (void)asc; int i0 = x % len, j0 = x / len; for (int i = 0; i < len; ++i) { k[i] = i - len / 2; d[i] = i; } std::swap(k[i0], k[j0]); });
	});
	mc::explore("perms", {2, 0, 300}, [&] {            // all permutations of distinct keys
		int len = 2 + mc::pick(mc::thorough ? 7 : 6), dir = mc::pick(4); mc::note("all permutations of %d distinct keys, %s", len, dn[dir]);
		vector<vector<int>> ps; vector<int> p(len); for (int i = 0; i < len; ++i) p[i] = i; do ps.push_back(p); while (std::next_permutation(p.begin(), p.end())); Cfg c{len, 5, 6, dir};
		run(c, ps.size() * (dir == 3 ? 2 : 1), [&](uint64_t x, vector<int64_t> &k, vector<int64_t> &d, bool &asc) { for (int i = 0; i < len; ++i) { k[i] = ps[x % ps.size()][i] * 3 - 12; d[i] = 40 + i; } if (dir == 3) asc = x >= ps.size(); });
	});
}
