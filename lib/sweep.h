// Exhaustive evaluation of one extracted netlist over a whole input space.
#pragma once
#include "mc.h"
#include "netlist.h"
#include <openssl/bn.h>
#include <functional>
namespace sw {
using namespace emp; using nl::v4; using std::vector;
typedef std::function<void(vector<Bit> &, vector<Bit> &)> Fn;       // inputs -> outputs
inline Integer sub(const vector<Bit> &v, int o, int n) { return Integer(vector<Bit>(v.begin() + o, v.begin() + o + n)); }
inline void put(vector<Bit> &o, const Integer &x) { o.insert(o.end(), x.bits.begin(), x.bits.end()); }
inline uint64_t mask(int n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
inline int64_t sx(uint64_t v, int n) { if (n >= 64) return (int64_t)v; uint64_t m = 1ULL << (n - 1); v &= mask(n); return (int64_t)((v ^ m) - m); }

// all 2^nin inputs (nin <= 32), outputs <= 64 bits, split into `parts` pieces
template <class R> void all(const char *what, int nin, Fn f, R ref, int part = 0, int parts = 1) {
	nl::Net n = nl::extract(nin, f); auto s = n.mk(); int no = (int)n.out.size(); MC_REQUIRE(no <= 64, "%s: too many outputs", what);
	vector<const v4 *> op; for (int i = 0; i < no; ++i) op.push_back(&s[n.out[i]]);
	uint64_t tot = 1ULL << nin, res[256];
	for (uint64_t b = (uint64_t)part * 256; b < tot || (b == 0 && part == 0); b += 256ULL * parts) {
		nl::slice_range(&s[2], b, nin); n.eval(s.data()); nl::unslice(op.data(), no, res);
		uint64_t lim = std::min<uint64_t>(256, tot);
		for (uint64_t k = 0; k < lim; ++k) { uint64_t x = b + k, want; if (!ref(x, want)) continue; want &= mask(no); if (res[k] != want) mc::fail("%s: input 0x%lx: got 0x%lx, expected 0x%lx", what, x, res[k], want); }
		mc::step(lim * n.gates.size()); mc::points(lim);
		if (tot < 256) break;
	}
}
// arbitrary-width values as bit strings
typedef vector<bool> BV;
inline BV bv(int n, int64_t v) { BV r(n); for (int i = 0; i < n; ++i) r[i] = (i < 64 ? (v >> i) & 1 : v < 0); return r; }
inline std::string str(const BV &b) { std::string s = "0b"; for (size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0'; return s; }
inline BIGNUM *tobn(const BV &b, bool sgn) { BIGNUM *r = BN_new(); int n = b.size(); for (int i = 0; i < n; ++i) if (b[i]) BN_set_bit(r, i); if (sgn && n && b[n - 1]) { BIGNUM *t = BN_new(); BN_set_bit(t, n); BN_sub(r, r, t); BN_free(t); } return r; }
inline BV frombn(const BIGNUM *x, int n) { BIGNUM *t = BN_dup(x); if (BN_is_negative(t)) { BIGNUM *m = BN_new(); BN_set_bit(m, n + BN_num_bits(x) + 1); BN_add(t, t, m); BN_free(m); } BV r(n); for (int i = 0; i < n; ++i) r[i] = BN_is_bit_set(t, i); BN_free(t); return r; }
// signed boundary alphabet of width n
inline vector<BV> alphabet(int n, bool dense) {
	vector<BV> r; auto add = [&](BV b) { for (auto &x : r) if (x == b) return; r.push_back(b); };
	for (int v : {0, 1, -1, 2, -2, 3, -3, 5, 7, 10, -10}) add(bv(n, v));
	BV mn(n, false); mn[n - 1] = true; add(mn); BV mx(n, true); mx[n - 1] = false; add(mx); BV m1 = mn; m1[0] = true; add(m1); BV m2 = mx; m2[0] = false; add(m2);
	BV p5(n), pA(n); for (int i = 0; i < n; ++i) { p5[i] = !(i & 1); pA[i] = i & 1; } add(p5); add(pA);
	for (int k = 1; k < n; ++k) if (dense || k < 4 || k > n - 4 || (n > 200 ? k % 64 <= 1 || k % 64 == 63 : k % 8 <= 1 || k % 32 == 31)) {
		BV a(n, false); a[k] = true; add(a);                       // 2^k
		BV b(n, false); for (int i = 0; i < k; ++i) b[i] = true; add(b); // 2^k-1
		BV c(n, true); for (int i = 0; i < k; ++i) c[i] = false; add(c); // -2^k
	}
	return r;
}
// evaluate the net of f on a list of inputs (each a bit vector); compare with expected bits (empty = not defined)
inline void list(const char *what, int nin, Fn f, const vector<BV> &in, const std::function<BV(const BV &)> &ref) {
	nl::Net n = nl::extract(nin, f); auto s = n.mk();
	for (size_t b = 0; b < in.size(); b += 256) {
		size_t m = std::min<size_t>(256, in.size() - b);
		for (int i = 0; i < nin; ++i) { v4 z = {0, 0, 0, 0}; for (size_t k = 0; k < m; ++k) if (in[b + k][i]) z[k / 64] |= 1ULL << (k % 64); s[2 + i] = z; }
		n.eval(s.data());
		for (size_t k = 0; k < m; ++k) {
			BV w = ref(in[b + k]); if (w.empty()) continue;
			BV g(n.out.size()); for (size_t i = 0; i < g.size(); ++i) g[i] = (s[n.out[i]][k / 64] >> (k % 64)) & 1;
			if (g != w) mc::fail("%s: input %s: got %s expected %s", what, str(in[b + k]).c_str(), str(g).c_str(), str(w).c_str());
			mc::step(n.gates.size()); mc::points(1);
		}
		mc::beat();
	}
}
inline BV cat(const BV &a, const BV &b) { BV r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
inline BV part(const BV &a, int o, int n) { return BV(a.begin() + o, a.begin() + o + n); }
}
