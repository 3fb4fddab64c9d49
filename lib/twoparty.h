// Two-party channel programs: operations, the ideal full-duplex pipe, and payload patterns.
#pragma once
#include "mapped.h"
#include "fnet.h"
struct Op { char k; size_t n; };
typedef std::vector<Op> Prog;
static const size_t PATN = 12 << 20;
static unsigned char *pat[2];
inline void make_patterns() { for (int d = 0; d < 2; ++d) if (!pat[d]) { pat[d] = (unsigned char *)malloc(PATN); uint32_t x = 12345 + 77 * d; for (size_t i = 0; i < PATN; ++i) { x = x * 1664525u + 1013904223u; pat[d][i] = x >> 24; } } }
inline std::string show(const Prog &p) { std::string s; for (auto &o : p) { s += o.k; if (o.k == 'S' || o.k == 'R') s += std::to_string(o.n); s += ' '; if (s.size() > 300) { s += "... (" + std::to_string(p.size()) + " operations)"; break; } } return s; }
// can both programs finish over an ideal pipe with unbounded capacity?  (sync: both must have consumed everything)
inline bool ideal(const Prog &a, const Prog &b, bool all_read = false) {
	const Prog *p[2] = {&a, &b}; size_t pc[2] = {0, 0}; long q[2] = {0, 0}; bool prog = true;
	while (prog) {
		prog = false;
		for (int i = 0; i < 2; ++i) while (pc[i] < p[i]->size()) {
			const Op &o = (*p[i])[pc[i]];
			if (o.k == 'S') q[i] += o.n;
			else if (o.k == 'R') { if (q[1 - i] < (long)o.n) break; q[1 - i] -= o.n; }
			else if (o.k == 'Y') break;
			pc[i]++; prog = true;
		}
		if (pc[0] < a.size() && pc[1] < b.size() && a[pc[0]].k == 'Y' && b[pc[1]].k == 'Y') { if (q[0] || q[1]) return false; pc[0]++; pc[1]++; prog = true; }
	}
	return pc[0] == a.size() && pc[1] == b.size() && (!all_read || (!q[0] && !q[1]));
}
inline Prog gen(int maxlen, const std::vector<Op> &al) { Prog p; for (int i = 0; i < maxlen; ++i) { int c = mc::pick((int)al.size() + 1); if (c == 0) break; p.push_back(al[c - 1]); } return p; }
static unsigned char *rbuf[2]; static size_t rcap[2];
// receive n bytes of the stream of the other party and compare
template <class IO> void check_recv(IO &io, int me, size_t n, size_t &pos) {
	unsigned char *b; bool own = FN_ASAN;
	{ fnet::NT nt; if (own) b = (unsigned char *)malloc(n); else { if (rcap[me] < n + 64) { free(rbuf[me]); rcap[me] = n + 64; rbuf[me] = (unsigned char *)malloc(rcap[me]); } b = rbuf[me]; memset(b, 0xA5, n + 16); } }
	io.recv_data(b, n);
	if (memcmp(b, pat[1 - me] + pos, n)) { size_t i = 0; while (b[i] == pat[1 - me][pos + i]) ++i; mc::fail("party %d: receive of %zu bytes at stream position %zu: byte %zu is %02x, sent %02x", me, n, pos, i, b[i], pat[1 - me][pos + i]); }
	if (own) free(b); else for (int i = 0; i < 16; ++i) if (b[n + i] != 0xA5) mc::fail("party %d: receive of %zu bytes wrote past the destination", me, n);
	pos += n;
}
template <class IO> void do_send(IO &io, int me, size_t n, size_t &pos) {
	if (FN_ASAN) { unsigned char *b = (unsigned char *)malloc(n); memcpy(b, pat[me] + pos, n); pos += n; io.send_data(b, n); free(b); }
	else { pos += n; io.send_data(pat[me] + pos - n, n); }
}

// ---- messages beyond 2^31 and 2^32 bytes: a pattern of an odd number of pages mapped over and over stands for the whole message
// party 0 sends the sizes s, party 1 receives the sizes r of the same stream, then a short reply
template <class MK> void huge_messages(MK mk, const std::vector<size_t> &s, const std::vector<size_t> &r) {
	size_t big = 0, tot = 0, tr = 0; for (auto x : s) { big = std::max(big, x); tot += x; } for (auto x : r) { big = std::max(big, x); tr += x; }
	std::string d; for (auto x : s) d += " " + std::to_string(x); d += " received as"; for (auto x : r) d += " " + std::to_string(x); mc::note("messages of%s bytes", d.c_str()); MC_REQUIRE(tot == tr, "harness");
	size_t P = Mapped::period(); Mapped src(big), dst(big);
	auto at = [&](size_t pos) { uint64_t x = pos % P; x = x * 2654435761u + (x >> 11) * 40503u; return (unsigned char)(x >> 9); };
	for (size_t i = 0; i < P; ++i) src.p[i] = at(i);
	fnet::Scope sc; sc.w.sched = 2; sc.w.devio = sc.w.devsched = false; sc.w.wmode = 256 << 10; sc.w.compact = true; bool fin[2] = {false, false};
	sc.add([&]() { auto io = mk(0); size_t pos = 0; for (auto n : s) { mc::me->beat++; io->send_data(src.p + pos % P, n); pos += n; } io->flush(); unsigned char c[3]; io->recv_data(c, 3); MC_REQUIRE(c[0] == 7 && c[1] == 8 && c[2] == 9, "wrong reply"); fin[0] = true; delete io; });
	sc.add([&]() { auto io = mk(1); size_t pos = 0; for (auto n : r) { mc::me->beat++; memset(dst.p, 0x5A, P); size_t o = pos % P; io->recv_data(dst.p + o, n); size_t chk = std::min(n, P);
		for (size_t i = 0; i < chk; ++i) { size_t q = (pos + n - 1 - i); MC_REQUIRE(dst.p[q % P] == at(q), "receive of %zu bytes at position %zu: byte %zu is %02x, sent %02x", n, pos, n - 1 - i, dst.p[q % P], at(q)); } pos += n; }
		io->flush(); unsigned char c[3] = {7, 8, 9}; io->send_data(c, 3); fin[1] = true; delete io; });
	bool ok = sc.run(); MC_REQUIRE(ok, "the transfer does not complete"); for (int i = 0; i < 2; ++i) MC_REQUIRE(sc.status(i) == -1 && fin[i], "party %d ended with status %d", i, sc.status(i));
	mc::step(tot >> 20); mc::state(tot); mc::outcome(tot);
}
