// C05: typed channel helpers.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/utils/group.h"
using namespace emp; using namespace mc;
size_t nobmi_send(const bool *d, size_t n, char *out); void nobmi_recv(const char *in, size_t k, bool *d, size_t n);
// bool array at a chosen address modulo 8, with guard bytes
struct BA { unsigned char *mem; bool *p; size_t n; int off; BA(size_t n, int off) : n(n), off(off) { size_t sz = FN_ASAN ? n + off : n + off + 32; mem = (unsigned char *)malloc(sz ? sz : 1); memset(mem, 0x5A, sz); p = (bool *)mem + off; } ~BA() { free(mem); }
	void check() { for (int i = 0; i < off; ++i) MC_REQUIRE(mem[i] == 0x5A, "byte before the array was overwritten"); if (!FN_ASAN) for (int i = 0; i < 16; ++i) MC_REQUIRE(mem[off + n + i] == 0x5A, "byte %d after the array was overwritten", i); } };
static bool bitat(int kind, size_t i, size_t n) { if (kind == 0) return false; if (kind == 1) return true; if (kind == 2) return i & 1; if (kind == 3) return !(i & 1); if (kind == 4) return (pat[0][i & 0xfffff] ^ (i >> 9)) & 4; if (kind == 5) return i % 8 == 7; if (kind == 6) return i % 8 == 0; if (kind < 10000000) return (size_t)(kind - 7) == i; return (kind - 10000000) >> i & 1; }
static const unsigned char *B(const bool *p) { return (const unsigned char *)p; }
template <class S, class R> static void bool_round(S &snd, R &rcv, size_t n, int so, int ro, int kind, bool aligned_api) {
	BA a(n, so), b(n, ro); for (size_t i = 0; i < n; ++i) a.p[i] = bitat(kind, i, n);
	snd.send_data("\x11\x22\x33", 3); if (aligned_api) snd.send_bool_aligned(a.p, n); else snd.send_bool(a.p, n); snd.send_data("\x44", 1);
	unsigned char m[4] = {0}; rcv.recv_data(m, 3); MC_REQUIRE(m[0] == 0x11 && m[1] == 0x22 && m[2] == 0x33, "message before the bools damaged"); if (aligned_api) rcv.recv_bool_aligned(b.p, n); else rcv.recv_bool(b.p, n);
	for (size_t i = 0; i < n; ++i) MC_REQUIRE(B(b.p)[i] == (unsigned char)bitat(kind, i, n), "bool %zu of %zu received as %02x, sent %d", i, n, B(b.p)[i], bitat(kind, i, n));
	b.check(); rcv.recv_data(m, 1); MC_REQUIRE(m[0] == 0x44, "message after the bools is out of step"); step(4);
}
static Group *G; static std::vector<Point> *PT;
static void points_init() { if (G) return; G = new Group; PT = new std::vector<Point>; Point g = G->get_generator(); PT->push_back(g); Point g2 = g.add(g); PT->push_back(g2); Point i = g.inv(); PT->push_back(i); Point o = g.add(i); PT->push_back(o); BigInt k; unsigned char kb[32]; for (int j = 0; j < 32; ++j) kb[j] = 7 * j + 1; k.from_bin(kb, 32); PT->push_back(g.mul(k)); }
// a typed message: kind and size
struct Msg { char k; size_t n; };
static const std::vector<Msg> MS = {{'b', 0}, {'b', 1}, {'b', 7}, {'b', 8}, {'b', 13}, {'b', 64}, {'k', 0}, {'k', 1}, {'k', 3}, {'p', 1}, {'p', 3}, {'d', 1}, {'d', 5}, {'B', 17}};
static std::string show(const std::vector<Msg> &v) { std::string s; for (auto &m : v) { s += m.k == 'b' ? "bool" : m.k == 'B' ? "bool_aligned" : m.k == 'k' ? "block" : m.k == 'p' ? "point" : "data"; s += std::to_string(m.n) + " "; } return s; }
template <class IO> static void send_msg(IO &io, const Msg &m, int j) {
	if (m.k == 'b' || m.k == 'B') { BA a(m.n, m.k == 'B' ? 0 : (j * 3 + 1) % 8); for (size_t i = 0; i < m.n; ++i) a.p[i] = bitat(4, i + j, 0); if (m.k == 'b') io.send_bool(a.p, m.n); else io.send_bool_aligned(a.p, m.n); }
	else if (m.k == 'k') { block *b = (block *)aligned_alloc(16, 16 * (m.n + 1)); memcpy((void *)b, pat[0] + 100 * j, 16 * m.n); io.send_block(b, m.n); free(b); }
	else if (m.k == 'p') { std::vector<Point> v; for (size_t i = 0; i < m.n; ++i) v.push_back((*PT)[(i + j) % PT->size()]); if (m.n == 1) io.send_pt(v.data()); else io.send_pt(v.data(), m.n); }
	else io.send_data(pat[0] + 200 * j, m.n);
	step();
}
template <class IO> static void recv_msg(IO &io, const Msg &m, int j) {
	if (m.k == 'b' || m.k == 'B') { BA a(m.n, m.k == 'B' ? 0 : (j * 5 + 2) % 8); if (m.k == 'b') io.recv_bool(a.p, m.n); else io.recv_bool_aligned(a.p, m.n); for (size_t i = 0; i < m.n; ++i) MC_REQUIRE(B(a.p)[i] == (unsigned char)bitat(4, i + j, 0), "message %d: bool %zu wrong", j, i); a.check(); }
	else if (m.k == 'k') { block *b = (block *)aligned_alloc(16, 16 * (m.n + 1)); memset((void *)b, 0x5A, 16 * (m.n + 1)); io.recv_block(b, m.n); MC_REQUIRE(!memcmp(b, pat[0] + 100 * j, 16 * m.n), "message %d: blocks wrong", j); for (int q = 0; q < 16; ++q) MC_REQUIRE(((unsigned char *)(b + m.n))[q] == 0x5A, "message %d: wrote past the blocks", j); free(b); }
	else if (m.k == 'p') { std::vector<Point> v(m.n); if (m.n == 1) io.recv_pt(G, v.data()); else io.recv_pt(G, v.data(), m.n); for (size_t i = 0; i < m.n; ++i) MC_REQUIRE(v[i] == (*PT)[(i + j) % PT->size()], "message %d: point %zu wrong", j, i); }
	else { unsigned char b[64]; memset(b, 0x5A, 64); io.recv_data(b, m.n); MC_REQUIRE(!memcmp(b, pat[0] + 200 * j, m.n), "message %d: data wrong", j); for (size_t q = m.n; q < 64; ++q) MC_REQUIRE(b[q] == 0x5A, "message %d: wrote past the data", j); }
	step();
}
template <class MK> static void net_run(const std::vector<Msg> &v, int sched, int rmode, MK mk) {
	fnet::Scope s; s.w.sched = sched; s.w.rmode = rmode; s.w.devio = s.w.devsched = false;
	for (int i = 0; i < 2; ++i) s.add([&, i]() { auto io = mk(i); for (size_t j = 0; j < v.size(); ++j) if (i == 0) send_msg(*io, v[j], (int)j); else recv_msg(*io, v[j], (int)j); if (i == 1) io->send_data("z", 1); else { char c = 0; io->recv_data(&c, 1); MC_REQUIRE(c == 'z', "reply out of step"); } delete io; });
	MC_REQUIRE(s.run(), "the parties wait forever"); for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "party %d ended with status %d", i, s.status(i));
}
static void over_channel(int ch, const std::vector<Msg> &v, int sched, int rmode) {
	note("channel %d: %s", ch, show(v).c_str());
	if (ch == 0) { MemIO io(1); for (size_t j = 0; j < v.size(); ++j) send_msg(io, v[j], (int)j); for (size_t j = 0; j < v.size(); ++j) recv_msg(io, v[j], (int)j); MC_REQUIRE(io.read_pos == io.size, "%ld bytes left over", (long)(io.size - io.read_pos)); }
	else if (ch == 1) { std::string fn = "c05." + std::to_string(getpid()) + ".tmp"; { FileIO io(fn.c_str(), false); for (size_t j = 0; j < v.size(); ++j) send_msg(io, v[j], (int)j); } { FileIO io(fn.c_str(), true); for (size_t j = 0; j < v.size(); ++j) recv_msg(io, v[j], (int)j); } unlink(fn.c_str()); }
	else if (ch == 2) net_run(v, sched, rmode, [](int i) { return new NetIO(i ? "127.0.0.1" : nullptr, 4321, true); });
	else net_run(v, sched, rmode, [](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 4321, 4322, true); });
	state(hbytes(me->note, me->nnote)); outcome(hmix(ch, v.size()));
}
MC_MAIN("C05") {
	make_patterns(); bool T = thorough; at_child.push_back([]() { points_init(); });
#ifdef LIGHT
	int L = 40;
#else
	int L = T ? 600 : 260;
#endif
	explore("bools", {2, 0}, [&]() { size_t n = pick(L + 1); int so = pick(8), ro = pick(8); note("%zu bools, sender offset %d, receiver offset %d", n, so, ro); for (int k = 0; k < 7; ++k) { MemIO io(16); bool_round(io, io, n, so, ro, k, false); MC_REQUIRE(io.read_pos == io.size, "bytes left over"); } points(7); outcome(n); });
	explore("bools one-hot", {2, 0}, [&]() { size_t n = pick(L + 1); int so = pick(8), ro = (so * 3 + (int)n) % 8; note("%zu one-hot bools, sender offset %d, receiver offset %d", n, so, ro); for (size_t k = 0; k < n; ++k) { MemIO io(16); bool_round(io, io, n, so, ro, 7 + (int)k, false); } points(n); });
	explore("bools all contents", {2, 0}, [&]() { size_t n = pick(T ? 17 : 13); int so = pick(2) * 3, ro = pick(2) * 5; note("all contents of %zu bools, offsets %d %d", n, so, ro); for (int v = 0; v < 1 << n; ++v) { MemIO io(16); bool_round(io, io, n, so, ro, 10000000 + v, false); } points(1u << n); });
	explore("aligned helpers", {2, 0}, [&]() { size_t n = pick(L + 1); int k = pick(7); note("aligned helpers, %zu bools, content %d", n, k); MemIO io(16); bool_round(io, io, n, 0, 0, k, true); MC_REQUIRE(io.read_pos == io.size, "bytes left over"); points(1); });
	explore("bools with and without BMI2", {2, 0}, [&]() {
		size_t n = pick(L + 1); int so = pick(8), ro = pick(8); note("%zu bools between a build with and one without BMI2, offsets %d %d", n, so, ro);
		for (int k = 0; k < 7; ++k) { BA a(n, so), b(n, ro), c(n, ro); for (size_t i = 0; i < n; ++i) a.p[i] = bitat(k, i, n); MemIO io(16); io.send_bool(a.p, n); size_t len = io.size; std::vector<char> w(len + n + 16), w2(len + n + 16); io.recv_data(w.data(), len);
			nobmi_recv(w.data(), len, b.p, n); size_t l2 = nobmi_send(a.p, n, w2.data()); MemIO i2(16); i2.send_data(w2.data(), l2); i2.recv_bool(c.p, n); MC_REQUIRE(i2.read_pos == i2.size, "bytes left over"); step(2);
			for (size_t i = 0; i < n; ++i) MC_REQUIRE(B(b.p)[i] == bitat(k, i, n) && B(c.p)[i] == bitat(k, i, n), "bool %zu differs between builds", i); b.check(); c.check(); } points(7); });
	explore("blocks", {1, 0}, [&]() { size_t n = pick(L + 1); note("%zu blocks", n); MemIO io(1); block *a = (block *)aligned_alloc(16, 16 * (n + 1)), *b = (block *)aligned_alloc(16, 16 * (n + 1)); memcpy((void *)a, pat[0], 16 * n); memset((void *)b, 0, 16 * n); io.send_block(a, n); io.send_data("q", 1); io.recv_block(b, n); char c = 0; io.recv_data(&c, 1); MC_REQUIRE(!memcmp(a, b, 16 * n) && c == 'q', "blocks damaged"); free(a); free(b); step(2); points(1); });
	explore("points", {2, 0}, [&]() { points_init(); int n = pick(5); std::vector<Point> v, w(n); std::vector<int> ix; note("points"); for (int i = 0; i < n; ++i) { ix.push_back(pick(5)); note(" %d", ix[i]); v.push_back((*PT)[ix[i]]); } MemIO io(1); io.send_pt(v.data(), n); io.send_data("q", 1); io.recv_pt(G, w.data(), n); char c = 0; io.recv_data(&c, 1); for (int i = 0; i < n; ++i) MC_REQUIRE(w[i] == (*PT)[ix[i]], "point %d wrong", i); MC_REQUIRE(c == 'q', "out of step"); step(2); points(1); });
	explore("sequences, memory and file", {2, 0}, [&]() { points_init(); int ch = pick(2); std::vector<Msg> v; int n = T ? 5 : 4; for (int i = 0; i < n; ++i) v.push_back(choose(MS)); over_channel(ch, v, 0, 0); });
	explore("sequences, network", {2, 0}, [&]() { points_init(); int ch = 2 + pick(2); std::vector<Msg> v; int n = T ? 3 : 2; for (int i = 0; i < n; ++i) v.push_back(choose(MS)); int m = pick(4); over_channel(ch, v, m % 2, m / 2 ? 613 : 0); });
#ifndef LIGHT
	explore("bools over the network", {2, 0}, [&]() { points_init(); std::vector<size_t> z; for (size_t q : {(size_t)8192, (size_t)32768, (size_t)262144, (size_t)1048576}) for (int d : {-1, 0, 1, 9}) z.push_back(q + d); size_t n = choose(z); over_channel(2 + pick(2), {{'b', 3}, {'b', n}, {'k', 2}, {'b', 9}}, pick(2), 0); });
	explore("long bool arrays", {1, 0}, [&]() { size_t n = choose(std::vector<size_t>{1000, 4095, 4096, 4097, 65537, 1048575, 1048583}); int so = pick(8), ro = pick(2) * 3; note("%zu bools, offsets %d %d", n, so, ro); MemIO io; bool_round(io, io, n, so, ro, 4, false); points(1); });
#endif
}
