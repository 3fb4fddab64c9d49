// C07: the sent-byte counter on every channel kind.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/utils/group.h"
using namespace emp; using namespace mc;
struct NullIO : public IOChannel<NullIO> { uint64_t in = 0; void send_data_internal(const void *, size_t n) { in += n; } void recv_data_internal(void *p, size_t n) { if (n < 100000) memset(p, 0, n); } };
static Group *G; static std::vector<Point> *PT;
static void init() { if (G) return; G = new Group; PT = new std::vector<Point>; Point g = G->get_generator(); PT->push_back(g); Point i = g.inv(); Point o = g.add(i); PT->push_back(o); }
struct Msg { char k; size_t n; };
static const std::vector<Msg> MS = {{'d', 0}, {'d', 1}, {'d', 5}, {'b', 1}, {'b', 8}, {'b', 21}, {'B', 16}, {'k', 0}, {'k', 2}, {'p', 1}, {'p', 2}};
static std::string show(const Msg &m) { return std::string(m.k == 'b' ? "bool" : m.k == 'B' ? "bool_aligned" : m.k == 'k' ? "block" : m.k == 'p' ? "point" : "data") + std::to_string(m.n); }
static bool bl[4096]; static block *bk;
template <class IO> void snd(IO &io, const Msg &m) { if (m.k == 'd') io.send_data(pat[0], m.n); else if (m.k == 'b') io.send_bool(bl + 1, m.n); else if (m.k == 'B') io.send_bool_aligned(bl, m.n); else if (m.k == 'k') io.send_block(bk, m.n); else { std::vector<Point> v; for (size_t i = 0; i < m.n; ++i) v.push_back((*PT)[i % 2]); io.send_pt(v.data(), m.n); } step(); }
template <class IO> void rcv(IO &io, const Msg &m) { static unsigned char b[4096]; if (m.k == 'd') io.recv_data(b, m.n); else if (m.k == 'b') io.recv_bool((bool *)b + 3, m.n); else if (m.k == 'B') io.recv_bool_aligned((bool *)b, m.n); else if (m.k == 'k') io.recv_block(bk, m.n); else { std::vector<Point> v(m.n); io.recv_pt(G, v.data(), m.n); } step(); }
// what a message occupies: measured as the number of bytes the channel layer hands to the transport and the matching receive takes
static size_t size_of(const Msg &m) { NullIO n; snd(n, m); MemIO io(1); snd(io, m); MC_REQUIRE(n.in == (uint64_t)io.size, "%s: %lu bytes handed over, %ld stored", show(m).c_str(), n.in, (long)io.size); rcv(io, m); MC_REQUIRE(io.read_pos == io.size, "%s: the receive takes %ld of %ld bytes", show(m).c_str(), (long)io.read_pos, (long)io.size); if (m.k == 'd') MC_REQUIRE(n.in == m.n, "data"); if (m.k == 'k') MC_REQUIRE(n.in == 16 * m.n, "block"); return n.in; }
#define CNT(io, e, what) MC_REQUIRE((io).counter == (e), "counter is %lu after %s, %lu payload bytes were sent", (unsigned long)(io).counter, what, (unsigned long)(e))
template <class MK> static void conv(const char *nm, int n, MK mk, bool sync) {
	struct Step { int from; Msg m; int extra; }; std::vector<Step> v; note("%s:", nm); for (int i = 0; i < n; ++i) { int c = pick((int)MS.size() * 2); int x = pick(sync ? 3 : 2); v.push_back({c & 1, MS[c / 2], x}); note(" %s%s%s", c & 1 ? "<-" : "->", show(MS[c / 2]).c_str(), x == 1 ? " flush" : x == 2 ? " sync" : ""); }
	fnet::Scope s; s.w.sched = 0; s.w.devio = s.w.devsched = false; uint64_t total[2] = {0, 0};
	for (int i = 0; i < 2; ++i) s.add([&, i]() { auto io = mk(i); uint64_t e = 0; CNT(*io, e, "construction"); for (auto &t : v) { if (t.from == i) { size_t k; { k = size_of(t.m); } snd(*io, t.m); e += k; CNT(*io, e, "a send"); } else { rcv(*io, t.m); CNT(*io, e, "a receive"); } if (t.extra == 1) { io->flush(); CNT(*io, e, "flush"); } if (t.extra == 2) { io->sync(); CNT(*io, e, "sync"); } } total[i] = e; delete io; });
	MC_REQUIRE(s.run(), "parties wait forever"); for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "party %d ended with status %d", i, s.status(i)); state(hbytes(me->note, me->nnote)); outcome(hmix(total[0], total[1]));
}
MC_MAIN("C07") {
	make_patterns(); bool T = thorough; bk = (block *)aligned_alloc(16, 16 * 64); memset((void *)bk, 3, 16 * 64); for (int i = 0; i < 4096; ++i) bl[i] = i % 3 == 0; at_child.push_back([]() { init(); });
	explore("MemIO", {2, 0}, [&]() { init(); MemIO io(1); uint64_t e = 0, st = 0; std::vector<Msg> q; size_t qi = 0; note("MemIO:"); CNT(io, e, "construction");
		for (int i = 0; i < (T ? 6 : 5); ++i) { int c = pick((int)MS.size() + 2); if (c < (int)MS.size()) { note(" %s", show(MS[c]).c_str()); snd(io, MS[c]); size_t k = size_of(MS[c]); e += k; st += k; q.push_back(MS[c]); CNT(io, e, "a send"); MC_REQUIRE((uint64_t)io.size == st, "stored %ld bytes, sent %lu", (long)io.size, st); } else if (c == (int)MS.size()) { if (qi >= q.size()) throw Skip(); note(" recv"); rcv(io, q[qi++]); CNT(io, e, "a receive"); } else { note(" clear"); io.clear(); q.clear(); qi = 0; st = 0; CNT(io, e, "clear"); } }
		state(hbytes(me->note, me->nnote)); outcome(e); });
	explore("FileIO", {2, 0}, [&]() { init(); std::string fn = "c07." + std::to_string(getpid()) + ".tmp"; uint64_t e = 0; std::vector<Msg> q; note("FileIO:"); { FileIO io(fn.c_str(), false); CNT(io, e, "construction"); for (int i = 0; i < 3; ++i) { q.push_back(choose(MS)); note(" %s", show(q.back()).c_str()); snd(io, q.back()); e += size_of(q.back()); CNT(io, e, "a send"); if (i == 1) { io.flush(); CNT(io, e, "flush"); } } io.reset(); CNT(io, e, "reset"); for (auto &m : q) { rcv(io, m); CNT(io, e, "a receive"); } }
		FILE *f = fopen(fn.c_str(), "rb"); fseek(f, 0, SEEK_END); long n = ftell(f); fclose(f); MC_REQUIRE((uint64_t)n == e, "the file holds %ld bytes, %lu were counted", n, e); { FileIO io(fn.c_str(), true); for (auto &m : q) rcv(io, m); CNT(io, (uint64_t)0, "only receiving"); } unlink(fn.c_str()); state(hbytes(me->note, me->nnote)); outcome(e); });
	explore("NetIO", {2, 0}, [&]() { init(); conv("NetIO", 3, [](int i) { return new NetIO(i ? "127.0.0.1" : nullptr, 4321, true); }, true); });
	explore("HighSpeedNetIO", {2, 0}, [&]() { init(); conv("HighSpeedNetIO", 3, [](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 4321, 4322, true); }, false); });
	explore("sizes", {1, 0}, [&]() { init(); size_t n = pick(T ? 3000 : 600); note("counter over size %zu", n); NullIO a; a.send_data(pat[0], n); CNT(a, (uint64_t)n, "send_data"); uint64_t e = n; Msg m{'b', n}; snd(a, m); MC_REQUIRE(a.counter == a.in, "counter %lu, handed over %lu", a.counter, a.in); if (n < 64) { e = a.counter; a.send_block(bk, n); CNT(a, e + 16 * n, "send_block"); } points(1); });
	// a custom channel: counts beyond 32 bits without moving data
	explore("large totals", {1, 0}, [&]() { std::vector<uint64_t> z = {1ull << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 1ull << 33}; NullIO a; uint64_t e = 0; note("sends of"); for (int i = 0; i < 3; ++i) { uint64_t n = choose(z); note(" %lu", n); if (n % 16 == 0 && i == 1) a.send_block(bk, n / 16); else a.send_data(pat[0], n); e += n; CNT(a, e, "a large send"); MC_REQUIRE(a.in == e, "handed over %lu of %lu bytes", a.in, e); } points(1); outcome(e); });
}
