// C04: end of stream, reset and short files at every position.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
using namespace emp; using namespace mc;
// kind 0: the connection ends after k bytes of direction `dir`; 1: reset instead; 2: writes of that direction fail after k bytes
struct Fault { int dir; long k; int kind; };
template <class MK, class RUN> static void faulty(const char *what, Fault f, int sched, int rmode, size_t need[2], MK mk, RUN prog) {
	fnet::Scope s; s.w.sched = sched; s.w.rmode = rmode; s.w.devio = s.w.devsched = false; bool up[2] = {false, false};
	bool fin[2] = {false, false}; size_t got[2] = {0, 0};
	for (int i = 0; i < 2; ++i) s.add([&, i]() {
		auto io = mk(i);
		up[i] = true; fnet::block_until([&]() { return up[0] && up[1]; });
		for (auto &c : s.w.conns) for (int side = 0; side < 2; ++side) { int dir = side == 0 ? 1 : 0; if (dir != f.dir) continue; if (f.kind < 2) { c->p[side].cut = f.k; c->p[side].rst = f.kind == 1; } else c->p[side].wcut = f.k; }
		prog(*io, i, got[i]); fin[i] = true; delete io;
	});
	bool ok = s.run();
	MC_REQUIRE(ok, "%s: a party waits forever after its peer was lost", what);
	for (int i = 0; i < 2; ++i) {
		MC_REQUIRE(s.status(i) != 0, "%s: party %d ended the process reporting success after its peer was lost", what, i);
		if (f.dir == 1 - i && f.kind < 2 && need[i] > (size_t)f.k) MC_REQUIRE(!fin[i], "%s: party %d finished although only %ld of the %zu bytes it received ever arrived", what, i, f.k, need[i]);
		if (fin[i]) MC_REQUIRE(got[i] == need[i], "%s: party %d returned from its receives with %zu of %zu bytes", what, i, got[i], need[i]);
	}
	state(hmix(hbytes(me->note, me->nnote), s.w.calls)); outcome(hmix(hmix(s.status(0) + 5, s.status(1) + 5), hmix(got[0], got[1])));
}
static const char *KN[] = {"ends", "is reset", "refuses writes"};
static void net(const Prog &a, const Prog &b, Fault f, int sched, int rmode) {
	note("NetIO server[ %s] client[ %s] direction %s %s after %ld bytes, order %d", show(a).c_str(), show(b).c_str(), f.dir ? "client->server" : "server->client", KN[f.kind], f.k, sched);
	const Prog *p[2] = {&a, &b}; size_t need[2] = {0, 0}; for (int i = 0; i < 2; ++i) for (auto &o : *p[i]) if (o.k == 'R') need[i] += o.n;
	faulty("NetIO", f, sched, rmode, need, [](int i) { return new NetIO(i ? "127.0.0.1" : nullptr, 4321, true); },
		[&](NetIO &io, int i, size_t &got) { size_t snt = 0; for (auto &o : *p[i]) { if (o.k == 'S') do_send(io, i, o.n, snt); else if (o.k == 'R') check_recv(io, i, o.n, got); else io.flush(); } });
}
static void hs(const std::vector<std::pair<int, size_t>> &cv, bool fl, Fault f, int sched, int rmode) {
	note("HighSpeedNetIO"); for (auto &t : cv) note(" %s%zu", t.first ? "<-" : "->", t.second); note("%s, direction %d %s after %ld raw bytes, order %d", fl ? " flushing" : "", f.dir, KN[f.kind], f.k, sched);
	size_t need[2] = {0, 0}; for (auto &t : cv) need[1 - t.first] += t.second;
	faulty("HighSpeedNetIO", f, sched, rmode, need, [](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 4321, 4322, true); },
		[&](HighSpeedNetIO &io, int i, size_t &got) { size_t snt = 0; for (auto &t : cv) { if (t.first == i) do_send(io, i, t.second, snt); else check_recv(io, i, t.second, got); if (fl) io.flush(); } });
}
static std::string scratch() { return "c04." + std::to_string(getpid()) + ".tmp"; }
static void put_file(const char *fn, size_t n) { FILE *f = fopen(fn, "wb"); fwrite(pat[0], 1, n, f); fclose(f); }
MC_MAIN("C04") {
	make_patterns(); bool T = thorough; size_t N = NETWORK_BUFFER_SIZE, B = NETWORK_BUFFER_SIZE2, FB = FILE_BUFFER_SIZE;
	std::vector<Op> al = {{'S', 1}, {'S', 3}, {'R', 1}, {'R', 3}, {'F', 0}};
	explore("NetIO programs", {4, 0, 30}, [&]() {
		Prog a = gen(3, al), b = gen(T ? 3 : 2, al); if (a.size() + b.size() < 2 || !ideal(a, b)) throw Skip();
		size_t tot[2] = {0, 0}; for (auto &o : a) if (o.k == 'S') tot[0] += o.n; for (auto &o : b) if (o.k == 'S') tot[1] += o.n;
		int d = pick(2); long k = pick((int)tot[d] + 1); int kind = pick(3); net(a, b, {d, k, kind}, pick(3), 0);
	});
	explore("NetIO sizes", {3, 0, 30}, [&]() {
		size_t x = choose(std::vector<size_t>{1, N - 1, N, N + 1, 2 * N + 5}), y = choose(std::vector<size_t>{1, 4096, N}); size_t t = x + y;
		long k = (long)choose(std::vector<size_t>{0, 1, x - 1, x, x + 1, std::min(t - 1, N), std::min(t - 1, N - 1), std::min(t - 1, N + 1), t - 1}); int kind = pick(3); bool rev = pick(2), back = pick(2);
		Prog a = {{'S', x}, {'S', y}}, b = {{'R', x}, {'R', y}}; if (back) { a.push_back({'R', 2}); b.push_back({'S', 2}); }
		if (rev) std::swap(a, b); net(a, b, {rev ? 1 : 0, k, kind}, pick(3), pick(2) ? 65535 : 0);
	});
	explore("HighSpeedNetIO", {4, 0, 30}, [&]() {
		std::vector<size_t> z = {1, B - 1, B, B + 1, 3 * B}; std::vector<std::pair<int, size_t>> cv; int nt = 1 + pick(2); for (int i = 0; i < nt; ++i) { int d = pick(2); cv.push_back({d, choose(z)}); }
		bool fl = pick(2); int d = pick(2); std::vector<size_t> ks = {0, 1, 2, B / 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B - 1}; hs(cv, fl, {d, (long)choose(ks), pick(3)}, pick(3), 0);
	});
	explore("HighSpeedNetIO every position", {1, 0, 30}, [&]() { // one packet, every byte
		long k = T ? pick((int)B + 1) : (long)choose(std::vector<size_t>([&]() { std::vector<size_t> v; for (size_t i = 0; i <= B; i += i < 64 || i > B - 64 ? 1 : 251) v.push_back(i); return v; }())); hs({{pick(2), (size_t)(k % 5 == 0 ? B : 17)}, {0, 3}}, false, {pick(2), k, pick(3)}, 0, 0); });
	explore("HighSpeedNetIO stream buffer", {3, 0, 30}, [&]() { std::vector<size_t> z = {N - 1, N + 1, 2 * N + 3}; int from = pick(2); hs({{from, choose(z)}, {from, choose(z)}}, pick(2), {pick(2), (long)choose(std::vector<size_t>{0, 1, B, N - 1, N, N + B}), pick(3)}, pick(3), 0); });
	// files
	explore("FileIO", {2, 0, 20}, [&]() {
		size_t have = choose(std::vector<size_t>{0, 1, 2, 5, 100, FB - 1, FB, FB + 1, 2 * FB, 3 * FB + 7}); int n = 1 + pick(3); std::vector<size_t> r; size_t tot = 0; for (int i = 0; i < n; ++i) { r.push_back(choose(std::vector<size_t>{0, 1, 4, FB - 1, FB, FB + 1, 2 * FB + 3})); tot += r.back(); }
		std::string fn = scratch(); put_file(fn.c_str(), have); note("FileIO on a file of %zu bytes, receives", have); for (auto x : r) note(" %zu", x);
		static FileIO *io; static size_t got; got = 0; io = nullptr; static std::vector<unsigned char> buf; buf.assign(4 * FB, 0);
		int st = guarded([&]() { io = new FileIO(fn.c_str(), true); for (auto x : r) { io->recv_data(buf.data(), x); step(); MC_REQUIRE(got + x <= have, "receive of %zu bytes at position %zu returned although the file has only %zu", x, got, have); MC_REQUIRE(!memcmp(buf.data(), pat[0] + got, x), "receive of %zu bytes at position %zu returned wrong data", x, got); got += x; } });
		MC_REQUIRE((st == -1) == (tot <= have) && st != 0, "requested %zu of %zu bytes: ended with status %d", tot, have, st);
		if (io) delete io; unlink(fn.c_str()); state(hbytes(me->note, me->nnote)); outcome(hmix(st + 5, got));
	});
	explore("FileIO every length", {1, 0, 20}, [&]() {
		size_t have = pick(T ? 3 * (int)FB : 600), want = T ? have + 1 + pick(2) * 500 : 1 + pick(600); if (!T && want % 7 && want < have) return; std::string fn = scratch(); put_file(fn.c_str(), have); note("FileIO: file of %zu bytes, receive %zu", have, want);
		static FileIO *io; io = nullptr; static std::vector<unsigned char> buf; buf.assign(want + 16, 0xA5); int st = guarded([&]() { io = new FileIO(fn.c_str(), true); io->recv_data(buf.data(), want); step(); });
		MC_REQUIRE((st == -1) == (want <= have) && st != 0, "ended with status %d", st); if (st == -1) MC_REQUIRE(!memcmp(buf.data(), pat[0], want), "wrong data"); delete io; unlink(fn.c_str()); points(1); outcome(st + 5);
	});
	explore("FileIO cannot be written", {1, 0, 20}, [&]() { // a device that is always full
		size_t a = choose(std::vector<size_t>{1, FB - 1, FB, FB + 1, 3 * FB}); size_t b = choose(std::vector<size_t>{1, FB, 2 * FB}); note("FileIO on a full device: send %zu, %zu, 100 times %zu", a, b, FB);
		static FileIO *io; io = nullptr; int st = guarded([&]() { io = new FileIO("/dev/full", false); io->send_data(pat[0], a); io->send_data(pat[0], b); for (int i = 0; i < 100; ++i) io->send_data(pat[0], FB); });
		MC_REQUIRE(st != 0, "sending %zu bytes to a full device ended the process reporting success", a + b + 100 * FB); delete io; points(1); outcome(st + 5); /* must end: no endless retry */
	});
	// memory channel
	explore("MemIO", {2, 0, 20}, [&]() {
		std::vector<size_t> z = {0, 1, 2, 3, 7}; size_t cap = choose(std::vector<size_t>{0, 1, 4, 64}); static MemIO *io; io = new MemIO(cap); size_t sz = 0, rd = 0; note("MemIO(%zu)", cap);
		for (int i = 0; i < (T ? 5 : 4); ++i) {
			int c = pick(2 * (int)z.size() + 1);
			if (c == 2 * (int)z.size()) { io->clear(); sz = rd = 0; note(" clear"); continue; }
			size_t n = z[c / 2];
			if (c & 1) { io->send_data(pat[0] + sz, n); sz += n; note(" send %zu", n); }
			else {
				static unsigned char buf[64]; memset(buf, 0xA5, 64); note(" recv %zu", n); fflush(stderr); off_t o0 = lseek(2, 0, SEEK_CUR); int st = guarded([&]() { io->recv_data(buf, n); }); fflush(stderr); off_t o1 = lseek(2, 0, SEEK_CUR);
				if (rd + n <= sz) { MC_REQUIRE(st == -1, "receive of available data ended with status %d", st); MC_REQUIRE(!memcmp(buf, pat[0] + rd, n), "receive of %zu at %zu returned wrong data", n, rd); rd += n; MC_REQUIRE(o1 == o0, "error reported for a receive that could be satisfied"); }
				else { MC_REQUIRE(st != 0, "ended with success"); if (st == -1) MC_REQUIRE(o1 > o0 || replaying, "receive of %zu with %zu bytes left reported nothing", n, sz - rd); for (int q = 0; q < 64; ++q) MC_REQUIRE(buf[q] == 0xA5, "receive of %zu with %zu bytes left wrote to the destination", n, sz - rd); }
			}
			step(); state(hmix(hmix(cap, sz), rd));
		}
		delete io; outcome(hmix(sz, rd));
	});
}
