// C38: channels release exactly what they acquired.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
using namespace emp; using namespace mc;
static int open_fds() { int n = 0; for (int i = 3; i < 256; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
static size_t live_allocs() { return fnet::live ? fnet::live->size() : 0; }
static void clean(fnet::World &w, int party, const char *when) {
	MC_REQUIRE(w.badclose == 0, "%s: a descriptor was closed that was not open (closed twice)", when);
	int n = 0; for (auto &p : w.fds) if (p.second->owner == party) ++n; MC_REQUIRE(n == 0, "%s: party %d leaves %d descriptors open", when, party, n);
}
template <class MK, class RUN> static void lifecycle(const char *what, int rounds, int sched, int refusals, int peer_extra, MK mk, RUN run) {
	fnet::Scope s; s.w.sched = sched; s.w.devio = false; s.w.fail_connects = refusals; size_t extra = 0; int done[2] = {0, 0};
	for (int i = 0; i < 2; ++i) s.add([&, i]() { for (int r = 0; r < rounds; ++r) { auto io = mk(i, r); run(*io, i, r); delete io; done[i]++; clean(s.w, i, what); fnet::block_until([&]() { return done[1 - i] > r; }); } });
	bool ok = s.run(); MC_REQUIRE(ok, "%s: the parties wait forever", what); for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "%s: party %d ended with status %d", what, i, s.status(i)); (void)extra;
	MC_REQUIRE(s.w.fds.empty(), "%s: %zu descriptors still open after both channels were destroyed", what, s.w.fds.size()); MC_REQUIRE(s.w.files.empty(), "%s: %zu streams still open", what, s.w.files.size());
	size_t l = live_allocs(); if (l) { size_t b = 0; for (auto &p : *fnet::live) b = std::max(b, p.second); mc::fail("%s: %zu allocations (largest %zu bytes) not released after both channels were destroyed", what, l, b); }
	MC_REQUIRE(s.w.badclose == 0, "%s: a descriptor was closed twice", what); MC_REQUIRE(s.w.listeners.empty(), "%s: still listening", what); state(hmix(hmix(s.w.opened, s.w.calls), hbytes(me->note, me->nnote))); outcome(s.w.opened);
}
MC_MAIN("C38") {
	make_patterns(); bool T = thorough;
#ifdef LIGHT
	const int DV = 0;
#else
	const int DV = T ? 2 : 1;
#endif
	std::vector<size_t> z = {0, 1, 5, 40000, 1100000};
	explore("NetIO", {3, DV}, [&]() {
		int rounds = 1 + pick(3), sc = pick(3), ref = pick(4); size_t n = choose(z); int how = pick(4); note("NetIO: %d connections, order %d, %d refused attempts, %zu bytes, use %d", rounds, sc, ref, n, how);
		lifecycle("NetIO", rounds, sc, ref, 0, [](int i, int r) { return new NetIO(i ? "127.0.0.1" : nullptr, 4321 + r, true); }, [&](NetIO &io, int i, int) { size_t s = 0, g = 0; if (how == 0) { } else if (how == 1) { if (i == 0) do_send(io, 0, n, s); else check_recv(io, 1, n, g); } else if (how == 2) { if (i) { do_send(io, 1, n, s); io.flush(); check_recv(io, 1, 2, g); } else { check_recv(io, 0, n, g); do_send(io, 0, 2, s); } } else { if (i == 0) { do_send(io, 0, n, s); io.flush(); } io.set_delay(); io.set_nodelay(); } });
	});
	explore("HighSpeedNetIO", {3, DV}, [&]() {
		int rounds = 1 + pick(3), sc = pick(3), ref = pick(4); size_t n = choose(z); int how = pick(3); note("HighSpeedNetIO: %d connections, order %d, %d refused attempts, %zu bytes, use %d", rounds, sc, ref, n, how);
		lifecycle("HighSpeedNetIO", rounds, sc, ref, 0, [](int i, int r) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 4321 + 2 * r, 4322 + 2 * r, true); }, [&](HighSpeedNetIO &io, int i, int) { size_t s = 0, g = 0; if (how == 1) { if (i == 0) do_send(io, 0, n, s); else check_recv(io, 1, n, g); } else if (how == 2) { if (i) { do_send(io, 1, n, s); check_recv(io, 1, 2, g); } else { check_recv(io, 0, n, g); do_send(io, 0, 2, s); } io.flush(); } });
	});
	// other descriptors of the process survive: a second channel opened while the first closes
	explore("neighbours", {3, DV}, [&]() {
		int order = pick(6), sc = pick(3); bool hs1 = pick(2), hs2 = pick(2); note("two channels of one process (%s, %s), destroyed in order %d, run order %d", hs1 ? "high speed" : "plain", hs2 ? "high speed" : "plain", order, sc);
		fnet::Scope s; s.w.sched = sc; s.w.devio = false;
		for (int i = 0; i < 2; ++i) s.add([&, i]() {
			const char *ad = i ? "127.0.0.1" : nullptr; struct Ch { NetIO *n = nullptr; HighSpeedNetIO *h = nullptr; void talk(int i) { size_t s = 0, g = 0; if (n) { if (i) { do_send(*n, 1, 9, s); n->flush(); } else check_recv(*n, 0, 9, g); } else if (i) { do_send(*h, 1, 9, s); h->flush(); } else { check_recv(*h, 0, 9, g); h->flush(); } } void del() { delete n; delete h; n = nullptr; h = nullptr; } };
			Ch a, b, c; if (hs1) a.h = new HighSpeedNetIO(ad, 1, 2, true); else a.n = new NetIO(ad, 1, true); if (hs2) b.h = new HighSpeedNetIO(ad, 3, 4, true); else b.n = new NetIO(ad, 3, true);
			a.talk(i); b.talk(i); Ch *x[2] = {&a, &b}; if (order & 1) std::swap(x[0], x[1]); x[0]->del(); if (order >= 2) { if (hs1) c.h = new HighSpeedNetIO(ad, 5, 6, true); else c.n = new NetIO(ad, 5, true); } x[1]->talk(i); if (order >= 4) { x[1]->del(); c.talk(i); c.del(); } else { if (order >= 2) { c.talk(i); c.del(); } x[1]->del(); } clean(s.w, i, "end");
		});
		MC_REQUIRE(s.run(), "the parties wait forever"); for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "party %d ended with status %d", i, s.status(i)); MC_REQUIRE(s.w.badclose == 0 && s.w.fds.empty() && s.w.files.empty(), "descriptors: %d closed twice, %zu open; streams open %zu", s.w.badclose, s.w.fds.size(), s.w.files.size()); MC_REQUIRE(live_allocs() == 0, "%zu allocations not released", live_allocs()); state(hmix(s.w.calls, hbytes(me->note, me->nnote))); outcome(s.w.opened);
	});
	// memory and file channels (real files; allocations and descriptors counted)
	explore("MemIO and FileIO", {2, 0}, [&]() {
		int n = 1 + pick(3), a = pick(5), b = pick(5); note("%d rounds, sizes %zu %zu", n, z[a], z[b]); int f0 = open_fds(); std::string fn = "c38." + std::to_string(getpid()) + ".tmp"; { fnet::Scope s; s.add([&]() { for (int r = 0; r < n; ++r) { MemIO *m = new MemIO(1 + (int)z[b] / 2); m->send_data(pat[0], z[a]); m->send_data(pat[0], z[b]); FileIO *f = new FileIO(fn.c_str(), false); f->send_data(pat[0], z[a]); f->flush(); delete f; f = new FileIO(fn.c_str(), true); m->load_from_file(f, (int64_t)z[a]); m->clear(); m->send_data(pat[1], z[b]); delete m; delete f; } }); s.run(); MC_REQUIRE(s.status(0) == -1, "ended with status %d", s.status(0)); MC_REQUIRE(live_allocs() == 0, "%zu allocations not released", live_allocs()); MC_REQUIRE(s.w.badclose == 0, "a descriptor was closed twice"); } unlink(fn.c_str()); MC_REQUIRE(open_fds() == f0, "%d descriptors open before, %d after", f0, open_fds()); points(1); step(8 * n); outcome(n);
	});
}
