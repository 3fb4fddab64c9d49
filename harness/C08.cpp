// C08: connection establishment under every interleaving of the two constructors.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
using namespace emp; using namespace mc;
template <class IO> static void talk(IO &io, int i) { // both ends of the same connection, each direction wired to the other
	unsigned char b[3]; size_t s = 0, g = 0; (void)b;
	if (i == 0) { do_send(io, 0, 3, s); io.flush(); check_recv(io, 0, 2, g); } else { check_recv(io, 1, 3, g); do_send(io, 1, 2, s); io.flush(); }
}
static uint32_t host = htonl(INADDR_LOOPBACK);
// full: every interleaving of the constructors (retries bounded by max_refused); otherwise `devs` deviations from a run order
template <class MK> static void up(const char *what, bool full, int sched, int refused, int failfirst, MK mk) {
	note("%s: order %d, first %d attempts refused", what, sched, failfirst);
	fnet::Scope s; s.w.sched = sched; s.w.full = full; s.w.max_refused = refused; s.w.fail_connects = failfirst; s.w.devio = false; s.w.devsched = !full; s.w.host = host; bool ok2[2] = {false, false}, up[2] = {false, false};
	for (int i = 0; i < 2; ++i) s.add([&, i]() { auto io = mk(i); up[i] = true; if (up[0] && up[1]) { s.w.full = false; s.w.devsched = false; } talk(*io, i); ok2[i] = true; delete io; });
	bool ok = s.run();
	MC_REQUIRE(ok, "%s: the parties wait forever (server %s, client %s)", what, up[0] ? "connected" : "not connected", up[1] ? "connected" : "not connected");
	for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1 && ok2[i], "%s: party %d ended with status %d", what, i, s.status(i));
	uint64_t h = 7; for (auto &c : s.w.conns) h = hmix(hmix(h, c->port), hmix(c->p[0].d.size(), c->p[1].d.size())); state(hmix(hmix(h, s.w.refused), hmix(s.w.calls, hbytes(me->ch, 2 * me->nch)))); outcome(hmix(h, s.w.refused));
}
template <class MK> static bool rejected(MK mk, std::string &how) { fnet::Scope s; s.w.devio = s.w.devsched = false; s.w.max_refused = 0; bool made = false; s.add([&]() { auto io = mk(); made = true; delete io; }); bool ended = s.run(); how = made ? "constructed" : !ended ? "waits for a peer" : "ended"; return ended && !made && s.status(0) != 0 && s.w.calls == 0; }
MC_MAIN("C08") {
	make_patterns(); bool T = thorough;
	auto net = [](int i) { return new NetIO(i ? "127.0.0.1" : nullptr, 12345, true); };
	auto hs = [](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 12345, 23456, true); };
	explore("NetIO interleavings", {9, 0}, [&]() { up("NetIO", true, 0, T ? 5 : 3, 0, net); });
	explore("NetIO refusals", {1, 2}, [&]() { int sc = pick(3); up("NetIO", false, sc, 1 << 20, pick(T ? 400 : 100), net); });
	explore("HighSpeedNetIO interleavings", {9, 0}, [&]() { up("HighSpeedNetIO", true, 0, T ? 3 : 1, 0, hs); });
	explore("HighSpeedNetIO deviations", {3, T ? 5 : 3}, [&]() { up("HighSpeedNetIO", false, pick(3), 1 << 20, pick(3), hs); });
	explore("HighSpeedNetIO refusals", {1, 1}, [&]() { int sc = pick(3); up("HighSpeedNetIO", false, sc, 1 << 20, pick(T ? 200 : 60), hs); });
	// a server that starts very late
	explore("long waits", {2, 0}, [&]() { int k = pick(2); std::vector<int> ns = {127, 128, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 3000, 4096, 5000, 10000, 20000, 32768, 60000, 65536, 70000}; if (T) for (int x : {100000, 131073, 300000, 1000000}) ns.push_back(x); int n = choose(ns); if (k) up("HighSpeedNetIO", false, 0, 1 << 30, n, hs); else up("NetIO", false, 0, 1 << 30, n, net); });
	// the server's machine is reached under whatever address it has
	explore("addresses", {2, 0}, [&]() { const char *ad = choose(std::vector<const char *>{"127.0.0.1", "127.0.0.2", "10.0.0.7", "10.255.255.1", "172.16.31.200", "192.168.1.255", "203.0.113.9", "1.2.3.4", "223.1.0.128", "8.8.8.8"}); int k = pick(2), sc = pick(3); host = inet_addr(ad); note("server at %s", ad);
		if (k) up("HighSpeedNetIO", false, sc, 1 << 20, 0, [&](int i) { return new HighSpeedNetIO(i ? ad : nullptr, 5000, 5001, true); }); else up("NetIO", false, sc, 1 << 20, 0, [&](int i) { return new NetIO(i ? ad : nullptr, 5000, true); }); host = htonl(INADDR_LOOPBACK); });
	explore("HighSpeedNetIO same and swapped ports", {1, 0}, [&]() { int a = pick(2) ? 1 : 65535, b = pick(2) ? 65534 : 2; up("HighSpeedNetIO", false, pick(3), 1 << 20, 0, [&](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, a, b, true); }); });
	// several channels between the same two processes
	explore("several channels", {4, T ? 3 : 2}, [&]() {
		note("three NetIO channels on different ports"); fnet::Scope s; s.w.sched = pick(3); s.w.devio = false; bool fin[2] = {false, false};
		for (int i = 0; i < 2; ++i) s.add([&, i]() { NetIO *a = new NetIO(i ? "127.0.0.1" : nullptr, 7000, true), *b = new NetIO(i ? "127.0.0.1" : nullptr, 7001, true); HighSpeedNetIO *c = new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 7002, 7003, true); talk(*b, i); talk(*c, i); talk(*a, i); delete a; NetIO *d = new NetIO(i ? "127.0.0.1" : nullptr, 7000, true); talk(*d, i); delete b; delete c; c = new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 7003, 7002, true); talk(*c, i); delete c; delete d; fin[i] = true; });
		MC_REQUIRE(s.run(), "the parties wait forever"); for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1 && fin[i], "party %d ended with status %d", i, s.status(i)); state(hmix(s.w.calls, hbytes(me->ch, 2 * me->nch))); outcome(s.w.refused);
	});
	// every port number reaches the network unchanged on both sides
	explore("ports", {1, 0}, [&]() {
		int p = pick(256) * 256 + 0; note("ports %d..%d", p, p + 255);
		for (int q = p; q < p + 256; ++q) {
			for (int side = 0; side < 2; ++side) { fnet::Scope s; s.w.devio = s.w.devsched = false; s.w.max_refused = 0; s.w.fail_bind = 1; if (side) { s.w.max_refused = 1; } s.add([&]() { NetIO io(side ? "127.0.0.1" : nullptr, q, true); }); s.run();
				if (side == 0) { MC_REQUIRE(s.w.bind_log.size() == 1 && s.w.bind_log[0].first == q && s.w.bind_log[0].second == htonl(INADDR_ANY), "server for port %d binds port %d", q, s.w.bind_log.empty() ? -1 : s.w.bind_log[0].first); MC_REQUIRE(s.status(0) > 0, "a port that cannot be bound is not reported (status %d)", s.status(0)); }
				else { MC_REQUIRE(!s.w.connect_log.empty() && s.w.connect_log[0].first == q && s.w.connect_log[0].second == htonl(INADDR_LOOPBACK), "client for port %d connects to port %d", q, s.w.connect_log.empty() ? -1 : s.w.connect_log[0].first); } points(1); }
			if (q % (T ? 1 : 16) == 0 || q == 65535) { int r = 65535 - q; for (int side = 0; side < 2; ++side) { fnet::Scope s; s.w.devio = s.w.devsched = false; s.w.max_refused = 1; s.w.fail_bind = 1; s.add([&]() { HighSpeedNetIO io(side ? "127.0.0.1" : nullptr, q, r, true); }); s.run(); if (side == 0) MC_REQUIRE(s.w.bind_log.size() == 1 && s.w.bind_log[0].first == q && s.status(0) > 0, "high-speed server for port %d", q); else MC_REQUIRE(!s.w.connect_log.empty() && s.w.connect_log[0].first == q, "high-speed client for port %d", q); points(1); } }
		}
	});
	explore("ports end to end", {1, 0}, [&]() { int p = choose(std::vector<int>{0, 1, 255, 256, 32767, 32768, 65280, 65534, 65535}); int k = pick(2); if (k) up("HighSpeedNetIO", false, pick(3), 1 << 20, 0, [&](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, p, 40000, true); }); else up("NetIO", false, pick(3), 1 << 20, 0, [&](int i) { return new NetIO(i ? "127.0.0.1" : nullptr, p, true); }); });
	explore("invalid ports", {1, 0}, [&]() {
		static std::vector<int> bad; if (bad.empty()) { for (int i = 1; i <= 300; ++i) { bad.push_back(-i); bad.push_back(65535 + i); } for (int k = 1; k < 32; ++k) { bad.push_back(-(int)(1u << (k - 1))); if ((1ll << k) > 65535 && k < 31) { bad.push_back(1 << k); bad.push_back((1 << k) + 80); } } bad.push_back(INT32_MAX); bad.push_back(INT32_MIN); bad.push_back(65536 + 12345); bad.push_back(-65536 + 12345); }
		int p = choose(bad); int side = pick(2); const char *ad = side ? "127.0.0.1" : nullptr; int kind = pick(4); std::string how; bool r; note("invalid port %d, %s, channel kind %d", p, side ? "client" : "server", kind);
		if (kind == 0) r = rejected([&]() { return new NetIO(ad, p, true); }, how); else if (kind == 1) r = rejected([&]() { return new HighSpeedNetIO(ad, p, 5000, true); }, how); else if (kind == 2) r = rejected([&]() { return new HighSpeedNetIO(ad, 5000, p, true); }, how); else r = rejected([&]() { return new HighSpeedNetIO(ad, p, p, true); }, how);
		MC_REQUIRE(r, "not refused before using the network: %s", how.c_str()); points(1); outcome(kind);
	});
	explore("listen fails", {1, 0}, [&]() { int k = pick(2), which = 1 + pick(2), what = pick(2); if (!k && which == 2) throw Skip(); note("%s: %s number %d fails", k ? "HighSpeedNetIO" : "NetIO", what ? "listen" : "bind", which); fnet::Scope s; s.w.devio = s.w.devsched = false; s.w.max_refused = 3; (what ? s.w.fail_listen : s.w.fail_bind) = which; bool made = false; s.add([&]() { if (k) { HighSpeedNetIO io(nullptr, 5, 6, true); made = true; } else { NetIO io(nullptr, 5, true); made = true; } }); s.add([&]() { if (k) { HighSpeedNetIO io("127.0.0.1", 5, 6, true); } }); s.run(); MC_REQUIRE(!made && s.status(0) > 0, "not reported: status %d", s.status(0)); points(1); });
}
