// C02: progress of NetIO conversations: nothing sent is held back when a party waits, flushes, syncs or closes.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
using namespace emp; using namespace mc;
static void run2(const Prog &a, const Prog &b, int sched, int rmode, bool dev, bool leave_open = false) {
	note("server[ %s] client[ %s] order %d reads<=%d%s", show(a).c_str(), show(b).c_str(), sched, rmode, leave_open ? " channels stay open" : "");
	fnet::Scope s; s.w.sched = sched; s.w.rmode = rmode; s.w.devio = s.w.devsched = false;
	bool up[2] = {false, false}; const Prog *p[2] = {&a, &b}; size_t got[2] = {0, 0}, sent[2] = {0, 0}; int entered[2] = {0, 0}, left[2] = {0, 0}; size_t done = 0; bool intr[2] = {false, false};
	auto onwire = [&](int i) { return s.w.conns.empty() ? (size_t)0 : s.w.conns[0]->p[i ? 0 : 1].d.size(); };   // side 0 of a connection is the client
	s.w.on_block = [&](int i) { if (up[i] && intr[i]) MC_REQUIRE(onwire(i) >= sent[i], "party %d waits for input while %zu of the %zu bytes it sent are held back", i, sent[i] - onwire(i), sent[i]); };
	for (int i = 0; i < 2; ++i) s.add([&, i]() {
		{
			NetIO io(i ? "127.0.0.1" : nullptr, 4321, true);
			up[i] = true; fnet::block_until([&]() { return up[0] && up[1]; }); s.w.devio = s.w.devsched = dev;
			for (auto &o : *p[i]) {
				if (o.k == 'S') do_send(io, i, o.n, sent[i]);
				else if (o.k == 'R') { intr[i] = true; check_recv(io, i, o.n, got[i]); intr[i] = false; }
				else if (o.k == 'F') { io.flush(); MC_REQUIRE(onwire(i) >= sent[i], "party %d: after flush only %zu of %zu sent bytes are visible to the peer", i, onwire(i), sent[i]); }
				else {
					entered[i]++; intr[i] = true; io.sync(); intr[i] = false; left[i]++;
					MC_REQUIRE(entered[1 - i] >= left[i], "party %d left sync %d before the other party entered it", i, left[i]);
					MC_REQUIRE(onwire(i) >= sent[i], "party %d: after sync only %zu of %zu sent bytes are visible to the peer", i, onwire(i), sent[i]);
				}
			}
			if (leave_open) { done++; fnet::block_until([&]() { return done == 2; }); }
		}
		MC_REQUIRE(onwire(i) >= sent[i], "party %d: after destroying the channel only %zu of %zu sent bytes reached the peer", i, onwire(i), sent[i]);
	});
	bool ok = s.run();
	MC_REQUIRE(ok, "parties wait for each other forever although the program completes over an ideal pipe (received %zu and %zu bytes, syncs left %d and %d)", got[0], got[1], left[0], left[1]);
	for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "party %d ended with status %d", i, s.status(i));
	uint64_t h = 1; for (auto &c : s.w.conns) for (int d = 0; d < 2; ++d) { h = hmix(h, hbytes(c->p[d].d.data(), c->p[d].d.size())); h = hmix(h, c->p[d].rd); }
	state(hmix(hmix(h, s.w.calls), hbytes(me->note, me->nnote))); outcome(h);
}
// would the program complete if data only moved at flush, receive and sync (channels kept open)?
static Prog with_flush_end(Prog p) { bool held = false; for (auto &o : p) { if (o.k == 'S') held |= o.n > 0; else held = held && o.k == 'R' && o.n == 0; } if (held) p.push_back({'F', 0}); return p; }
MC_MAIN("C02") {
	make_patterns(); bool T = thorough;
	std::vector<Op> al = {{'S', 1}, {'R', 1}, {'R', 2}, {'F', 0}, {'Y', 0}};
	explore("programs", {4, 0}, [&]() { Prog a = gen(T ? 5 : 4, al), b = gen(T ? 5 : 4, al); if (a.size() + b.size() < 1 || !ideal(a, b)) throw Skip(); int m = pick(6); run2(a, b, m % 3, m / 3, false); });
	explore("programs, channels kept open", {4, 0}, [&]() { Prog a = gen(3, al), b = gen(3, al); if (a.size() + b.size() < 1 || !ideal(a, b)) throw Skip(); run2(with_flush_end(a), with_flush_end(b), pick(3), 0, false, true); });
	// receives and sends of zero bytes mixed in: they neither wait nor lose track of what is still buffered
	std::vector<Op> al0 = {{'S', 0}, {'R', 0}, {'S', 1}, {'R', 1}};
	explore("zero-length operations", {4, 0}, [&]() { Prog a = gen(T ? 5 : 4, al0), b = gen(T ? 5 : 4, al0); if (a.size() + b.size() < 1 || !ideal(a, b)) throw Skip(); run2(with_flush_end(a), with_flush_end(b), pick(3), 0, false, true); });
	explore("deviations", {4, T ? 4 : 3}, [&]() { Prog a = gen(3, al), b = gen(3, al); if (a.size() + b.size() < 2 || !ideal(a, b)) throw Skip(); run2(a, b, pick(2), 0, true); });
	std::vector<Op> pp = {{'S', 2}, {'R', 2}, {'Y', 0}};
	// turn-taking conversations: the peer mirrors, never an explicit flush
	explore("mirrored", {3, 0}, [&]() { Prog a, b; int n = 1 + pick(T ? 9 : 7); for (int i = 0; i < n; ++i) a.push_back(pp[pick(3)]); for (auto &o : a) b.push_back({o.k == 'Y' ? 'Y' : o.k == 'S' ? 'R' : 'S', o.n}); int m = pick(6); run2(a, b, m % 3, m / 3, false, false); });
	explore("thousands of turns", {3, 0, 120}, [&]() { Prog u, a, b; int n = 1 + pick(3); for (int i = 0; i < n; ++i) u.push_back(pp[pick(3)]); for (int k = 0; k < (T ? 24000 : 1500); ++k) for (auto &o : u) { a.push_back(o); b.push_back({o.k == 'Y' ? 'Y' : o.k == 'S' ? 'R' : 'S', o.n}); } run2(a, b, pick(T ? 3 : 1), 0, false, false); });
	explore("mirrored deviations", {3, 2}, [&]() { Prog a, b; int n = 1 + pick(4); for (int i = 0; i < n; ++i) a.push_back(pp[pick(3)]); for (auto &o : a) b.push_back({o.k == 'Y' ? 'Y' : o.k == 'S' ? 'R' : 'S', o.n}); run2(a, b, pick(2), 0, true, false); });
	// around the stream buffer
	size_t N = NETWORK_BUFFER_SIZE; std::vector<size_t> big = {1, N - 1, N, N + 1, 2 * N + 1};
	explore("sizes", {3, 0}, [&]() {
		size_t x = choose(big), y = choose(big), z = choose(std::vector<size_t>{1, N + 1}); int shape = pick(5); Prog a, b;
		if (shape == 0) { a = {{'S', x}, {'R', z}, {'S', y}, {'R', 1}}; b = {{'R', x}, {'S', z}, {'R', y}, {'S', 1}}; }
		else if (shape == 1) { a = {{'S', x}, {'S', y}, {'Y', 0}, {'S', z}, {'F', 0}, {'R', 1}}; b = {{'R', x + y}, {'Y', 0}, {'R', z}, {'S', 1}}; }
		else if (shape == 2) { a = {{'S', x}, {'F', 0}, {'S', y}}; b = {{'S', z}, {'R', x + y}}; }
		else if (shape == 3) { a = {{'R', x}, {'S', y}}; b = {{'S', x}, {'R', 1}, {'R', y - 1}}; }
		else { a = {{'Y', 0}, {'S', x}, {'R', z}}; b = {{'Y', 0}, {'S', z}, {'R', x}}; }
		if (!ideal(a, b)) throw Skip(); run2(a, b, pick(3), 0, false);
	});
	// everything sent before destruction arrives, with the peer reading only afterwards
	explore("last message", {3, 0}, [&]() { int k = 1 + pick(6); Prog a, b; size_t tot = 0; std::vector<size_t> z = {1, 7, 4096, N - 1, N + 1}; for (int i = 0; i < std::min(k, 3); ++i) { size_t n = choose(z); a.push_back({'S', n}); tot += n; if (k > 3) a.push_back({'F', 0}); } b.push_back({'R', tot}); if (pick(2)) { std::swap(a, b); } run2(a, b, pick(3), 0, false); });
}
