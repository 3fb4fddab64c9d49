// C01: bytes through NetIO, every small two-party program, schedule and transfer split.
#include "twoparty.h"
#include "emp-tool/io/net_io_channel.h"
using namespace emp; using namespace mc;
static void run2(const Prog &a, const Prog &b, int sched, int rmode, int wmode, bool dev) {
	note("server[ %s] client[ %s] order %d reads<=%d writes<=%d", show(a).c_str(), show(b).c_str(), sched, rmode, wmode);
	fnet::Scope s; s.w.sched = sched; s.w.rmode = rmode; s.w.wmode = wmode; s.w.devio = s.w.devsched = false;
	bool up[2] = {false, false}; const Prog *p[2] = {&a, &b}; size_t got[2] = {0, 0}, sent[2] = {0, 0};
	for (int i = 0; i < 2; ++i) s.add([&, i]() {
		NetIO io(i ? "127.0.0.1" : nullptr, 4321, true);
		up[i] = true; fnet::block_until([&]() { return up[0] && up[1]; }); s.w.devio = s.w.devsched = dev;
		for (auto &o : *p[i]) {
			if (o.k == 'S') do_send(io, i, o.n, sent[i]);
			else if (o.k == 'R') check_recv(io, i, o.n, got[i]);
			else io.flush();
		}
	});
	bool ok = s.run();
	MC_REQUIRE(ok, "parties wait for each other forever although the program completes over an ideal pipe (received %zu and %zu bytes)", got[0], got[1]);
	for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "party %d ended with status %d", i, s.status(i));
	uint64_t h = 1; for (auto &c : s.w.conns) for (int d = 0; d < 2; ++d) { h = hmix(h, hbytes(c->p[d].d.data(), c->p[d].d.size())); h = hmix(h, c->p[d].rd); }
	state(hmix(hmix(h, s.w.calls), hbytes(me->note, me->nnote))); outcome(h);
}
MC_MAIN("C01") {
	make_patterns();
	bool T = thorough;
	std::vector<Op> al = {{'S', 1}, {'S', 3}, {'R', 1}, {'R', 2}, {'R', 4}};
#ifdef LIGHT
	explore("programs", {3, 0}, [&]() { Prog a = gen(2, al), b = gen(2, al); if (a.size() + b.size() < 2 || !ideal(a, b)) throw Skip(); int m = pick(6); run2(a, b, m % 3, m / 3, 0, false); });
	explore("sizes", {2, 0}, [&]() { size_t N = NETWORK_BUFFER_SIZE; std::vector<size_t> z = {1, N - 1, N, N + 1}; size_t x = choose(z), y = choose(z); Prog a = {{'S', x}, {'S', y}, {'R', 5}}, b = {{'R', x + y - 1}, {'S', 5}, {'R', 1}}; run2(a, b, pick(3), pick(2) ? 65535 : 0, 0, false); });
	return;
#endif
	explore("programs", {4, 0}, [&]() { Prog a = gen(T ? 4 : 3, al), b = gen(T ? 4 : 3, al); if (a.size() + b.size() < 2 || !ideal(a, b)) throw Skip(); int m = pick(6); run2(a, b, m % 3, m / 3, m & 1, false); });
	std::vector<Op> af = {{'S', 1}, {'S', 3}, {'R', 1}, {'R', 2}, {'R', 4}, {'F', 0}, {'S', 0}, {'R', 0}};
	explore("flush and empty", {3, 0}, [&]() { Prog a = gen(T ? 3 : 2, af), b = gen(T ? 3 : 2, af); if (a.size() + b.size() < 2 || !ideal(a, b)) throw Skip(); run2(a, b, pick(3), pick(2), 0, false); });
	explore("deviations", {3, T ? 4 : 3}, [&]() { Prog a = gen(2, al), b = gen(2, al); if (a.size() + b.size() < 2 || !ideal(a, b)) throw Skip(); run2(a, b, pick(2), 0, 0, true); });
	explore("deviations deeper", {4, T ? 2 : 1}, [&]() { Prog a = gen(3, al), b = gen(3, al); if (a.size() + b.size() < 5 || !ideal(a, b)) throw Skip(); run2(a, b, pick(2), 0, 0, true); });
	// around the internal buffer size
	size_t N = NETWORK_BUFFER_SIZE;
	std::vector<size_t> big = {1, N / 2, N - 1, N, N + 1, 2 * N + 3};
	explore("sizes", {3, T ? 1 : 0}, [&]() {
		size_t x = choose(big), y = choose(big), t = x + y; size_t c = choose(std::vector<size_t>{1, x, x + 1 <= t ? x + 1 : t, t - 1, t}); size_t back = choose(std::vector<size_t>{0, 2, N + 1});
		int shape = pick(4); Prog a, b;
		if (shape == 0) { a = {{'S', x}, {'S', y}, {'R', back}}; b = {{'R', c}, {'R', t - c}, {'S', back}}; }
		else if (shape == 1) { a = {{'S', x}, {'S', y}, {'R', back}}; b = {{'S', back}, {'R', c}, {'R', t - c}}; }
		else if (shape == 2) { a = {{'S', x}, {'F', 0}, {'R', back}, {'S', y}}; b = {{'S', back}, {'R', c}, {'R', t - c}}; }
		else { a = {{'S', t}, {'R', back}}; b = {{'R', 1}, {'S', back}, {'R', t - 1}}; }
		if (!ideal(a, b)) throw Skip();
		int m = pick(T ? 6 : 3); run2(a, b, m % 3, std::vector<int>{0, 65535}[m / 3], m & 1 ? 100000 : 0, T);
	});
	explore("huge", {1, 0, 300}, [&]() { size_t G2 = 1ULL << 31, G4 = 1ULL << 32; int k = pick(T ? 5 : 3); auto mk = [](int i) { return new NetIO(i ? "127.0.0.1" : nullptr, 4321, true); };
		if (k == 0) huge_messages(mk, {5, G2 + 100}, {G2 + 50, 55}); else if (k == 1) huge_messages(mk, {G4 + 5, 3}, {G4 + 6, 2}); else if (k == 2) { std::vector<size_t> z(45, 100000007); huge_messages(mk, z, z); }
		else if (k == 3) huge_messages(mk, {G2, G2, 1}, {G4 + 1}); else huge_messages(mk, {1, G4, G2 - 1, G2 + 1}, {G2, G4 + G2 + 1}); });
	explore("thousands of messages", {3, 0, 120}, [&]() {
		std::vector<Op> ap = {{'S', 1}, {'S', 7}, {'R', 1}, {'R', 7}, {'S', 200}, {'R', 200}}; Prog u, a, b; for (int i = 0; i < 3; ++i) u.push_back(ap[pick((int)ap.size())]); int reps = T ? 20000 : 1800; for (int k = 0; k < reps; ++k) for (auto &o : u) { a.push_back(o); b.push_back({o.k == 'S' ? 'R' : 'S', o.n}); } run2(a, b, pick(T ? 3 : 1), 0, 0, false); });
	// long periodic conversations
	explore("periodic", {3, 0}, [&]() {
		std::vector<Op> ap = {{'S', 1}, {'S', 3}, {'R', 1}, {'R', 3}, {'S', 5000}, {'R', 5000}};
		Prog u; for (int i = 0; i < (T ? 4 : 3); ++i) { int c = pick((int)ap.size() + (i ? 1 : 0)); if (i && c == 0) break; u.push_back(ap[i ? c - 1 : c]); }
		Prog a, b; long bal = 0; for (int k = 0; k < (T ? 60 : 24); ++k) for (auto &o : u) a.push_back(o); (void)bal;
		// the peer mirrors, or sends everything ahead, or receives late
		int how = pick(3); Prog ss, rr; for (auto &o : a) (o.k == 'S' ? rr : ss).push_back({o.k == 'S' ? 'R' : 'S', o.n});
		if (how == 0) for (auto &o : a) b.push_back({o.k == 'S' ? 'R' : 'S', o.n}); else if (how == 1) { b = ss; b.insert(b.end(), rr.begin(), rr.end()); } else { b = rr; b.insert(b.end(), ss.begin(), ss.end()); }
		if (!ideal(a, b)) throw Skip();
		int m = pick(6); run2(a, b, m % 3, m / 3 ? 613 : 0, 0, false);
	});
}
