// C03: HighSpeedNetIO turn-taking conversations.
#include "twoparty.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
using namespace emp; using namespace mc;
struct Turn { int from; std::vector<size_t> s, r; bool flush; };
typedef std::vector<Turn> Conv;
static std::string show(const Conv &c) { std::string o; for (auto &t : c) { o += t.from ? "<-" : "->"; for (auto n : t.s) o += std::to_string(n) + "+"; o.back() = '/'; for (auto n : t.r) o += std::to_string(n) + "+"; o.back() = ' '; if (t.flush) o += "flush "; if (o.size() > 400) break; } return o; }
static std::vector<Turn> cat(std::vector<Turn> a, const std::vector<Turn> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void run2(const Conv &cv, int sched, int rmode, int wmode, bool dev) {
	note("%s order %d reads<=%d writes<=%d", show(cv).c_str(), sched, rmode, wmode);
	fnet::fill = 0xC7;
	fnet::Scope s; s.w.sched = sched; s.w.rmode = rmode; s.w.wmode = wmode; s.w.devio = s.w.devsched = false;
	bool up[2] = {false, false}; size_t got[2] = {0, 0}, sent[2] = {0, 0};
	for (int i = 0; i < 2; ++i) s.add([&, i]() {
		HighSpeedNetIO io(i ? "127.0.0.1" : nullptr, 4321, 4322, true);
		up[i] = true; fnet::block_until([&]() { return up[0] && up[1]; }); s.w.devio = s.w.devsched = dev;
		for (auto &t : cv) {
			if (t.from == i) for (auto n : t.s) do_send(io, i, n, sent[i]);
			else for (auto n : t.r) check_recv(io, i, n, got[i]);
			if (t.flush) io.flush();
		}
	});
	bool ok = s.run(); fnet::fill = -1;
	MC_REQUIRE(ok, "the conversation does not complete: received %zu and %zu bytes, sent %zu and %zu", got[0], got[1], sent[0], sent[1]);
	for (int i = 0; i < 2; ++i) MC_REQUIRE(s.status(i) == -1, "party %d ended with status %d", i, s.status(i));
	for (int i = 0; i < 2; ++i) MC_REQUIRE(got[i] == sent[1 - i], "party %d received %zu of %zu bytes", i, got[i], sent[1 - i]);
	uint64_t h = 1; static const char mark[16] = {'\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7', '\xC7'};
	for (auto &c : s.w.conns) for (int d = 0; d < 2; ++d) {
		auto &v = c->p[d].d; h = hmix(h, v.size()); h = hmix(h, c->p[d].rd);
		if (v.size()) MC_REQUIRE(!memmem(v.data(), v.size(), mark, 16), "memory that was never written by the channel or its user was put on the wire");
	}
	state(hmix(hmix(h, s.w.calls), hbytes(me->note, me->nnote))); outcome(h);
}
static Turn turn(int from, std::vector<size_t> s, int split, bool flush) {
	size_t n = 0; for (auto x : s) n += x; size_t B = NETWORK_BUFFER_SIZE2; std::vector<size_t> r; size_t c = split == 0 ? n : split == 1 ? 1 : split == 2 ? n - std::min<size_t>(n, 1) : std::min(B, n);
	c = std::min(c, n); r.push_back(c); if (n - c) r.push_back(n - c); return {from, s, r, flush};
}
MC_MAIN("C03") {
	make_patterns(); bool T = thorough; size_t B = NETWORK_BUFFER_SIZE2, N = NETWORK_BUFFER_SIZE;
	std::vector<size_t> six = {1, B - 1, B, B + 1, 2 * B, 2 * B + 7}, four = {3, B - 2, B, B + 1};
	auto mode = [&](const Conv &c, int m) { run2(c, m % 3, m / 3 ? 9999 : 0, m & 1 ? 4096 : 0, false); };
#ifdef LIGHT
	explore("two turns", {3, 0}, [&]() { Conv c; for (int i = 0; i < 2; ++i) { int d = i ? 1 - pick(2) : 0; size_t n = choose(four); int sp = pick(3); bool f = pick(2); c.push_back(turn(d, {n}, sp, f)); } mode(c, 2 * (int)(c[1].s[0] % 2)); });
	explore("residues", {1, 0}, [&]() { size_t n = choose(std::vector<size_t>{0, 1, 2, 15, 16, B / 2, B - 2, B - 1, B, B + 1, B + 2, 3 * B - 1}); Conv c = {turn(pick(2), {n}, 0, pick(2))}; c.push_back(turn(1 - c[0].from, {choose(four)}, 0, false)); mode(c, 0); });
	return;
#endif
	explore("two turns", {4, 0}, [&]() { Conv c; for (int i = 0; i < 2; ++i) { int d = pick(2); size_t n = choose(six); int sp = pick(3); bool f = pick(2); c.push_back(turn(d, {n}, sp, f)); } mode(c, pick(3)); });
	explore("three turns", {4, 0}, [&]() { Conv c; for (int i = 0; i < 3; ++i) { int d = pick(2); size_t n = choose(four); int sp = pick(2) ? 3 : 0; bool f = pick(2); c.push_back(turn(d, {n}, sp, f)); } mode(c, T ? pick(6) : 0); });
	if (T) explore("four turns", {4, 0}, [&]() { Conv c; for (int i = 0; i < 4; ++i) { int d = pick(2); size_t n = choose(std::vector<size_t>{3, B, B + 1}); bool f = pick(2); c.push_back(turn(d, {n}, i & 1 ? 1 : 0, f)); } mode(c, 0); });
	explore("chunks", {4, 0}, [&]() { std::vector<size_t> z = {0, 1, B - 1, B, B + 1}; Conv c = {turn(pick(2), {choose(z), choose(z), choose(z)}, pick(4), pick(2))}; c.push_back(turn(1 - c[0].from, {2}, 0, false)); mode(c, 0); });
	explore("receive chunks", {4, 0}, [&]() { // any cut of the received stream
		std::vector<size_t> z = {0, 1, B - 1, B, B + 1}; int d = pick(2); std::vector<size_t> r = {choose(z), choose(z), choose(z)}; size_t n = r[0] + r[1] + r[2]; Turn t{d, {}, r, pick(2) == 1}; int how = pick(3);
		if (how == 0) t.s = {n}; else if (how == 1) { t.s.assign(std::min<size_t>(n, 5), 1); if (n > t.s.size()) t.s.push_back(n - t.s.size()); if (t.s.empty()) t.s = {0}; } else { t.s.clear(); size_t l = n; while (l > 20000) { t.s.push_back(20000); l -= 20000; } t.s.push_back(l); }
		Conv c = {t, turn(1 - d, {5}, 0, false), turn(d, {B - 4}, 1, false)}; mode(c, 0); });
	explore("residues", {1, 0, 120}, [&]() {
		size_t n; if (T) n = pick(B + 65); else { static std::vector<size_t> z; if (z.empty()) { for (size_t i = 0; i <= B + 64; ++i) { bool near = false; for (size_t q = 1; q <= B; q *= 2) if (i + 9 > q && i < q + 9) near = true; if (near) z.push_back(i); } } n = choose(z); }
		Conv c = {turn(pick(2), {n}, 0, false)}; c.push_back(turn(1 - c[0].from, {n % 7 + 1, B - 3}, 0, false)); c.push_back(turn(c[0].from, {11}, 0, false)); mode(c, 0); });
	explore("stream buffer", {3, 0}, [&]() { Conv c = {turn(pick(2), {choose(std::vector<size_t>{1, B - 1, N - 1, N, N + 1}), choose(std::vector<size_t>{1, N - 1, N, N + 1, 2 * N + 3})}, pick(4), pick(2))}; c.push_back(turn(pick(2), {choose(std::vector<size_t>{1, N + 1})}, 0, false)); mode(c, pick(3)); });
	explore("splits", {2, 0}, [&]() { Conv c = {turn(pick(2), {choose(six)}, pick(3), pick(2))}; c.push_back(turn(pick(2), {choose(six)}, 0, false)); run2(c, pick(3), choose(std::vector<int>{0, 1021, 32767, 32769}), choose(std::vector<int>{0, 1021, 32767}), false); });
	explore("deviations", {3, T ? 3 : 2}, [&]() { Conv c = {turn(pick(2), {choose(six)}, 0, pick(2))}; c.push_back(turn(pick(2), {choose(four)}, 0, false)); run2(c, pick(2), 0, 0, true); });
	explore("huge", {1, 0, 300}, [&]() { size_t G2 = 1ULL << 31, G4 = 1ULL << 32; int k = pick(T ? 5 : 3); auto mk = [](int i) { return new HighSpeedNetIO(i ? "127.0.0.1" : nullptr, 4321, 4322, true); };
		if (k == 0) huge_messages(mk, {5, G2 + 100}, {G2 + 50, 55}); else if (k == 1) huge_messages(mk, {G4 + 5, 3}, {G4 + 6, 2}); else if (k == 2) { std::vector<size_t> z(45, 100000007); huge_messages(mk, z, z); }
		else if (k == 3) huge_messages(mk, {G2, G2, 1}, {G4 + 1}); else huge_messages(mk, {1, G4, G2 - 1, G2 + 1}, {G2, G4 + G2 + 1}); });
	explore("long", {2, 0}, [&]() { // periodic conversations: the running counters pass many packet boundaries
		std::vector<size_t> z = {1, 4095, B - 1, B, B + 1}; Conv u; int k = 1 + pick(T ? 3 : 2); for (int i = 0; i < k; ++i) { int d = pick(2); size_t n = choose(z); u.push_back(turn(d, {n}, (int)(n & 3), pick(2))); }
		Conv c; size_t tot = 0; while (c.size() < 60 && tot < 3 * N) { for (auto &t : u) { c.push_back(t); tot += t.s[0]; } } mode(c, 0); });
}
