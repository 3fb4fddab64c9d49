// C09: ThreadPool: every accepted task exactly once, clean shutdown, no deadlock, no race, under every schedule within the bound.
#include "mt.h"
#include "emp-tool/utils/ThreadPool.h"
using namespace mc;
struct Run { int n = 0; int accepted[512] = {0}, ran[512] = {0}, rejected[512] = {0}; };      // plain memory on purpose: the pool must order it
static void verify(Run &r, int n) { sched::Quiet q; for (int i = 0; i < n; ++i) { MC_REQUIRE(r.accepted[i] + r.rejected[i] <= 1, "task %d enqueued twice", i); MC_REQUIRE(r.ran[i] == r.accepted[i], "task %d was accepted %d times and ran %d times by the end of the pool's destruction", i, r.accepted[i], r.ran[i]); } uint64_t h = 1; for (int i = 0; i < n; ++i) h = hmix(h, r.accepted[i] * 2 + r.rejected[i]); outcome(h); }
// tasks enqueued by the owning thread, pool destroyed at once
static void simple(int w, int k, bool wait_first) {
	note("pool of %d, %d tasks%s", w, k, wait_first ? ", first future awaited" : "");
	Run r; mt::run([&]() { { ThreadPool p(w); for (int i = 0; i < k; ++i) { auto f = p.enqueue([&r, i]() { r.ran[i]++; return i; }); r.accepted[i]++; if (wait_first && i == 0) { int v = f.get(); sched::Quiet q; MC_REQUIRE(v == 0, "wrong value"); } } } for (int i = 0; i < k; ++i) { volatile int x = r.ran[i]; (void)x; } });
	verify(r, k);
}
// several threads enqueue concurrently
static void producers(int w, int np, int k) {
	note("pool of %d, %d producers x %d tasks", w, np, k);
	Run r; mt::run([&]() { { ThreadPool p(w); std::vector<std::thread> t; for (int q = 0; q < np; ++q) t.emplace_back([&, q]() { for (int i = 0; i < k; ++i) { int id = q * k + i; p.enqueue([&r, id]() { r.ran[id]++; }); r.accepted[id]++; } }); for (auto &x : t) x.join(); } for (int i = 0; i < np * k; ++i) { volatile int x = r.ran[i]; (void)x; } });
	verify(r, np * k);
}
// tasks enqueue further tasks while the pool may already be shutting down: either accepted and run, or refused with an exception
static void nested(int w, int k, int depth) {
	note("pool of %d, %d tasks each enqueuing %d more", w, k, depth);
	Run r; mt::run([&]() { { ThreadPool *pp = new ThreadPool(w); ThreadPool &p = *pp; std::function<void(int, int)> job = [&](int id, int d) { r.ran[id]++; if (d > 0) { int c = id + k; bool ok = false, stopped = sched::joining(0); try { p.enqueue([&, c, d]() { job(c, d - 1); }); ok = true; } catch (std::runtime_error &) { } if (ok && stopped) { sched::Quiet q; fail("enqueue on a pool whose destruction is already waiting for the workers was not refused"); } if (ok) r.accepted[c]++; else r.rejected[c]++; } };
		for (int i = 0; i < k; ++i) { p.enqueue([&, i]() { job(i, depth); }); r.accepted[i]++; } delete pp; } for (int i = 0; i < k * (depth + 1); ++i) { volatile int x = r.ran[i] + r.accepted[i]; (void)x; } });
	verify(r, k * (depth + 1));
}
// a task throws; the worker goes on
static void throwing(int w, int k) { note("pool of %d, %d tasks, the first throws, the second exits through a non-standard exception", w, k); Run r; mt::run([&]() { { ThreadPool p(w); for (int i = 0; i < k; ++i) { p.enqueue([&r, i]() { r.ran[i]++; if (i == 0) throw std::runtime_error("x"); if (i == 1) throw 5; }); r.accepted[i]++; } } for (int i = 0; i < k; ++i) { volatile int x = r.ran[i]; (void)x; } }); verify(r, k); }
static void idle(int w, int rounds) { note("%d empty pools of %d", rounds, w); Run r; mt::run([&]() { for (int i = 0; i < rounds; ++i) { ThreadPool p(w); int s = p.size(); sched::Quiet q; MC_REQUIRE(s == w, "size() is %d for %d workers", s, w); } }); outcome(w); }
static void two_pools(int k) { note("two pools of 1, a task of the first enqueues on the second, %d tasks", k); Run r; mt::run([&]() { { ThreadPool b(1); { ThreadPool a(1); for (int i = 0; i < k; ++i) { a.enqueue([&r, &b, i, k]() { r.ran[i]++; b.enqueue([&r, i, k]() { r.ran[k + i]++; }); r.accepted[k + i]++; }); r.accepted[i]++; } } } for (int i = 0; i < 2 * k; ++i) { volatile int x = r.ran[i] + r.accepted[i]; (void)x; } }); verify(r, 2 * k); }
// work handed over after the workers had time to go to sleep again and again
static void waves(int w, int n) { note("pool of %d, %d tasks, each awaited before the next", w, n); Run r; mt::run([&]() { { ThreadPool p(w); for (int i = 0; i < n; ++i) { auto f = p.enqueue([&r, i]() { r.ran[i]++; }); r.accepted[i]++; f.get(); volatile int x = r.ran[i]; (void)x; } } }); verify(r, n); }
// as many tasks as workers wait for each other: an idle worker must pick up the next task while the others are busy
static void rendezvous(int w, int k, int pre, bool two, bool await) {
	note("pool of %d, %d tasks then %d that wait for each other%s%s", w, pre, k, two ? ", handed in by two threads" : "", await ? ", awaited" : "");
	Run r; mt::run([&]() { { std::mutex m; std::condition_variable c; int in = 0; ThreadPool p(w); int id = 0; std::vector<std::future<void>> fs;
		auto meet = [&](int i) { r.ran[i]++; std::unique_lock<std::mutex> l(m); if (++in == k) c.notify_all(); else c.wait(l, [&]() { return in == k; }); };
		for (; id < pre; ++id) { int i = id; p.enqueue([&r, i]() { r.ran[i]++; }); r.accepted[i]++; }
		std::thread t; if (two) { int i = pre + k - 1; t = std::thread([&, i]() { p.enqueue([&, i]() { meet(i); }); r.accepted[i]++; }); }
		for (int j = 0; j < k - (two ? 1 : 0); ++j, ++id) { int i = id; fs.push_back(p.enqueue([&, i]() { meet(i); })); r.accepted[i]++; }
		if (two) t.join(); if (await) for (auto &f : fs) f.get(); } for (int i = 0; i < pre + k; ++i) { volatile int x = r.ran[i]; (void)x; } });
	verify(r, pre + k);
}
// larger pools and queues on the default schedules
static void wide(int w, int k, int how) {
	note("pool of %d, %d tasks, %s", w, k, how == 0 ? "pool destroyed at once" : how == 1 ? "results collected in order" : how == 2 ? "results collected backwards" : "handed in by four threads");
	Run r; mt::run([&]() { { ThreadPool p(w); std::vector<std::future<int>> fs(k); std::vector<std::thread> t;
		auto one = [&](int i) { fs[i] = p.enqueue([&r, i]() { r.ran[i]++; return 3 * i + 1; }); r.accepted[i]++; };
		if (how == 3) { for (int q = 0; q < 4; ++q) t.emplace_back([&, q]() { for (int i = q; i < k; i += 4) one(i); }); for (auto &x : t) x.join(); } else for (int i = 0; i < k; ++i) one(i);
		if (how) for (int j = 0; j < k; ++j) { int i = how == 2 ? k - 1 - j : j; int v = fs[i].get(); sched::Quiet q; MC_REQUIRE(v == 3 * i + 1, "task %d of %d yielded %d", i, k, v); } } for (int i = 0; i < k; ++i) { volatile int x = r.ran[i]; (void)x; } });
	verify(r, k);
}
MC_MAIN("C09") {
	bool T = thorough;
	explore("workers and tasks", {14, T ? 3 : 2}, [&]() { int w = 1 + pick(2), k = pick(3); simple(w, k, pick(2)); });
	explore("three workers", {14, T ? 2 : 1}, [&]() { int w = 3, k = 1 + pick(3); simple(w, k, false); });
	explore("more tasks", {14, T ? 3 : 2}, [&]() { int w = 1 + pick(2), k = 3 + pick(2); simple(w, k, false); });
	explore("one worker", {14, T ? 6 : 4}, [&]() { simple(1, pick(3), pick(2)); });
	explore("producers", {14, T ? 4 : 2}, [&]() { sched::delay_bound(true); int w = 1 + pick(2); producers(w, 2, 1 + pick(2)); });
	explore("nested", {14, T ? 4 : 3}, [&]() { int w = 1 + pick(2); nested(w, 1, 1 + pick(2)); });
	explore("nested more", {14, T ? 3 : 2}, [&]() { nested(1 + pick(2), 2, 1); });
	explore("throwing tasks", {14, T ? 4 : 2}, [&]() { throwing(1 + pick(2), 2); });
	explore("tasks waiting for each other", {14, T ? 3 : 1}, [&]() { int m = pick(6); rendezvous(2, 2, m % 2, m == 5, m < 4); });
	explore("three tasks waiting for each other", {14, T ? 2 : 1}, [&]() { sched::delay_bound(true); rendezvous(3, 2 + pick(2), 0, false, pick(2)); });
	explore("wide", {3, T ? 1 : 0}, [&]() { sched::delay_bound(true); int w = choose(std::vector<int>{1, 2, 3, 5, 8, 17, 31}), k = choose(std::vector<int>{1, 5, 9, 17, 33, 65, 129, 257}); if (T && (w > 5 || k > 17)) throw Skip(); wide(w, k, pick(w > 28 ? 3 : 4)); });
	explore("wide, deviations", {14, T ? 2 : 1}, [&]() { sched::delay_bound(true); int w = choose(std::vector<int>{4, 5}), k = choose(std::vector<int>{5, 9}); wide(w, k, pick(2)); });
	explore("many tasks waiting for each other", {3, 0}, [&]() { sched::delay_bound(true); int w = choose(std::vector<int>{4, 7, 16, 30}); rendezvous(w, w, choose(std::vector<int>{0, 1, 40}), false, pick(2)); });
	explore("empty pools", {14, T ? 4 : 3}, [&]() { int w = 1 + pick(2); idle(w, 1 + pick(2)); });
	explore("two pools", {14, T ? 3 : 2}, [&]() { two_pools(1 + pick(2)); });
	explore("waves", {14, T ? 3 : 2}, [&]() { waves(1 + pick(2), 1 + pick(2)); });
	explore("spurious wakeups", {14, T ? 3 : 2}, [&]() { sched::spurious(true); int w = 1 + pick(2), k = pick(2); simple(w, k, false); });
}
