// C10: futures of ThreadPool deliver each task's own result or exception, under every schedule within the bound.
#include "mt.h"
#include "emp-tool/utils/ThreadPool.h"
#include <string>
using namespace mc;
#define REQ(c, ...) do { sched::Quiet q_; if (!(c)) mc::fail(__VA_ARGS__); } while (0)
static int kinds[4];
// kinds: 0 value, 1 std::runtime_error, 2 int exception, 3 void with side effect, 4 string, 5 reference
static void one_task(ThreadPool &p, int id, int kind, int *side, std::vector<std::function<void()>> &waits) {
	if (kind == 0) { auto f = std::make_shared<std::future<int>>(p.enqueue([side, id](int a, int b) { side[id] = id + 100; return a * 1000 + b; }, id, 7)); waits.push_back([f, id, side]() { int v = f->get(); REQ(v == id * 1000 + 7, "task %d delivered %d", id, v); int s = side[id]; REQ(s == id + 100, "task %d: its side effect is not visible after get()", id); }); }
	else if (kind == 1) { auto f = std::make_shared<std::future<int>>(p.enqueue([side, id]() -> int { side[id] = id + 100; throw std::runtime_error(std::to_string(id)); })); waits.push_back([f, id, side]() { std::string m = "nothing"; try { f->get(); } catch (std::runtime_error &e) { m = e.what(); } REQ(m == std::to_string(id), "task %d: get() gave %s instead of its own exception", id, m.c_str()); int s = side[id]; REQ(s == id + 100, "task %d: side effect not visible", id); }); }
	else if (kind == 2) { auto f = std::make_shared<std::future<void>>(p.enqueue([side, id]() { side[id] = id + 100; throw id + 50; })); waits.push_back([f, id, side]() { int m = -1; try { f->get(); } catch (int e) { m = e; } REQ(m == id + 50, "task %d: get() gave %d instead of its own exception", id, m); int s = side[id]; REQ(s == id + 100, "task %d: side effect not visible", id); }); }
	else if (kind == 3) { auto f = std::make_shared<std::future<void>>(p.enqueue([side, id]() { side[id] = id + 100; })); waits.push_back([f, id, side]() { f->get(); int s = side[id]; REQ(s == id + 100, "task %d: side effect not visible after get()", id); }); }
	else if (kind == 4) { auto f = std::make_shared<std::future<std::string>>(p.enqueue([side, id](const std::string &x) { side[id] = id + 100; return x + std::to_string(id); }, std::string("a fairly long string, not stored inline: "))); waits.push_back([f, id, side]() { std::string v = f->get(); REQ(v == "a fairly long string, not stored inline: " + std::to_string(id), "task %d delivered %s", id, v.c_str()); }); }
	else { auto f = std::make_shared<std::future<int &>>(p.enqueue([side, id]() -> int & { side[id] = id + 100; return side[id]; })); waits.push_back([f, id, side]() { int &v = f->get(); REQ(&v == side + id, "task %d delivered a reference to something else", id); int s = v; REQ(s == id + 100, "task %d: side effect not visible", id); }); }
}
// tasks enqueued by one thread; results collected in some order, before or after destruction, here or on another thread
static void collect(int w, std::vector<int> kind, int how) {
	note("pool of %d, tasks", w); for (int k : kind) note(" %d", k); note(", results %s", how == 0 ? "in order" : how == 1 ? "in reverse order" : how == 2 ? "after destroying the pool" : "on another thread");
	int side[8] = {0}; mt::run([&]() { std::vector<std::function<void()>> waits; { ThreadPool p(w); for (size_t i = 0; i < kind.size(); ++i) one_task(p, (int)i, kind[i], side, waits); if (how == 0) for (auto &f : waits) f(); else if (how == 1) for (size_t i = waits.size(); i-- > 0;) waits[i](); else if (how == 3) { std::thread t([&]() { for (auto &f : waits) f(); }); t.join(); } } if (how == 2) for (auto &f : waits) f(); waits.clear(); });
	outcome(hmix(w, how));
}
// one worker: enqueue order is execution order (also with two producers: each producer's order)
static void order(int k, bool two) {
	note("one worker, %d tasks, %s", k, two ? "two producers" : "one producer"); std::vector<int> ran; ran.reserve(1024);
	mt::run([&]() { ThreadPool p(1); auto prod = [&](int base) { for (int i = 0; i < k; ++i) p.enqueue([&ran, base, i]() { ran.push_back(base + i); }); }; if (two) { std::thread t([&]() { prod(100); }); prod(0); t.join(); } else prod(0); });
	int last[2] = {-1, -1}; for (int x : ran) { int q = x / 100; MC_REQUIRE(x % 100 > last[q], "tasks of one producer ran out of order: %d after %d", x % 100, last[q]); last[q] = x % 100; } MC_REQUIRE((int)ran.size() == k * (two ? 2 : 1), "%zu tasks ran", ran.size()); uint64_t h = 3; for (int x : ran) h = hmix(h, x); outcome(h);
}
// a task enqueues another and hands its future out
static void nested(int w, int depth) {
	note("pool of %d, chain of %d nested tasks", w, depth); int side[8] = {0};
	mt::run([&]() { ThreadPool p(w); std::function<std::future<int>(int)> go = [&](int d) -> std::future<int> { side[d] = d + 1; return p.enqueue([&, d]() { int s = side[d]; side[d] = s + 10; return s * 100; }); }; std::future<std::future<int>> f = p.enqueue([&]() { return go(0); }); std::future<int> g = f.get(); int v = g.get(); REQ(v == 100, "nested task delivered %d", v); int s = side[0]; REQ(s == 11, "nested side effect %d", s);
		for (int d = 1; d < depth; ++d) { auto ff = p.enqueue([&, d]() { return go(d); }); int x = ff.get().get(); REQ(x == (d + 1) * 100, "nested task delivered %d", x); } });
	outcome(depth);
}
// two threads enqueue and wait for their own results
static void waiters(int w, int k) {
	note("pool of %d, two threads enqueue %d tasks each and wait for them", w, k); int side[8] = {0};
	mt::run([&]() { ThreadPool p(w); auto body = [&](int base) { for (int i = 0; i < k; ++i) { int id = base + i; auto f = p.enqueue([&side, id]() { side[id] = 5 + id; return id * 3; }); int v = f.get(); REQ(v == id * 3, "waiter received %d for task %d", v, id); int s = side[id]; REQ(s == 5 + id, "side effect of task %d not visible", id); } }; std::thread t([&]() { body(4); }); body(0); t.join(); });
	outcome(k);
}
// arguments are captured when enqueue is called
static void arguments(int w) { note("pool of %d, argument changed after enqueue", w); mt::run([&]() { ThreadPool p(w); int x = 1; std::string s = "one"; auto f = p.enqueue([](int a, std::string b) { return b + std::to_string(a); }, x, s); x = 2; s = "two"; int y = 10; auto g = p.enqueue([](int &r) { r += 5; }, std::ref(y)); std::string v = f.get(); g.get(); int z = y; REQ(v == "one1", "task ran with arguments %s", v.c_str()); REQ(z == 15, "reference argument gave %d", z); }); outcome(w); }
// larger pools and queues on the default schedules: every future keeps its own outcome
static void wide(int w, int k, int how) {
	note("pool of %d, %d tasks, results %s", w, k, how == 0 ? "in order" : how == 1 ? "backwards" : "after destroying the pool"); std::vector<int> side(k, 0); std::vector<int> *S = &side;
	mt::run([&]() { std::vector<std::future<int>> fs(k); auto one = [&](int i) { int v = -1; try { v = fs[i].get(); REQ(i % 3 != 1, "task %d of %d delivered %d instead of its exception", i, k, v); } catch (std::runtime_error &e) { v = i % 3 == 1 ? atoi(e.what()) : -2; } REQ(v == 7 * i + 1, "task %d of %d delivered %d", i, k, v); int s = (*S)[i]; REQ(s == i + 5, "task %d of %d: side effect not visible after get()", i, k); };
		{ ThreadPool p(w); for (int i = 0; i < k; ++i) fs[i] = p.enqueue([S, i](int a) -> int { (*S)[i] = i + 5; if (i % 3 == 1) throw std::runtime_error(std::to_string(7 * i + 1)); return a + 1; }, 7 * i); if (how < 2) for (int j = 0; j < k; ++j) one(how ? k - 1 - j : j); } if (how == 2) for (int i = 0; i < k; ++i) one(i); fs.clear(); });
	outcome(hmix(w, k));
}
MC_MAIN("C10") {
	bool T = thorough;
	explore("one task", {12, T ? 4 : 3}, [&]() { sched::delay_bound(!T); int w = 1 + pick(2), k = pick(6), how = pick(4); collect(w, {k}, how); });
	explore("two tasks", {14, 2}, [&]() { sched::delay_bound(!T); int w = 1 + pick(2), a = pick(T ? 6 : 3), b = pick(T ? 6 : 3), how = pick(4); collect(w, {a, b}, how); });
	explore("three tasks", {12, 2}, [&]() { sched::delay_bound(!T); int a = pick(4), how = pick(4); collect(1 + pick(2), {a, 1, 0}, how); });
	explore("one worker keeps order", {12, T ? 4 : 3}, [&]() { order(2 + pick(2), false); });
	explore("one worker keeps order, many tasks", {3, 0}, [&]() { sched::delay_bound(true); order(choose(std::vector<int>{8, 17, 33, 65, 90}), pick(2)); });
	explore("one worker, two producers", {14, T ? 3 : 2}, [&]() { sched::delay_bound(true); order(1 + pick(2), true); });
	explore("wide", {3, 0}, [&]() { sched::delay_bound(true); int w = choose(std::vector<int>{1, 2, 3, 5, 8, 17, 31}), k = choose(std::vector<int>{1, 5, 9, 17, 33, 65, 129, 257}); wide(w, k, pick(3)); });
	explore("wide, deviations", {3, 1}, [&]() { sched::delay_bound(true); wide(1 + pick(2), choose(std::vector<int>{5, 9}), pick(3)); });
	explore("nested", {12, T ? 3 : 2}, [&]() { sched::delay_bound(!T); nested(1 + pick(2), 1 + pick(2)); });
	explore("waiters", {14, T ? 3 : 2}, [&]() { sched::delay_bound(true); waiters(1 + pick(2), T ? 1 + pick(2) : 1); });
	explore("arguments", {12, T ? 3 : 2}, [&]() { arguments(1 + pick(2)); });
	explore("spurious wakeups", {12, T ? 3 : 2}, [&]() { sched::spurious(true); collect(1, {pick(2), 0}, 0); });
}
