// Controlled scheduler for real threads (see mtsched.cpp).
#pragma once
#include <functional>
#include <string>
namespace sched {
struct Res { bool deadlock = false; std::string race, what; long points = 0, threads = 0; };
// choose(n, dev): one decision out of n; dev: answers other than 0 count against the deviation budget.
// fail(msg): does not return.
void init(std::function<int(int, bool)> choose, std::function<void(const char *)> fail, std::function<void()> beat);
// run f as thread 0 of a controlled execution; returns number of scheduling points
long run(std::function<void()> f);
void point();                         // explicit scheduling point (no-op outside a controlled execution)
int self();                           // controlled thread number, -1 outside
bool joining(int t);                  // controlled thread t is blocked in a join
struct Quiet { bool o; Quiet(); ~Quiet(); };      // accesses in this scope are the harness's own
long accesses();                      // memory accesses checked in the last run
void delay_bound(bool on);            // every departure from the default schedule is a deviation, also at blocking points
void races(bool on);                  // race detection on (default) or off
void spurious(bool on);               // allow spurious condition-variable wakeups (as deviations)
}
