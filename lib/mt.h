// Exploration of multi-threaded programs: mc decisions drive the scheduler of sched.cpp.
#pragma once
#include "mc.h"
#include "mtsched.h"
namespace mt {
static bool freerun = false;
inline int choose(int n, bool dev) { if (freerun) return 0; try { return dev ? mc::pickdev(n) : mc::pick(n); } catch (mc::Skip &) { freerun = true; return 0; } }
inline void setup() { static bool done = false; if (done) return; done = true; sched::init(choose, [](const char *m) { mc::fail("%s", m); }, []() { mc::me->beat++; mc::me->trans++; }); }
inline long run(std::function<void()> f) { setup(); freerun = false; long n = sched::run(f); sched::delay_bound(false); sched::spurious(false); if (freerun) throw mc::Skip(); mc::state(mc::hbytes(mc::me->ch, 2 * mc::me->nch, mc::hbytes(mc::me->note, mc::me->nnote))); return n; }
}
