// Controlled scheduler for real threads.
//
// The harness is compiled with -fsanitize=thread but linked against the functions below instead of
// libtsan: every memory access is fed to a vector-clock race detector, and the synchronisation calls
// (pthread_*, futex, once) are replaced by a model in which exactly one thread runs at a time and
// every scheduling decision is taken by the explorer.
#include "mtsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <deque>
#include <map>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <new>

namespace sched {
static const int MT = 36;
typedef uint32_t VC[MT];
enum Kind { RUN, MUTEX, COND, FUTEX, JOIN, ONCE, RWR, RWW };
struct Thread { int id = 0; sem_t sem; VC vc; bool done = false, joined = false, detached = false; Kind k = RUN; void *obj = nullptr; int tgt = -1; bool woken = false, timed = false, timedout = false; void *(*fn)(void *) = nullptr; void *arg = nullptr, *ret = nullptr; pthread_t pt; void *cmutex = nullptr; uint64_t seq = 0; };
struct Mutex { int owner = -1; VC vc; int rec = 0; int readers = 0; VC rvc; };
struct Once { int st = 0; int owner = -1; VC vc; };
// shadow memory: an open-addressing table of 8-byte words, one cell per byte; a byte read by several threads since its last write keeps a vector
struct Cell { uint32_t wc, rc; uint8_t wt, rt; };               // wt: writer + 1 (0 none); rt: reader + 1, 255: several
struct Word { uintptr_t key; Cell c[8]; };
struct Shadow {
	Word *t = nullptr; size_t cap = 0, n = 0; std::unordered_map<uintptr_t, uint32_t *> many;
	static size_t hash(uintptr_t k) { k *= 0x9E3779B97F4A7C15ULL; return k >> 20; }
	~Shadow() { free(t); for (auto &p : many) delete[] p.second; }
	Word *find(uintptr_t k) { if (!cap) return nullptr; for (size_t i = hash(k) & (cap - 1);; i = (i + 1) & (cap - 1)) { if (t[i].key == k) return &t[i]; if (!t[i].key) return nullptr; } }
	void grow() { size_t oc = cap; Word *o = t; cap = oc ? oc * 2 : 1024; t = (Word *)calloc(cap, sizeof(Word)); for (size_t j = 0; j < oc; ++j) if (o[j].key) { size_t i = hash(o[j].key) & (cap - 1); while (t[i].key) i = (i + 1) & (cap - 1); t[i] = o[j]; } free(o); }
	Word *get(uintptr_t k) { if (Word *w = find(k)) return w; if (2 * (n + 1) > cap) grow(); size_t i = hash(k) & (cap - 1); while (t[i].key) i = (i + 1) & (cap - 1); t[i].key = k; ++n; return &t[i]; }
	void clear(uintptr_t a, size_t len) { if (!cap) return; while (len) { Word *w = find(a >> 3); size_t o = a & 7, m = std::min(len, 8 - o); if (w) memset(&w->c[o], 0, m * sizeof(Cell)); a += m; len -= m; } }
};
struct World { std::vector<Thread *> th; int cur = 0; std::map<void *, Mutex> mu; std::map<void *, Once> on; std::map<void *, VC *> at; Shadow cells; long points = 0, acc = 0; uint64_t seq = 0; bool nap = false; };
static World *W = nullptr; static __thread int me_ = -1; static __thread int in_rt = 0;
static std::function<int(int, bool)> choose_; static std::function<void(const char *)> fail_; static std::function<void()> beat_; static bool spur = false, delayb = false; static long lastacc = 0;
struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };
void init(std::function<int(int, bool)> c, std::function<void(const char *)> f, std::function<void()> b) { choose_ = c; fail_ = f; beat_ = b; }
void spurious(bool on) { spur = on; }
void delay_bound(bool on) { delayb = on; }
long accesses() { return lastacc; }
int self() { return W ? me_ : -1; }
bool joining(int t) { return W && t < (int)W->th.size() && W->th[t]->k == JOIN; }
Quiet::Quiet() { in_rt++; } Quiet::~Quiet() { in_rt--; }
static bool active() { return W && me_ >= 0 && !in_rt; }
static void join_vc(VC a, const VC b) { for (int i = 0; i < MT; ++i) a[i] = std::max(a[i], b[i]); }
static Thread *cur() { return W->th[me_]; }
static bool enabled(Thread *t) {
	if (t->done) return false;
	switch (t->k) {
	case RUN: return true;
	case MUTEX: return W->mu[t->obj].owner < 0 && W->mu[t->obj].readers == 0;
	case RWW: return W->mu[t->obj].owner < 0 && W->mu[t->obj].readers == 0;
	case RWR: return W->mu[t->obj].owner < 0;
	case COND: return t->woken && W->mu[t->cmutex].owner < 0;
	case FUTEX: return t->woken;
	case JOIN: return W->th[t->tgt]->done;
	case ONCE: return W->on[t->obj].st != 1;
	} return false;
}
static std::string where() { std::string s; char b[96]; static const char *nm[] = {"running", "waiting for a mutex", "waiting on a condition variable", "waiting on a future/futex", "joining", "waiting for call_once", "waiting for a shared lock", "waiting for an exclusive lock"}; for (auto t : W->th) if (!t->done) { snprintf(b, sizeof b, " thread %d %s;", t->id, nm[t->k]); s += b; } return s; }
// hand the processor to the chosen thread; returns when this thread is chosen again
static void reschedule(bool exiting = false) {
	Thread *t = cur(); if (++W->points > 60000) fail_("the execution does not terminate (60000 scheduling points)"); if (beat_) beat_();
	std::vector<Thread *> en; for (auto x : W->th) if (enabled(x)) en.push_back(x);
	Thread *next = nullptr; bool curen = !exiting && enabled(t);
	if (en.empty()) { // a timed wait may expire
		for (auto x : W->th) if (!x->done && x->timed && !next) { next = x; x->timedout = true; x->woken = true; }
		if (next && next->k == COND && W->mu[next->cmutex].owner >= 0) next = nullptr;
		if (!next) { bool alive = false; for (auto x : W->th) if (!x->done) alive = true; if (!alive) return; std::string m = "deadlock:" + where(); fail_(m.c_str()); }
	} else {
		// deviations: another enabled thread, an expiring timed wait, a spurious wakeup
		std::vector<Thread *> o; if (curen && !W->nap) o.push_back(t); for (auto x : en) if (x != t || (W->nap && curen)) { if (x != t) o.push_back(x); } if (curen && W->nap) o.push_back(t);
		std::vector<Thread *> extra; for (auto x : W->th) if (!x->done && !x->woken && ((x->k == COND && (spur || x->timed) && W->mu[x->cmutex].owner < 0) || (x->k == FUTEX && x->timed))) extra.push_back(x);
		size_t n = o.size() + extra.size(); int c = 0;
		if (n > 1) c = choose_((int)n, delayb || curen || !extra.empty());
		if (c < (int)o.size()) next = o[c]; else { next = extra[c - o.size()]; next->woken = true; if (next->timed) next->timedout = true; }
	}
	W->nap = false;
	if (next == t) return;
	W->cur = next->id; World *w = W; sem_post(&next->sem);
	if (exiting) return;
	while (sem_wait(&t->sem)) {} (void)w;
}
static void sp() { reschedule(); }
static void block(Kind k, void *obj) { Thread *t = cur(); t->k = k; t->obj = obj; do reschedule(); while (!enabled(t)); t->k = RUN; }
void point() { if (!active()) return; RT r; sp(); }

static void release(VC into) { Thread *t = cur(); join_vc(into, t->vc); t->vc[t->id]++; }
static void release_set(VC into) { Thread *t = cur(); memcpy(into, t->vc, sizeof(VC)); t->vc[t->id]++; }
static void acquire(const VC from) { join_vc(cur()->vc, from); }

static void lock(void *m) { sp(); if (W->mu[m].owner == me_) { std::string s = "a thread locks a mutex it already holds:" + where(); fail_(s.c_str()); } if (W->mu[m].owner >= 0 || W->mu[m].readers) block(MUTEX, m); Mutex &x = W->mu[m]; x.owner = me_; acquire(x.vc); acquire(x.rvc); }
static void unlock(void *m) { Mutex &x = W->mu[m]; if (x.owner != me_) { fail_("a mutex is unlocked by a thread that does not hold it"); } release_set(x.vc); x.owner = -1; }

static void end_thread() { // the calling thread ends
	Thread *t = cur(); t->done = true; bool any = false; for (auto x : W->th) if (!x->done) any = true; if (any) reschedule(true);
}
static void *tramp(void *p) { Thread *t = (Thread *)p; me_ = t->id; in_rt = 0; while (sem_wait(&t->sem)) {} t->ret = t->fn(t->arg); in_rt++; end_thread(); return t->ret; }

template <class F> static F real(const char *n) { static F f = nullptr; if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
long run(std::function<void()> f) {
	World w; W = &w; me_ = 0; in_rt = 1; Thread *t = new Thread; t->id = 0; sem_init(&t->sem, 0, 0); memset(t->vc, 0, sizeof t->vc); t->vc[0] = 1; w.th.push_back(t);
	in_rt = 0; f(); in_rt = 1;
	for (auto x : w.th) if (x->id && !x->done && !x->detached) { std::string s = "threads are still running at the end of the program:" + where(); fail_(s.c_str()); }
	for (auto x : w.th) if (x->id && !x->joined && !x->detached) fail_("a thread was never joined");
	// let detached threads finish
	t->done = true; for (;;) { bool alive = false; for (auto x : w.th) if (!x->done) alive = true; if (!alive) break; t->done = false; t->k = RUN; W->nap = true; reschedule(); t->done = true; }
	long n = w.points; lastacc = w.acc; for (auto x : w.th) { if (x->id && !x->joined) { } sem_destroy(&x->sem); } for (auto x : w.th) delete x; for (auto &p : w.at) delete[] p.second; W = nullptr; me_ = -1; in_rt = 0; return n;
}
// ---------------------------------------------------------------- race detection
static void race(uintptr_t a, bool wr, int other, bool owr) { char b[256]; snprintf(b, sizeof b, "data race: thread %d %s address %#lx while thread %d %s it, unordered", me_, wr ? "writes" : "reads", (unsigned long)a, other, owr ? "wrote" : "read"); (void)a; char c[256]; snprintf(c, sizeof c, "data race: thread %d %s memory that thread %d %s, with no ordering between them", me_, wr ? "writes" : "reads", other, owr ? "wrote" : "read"); fail_(c); }
static bool tracking = true;
static void access(void *p, size_t n, bool wr) {
	if (!active() || !tracking) return; RT r; Thread *t = cur(); W->acc++; uintptr_t a0 = (uintptr_t)p;
	if (W->th.size() == 1) { if (wr) W->cells.clear(a0, n); return; }   // nothing concurrent yet: ordered before every later thread
	uint8_t self = me_ + 1; uint32_t now = t->vc[me_];
	while (n) {
		Word *w = W->cells.get(a0 >> 3); size_t o = a0 & 7, m = std::min(n, 8 - o);
		for (size_t i = 0; i < m; ++i) {
			Cell &c = w->c[o + i]; uintptr_t a = a0 + i;
			if (c.wt && c.wt != self && c.wc > t->vc[c.wt - 1]) race(a, wr, c.wt - 1, true);
			if (wr) {
				if (c.rt == 255) { uint32_t *v = W->cells.many[a]; for (int k = 0; k < MT; ++k) if (k != me_ && v[k] > t->vc[k]) race(a, true, k, false); } else if (c.rt && c.rt != self && c.rc > t->vc[c.rt - 1]) race(a, true, c.rt - 1, false);
				c.wt = self; c.wc = now; c.rt = 0; c.rc = 0;
			} else if (!c.rt || c.rt == self) { c.rt = self; c.rc = now; }
			else { uint32_t *&v = W->cells.many[a]; if (c.rt != 255) { if (!v) v = new uint32_t[MT]; memset(v, 0, sizeof(uint32_t) * MT); v[c.rt - 1] = c.rc; c.rt = 255; } v[me_] = now; }
		}
		a0 += m; n -= m;
	}
}
void races(bool on) { tracking = on; }
static void freed(void *p, size_t n) { if (!active() || !tracking) return; access(p, n, true); RT r; W->cells.clear((uintptr_t)p, n); }
static void atomic_pre(bool schedule) { if (schedule) sp(); }
static void atomic_sync(void *a, int mo, bool ld, bool st) {
	VC *&v = W->at[a]; if (!v) { v = new VC[1]; memset(v, 0, sizeof(VC)); }
	if (ld && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) acquire(*v);
	if (st) { if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { if (ld) release(*v); else release_set(*v); } else if (!ld) memset(*v, 0, sizeof(VC)); }
}
template <class T> static T at_load(const volatile T *a, int mo) { if (active()) { RT r; atomic_pre(true); atomic_sync((void *)a, mo, true, false); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
template <class T> static void at_store(volatile T *a, T v, int mo) { if (active()) { RT r; atomic_pre(true); atomic_sync((void *)a, mo, false, true); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
static void rmw(volatile void *a, int mo) { if (active()) { RT r; atomic_pre(mo == __ATOMIC_SEQ_CST); atomic_sync((void *)a, mo, true, true); } }
}
using namespace sched;
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); } void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true); else access(p, 8, false); } void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define AT(b) \
	a##b __tsan_atomic##b##_load(const volatile a##b *a, int mo) { return at_load(a, mo); } \
	void __tsan_atomic##b##_store(volatile a##b *a, a##b v, int mo) { at_store(a, v, mo); } \
	a##b __tsan_atomic##b##_exchange(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	a##b __tsan_atomic##b##_fetch_add(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	a##b __tsan_atomic##b##_fetch_sub(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	a##b __tsan_atomic##b##_fetch_and(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	a##b __tsan_atomic##b##_fetch_or(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	a##b __tsan_atomic##b##_fetch_xor(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	a##b __tsan_atomic##b##_fetch_nand(volatile a##b *a, a##b v, int mo) { rmw(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	bool __tsan_atomic##b##_compare_exchange_strong(volatile a##b *a, a##b *c, a##b v, int mo, int) { if (active()) { RT r; sp(); } bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (active()) { RT r; atomic_sync((void *)a, mo, true, ok); } return ok; } \
	bool __tsan_atomic##b##_compare_exchange_weak(volatile a##b *a, a##b *c, a##b v, int mo, int f) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, f); } \
	a##b __tsan_atomic##b##_compare_exchange_val(volatile a##b *a, a##b c, a##b v, int mo, int f) { __tsan_atomic##b##_compare_exchange_strong(a, &c, v, mo, f); return c; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int) { if (active()) { RT r; static char fence; atomic_sync(&fence, __ATOMIC_SEQ_CST, true, true); } }
void __tsan_atomic_signal_fence(int) {}
// initialisation of function-local statics
int __cxa_guard_acquire(char *g) { if (!active()) return real<int (*)(char *)>("__cxa_guard_acquire")(g); RT r; sp(); for (;;) { if (__atomic_load_n(g, __ATOMIC_SEQ_CST) & 1) { atomic_sync(g, __ATOMIC_ACQUIRE, true, false); return 0; } Once &o = W->on[g]; if (o.st != 1) { o.st = 1; o.owner = me_; return 1; } if (o.owner == me_) fail_("recursive initialisation of a static"); block(ONCE, g); } }
void __cxa_guard_release(char *g) { if (!active()) { real<void (*)(char *)>("__cxa_guard_release")(g); return; } RT r; W->on[g].st = 2; atomic_sync(g, __ATOMIC_RELEASE, false, true); __atomic_store_n(g, (char)1, __ATOMIC_SEQ_CST); sp(); }
void __cxa_guard_abort(char *g) { if (!active()) { real<void (*)(char *)>("__cxa_guard_abort")(g); return; } RT r; W->on[g].st = 0; sp(); }

int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); if (!active()) return rc(pt, at, fn, arg);
	RT r; if (W->th.size() >= (size_t)MT) fail_("too many threads for the scheduler"); Thread *t = new Thread; t->id = (int)W->th.size(); sem_init(&t->sem, 0, 0); memset(t->vc, 0, sizeof t->vc); memcpy(t->vc, cur()->vc, sizeof t->vc); t->vc[t->id] = 1; cur()->vc[me_]++; t->fn = fn; t->arg = arg; if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; } W->th.push_back(t);
	int e = rc(&t->pt, nullptr, tramp, t); if (e) fail_("pthread_create failed"); *pt = t->pt; sp(); return 0;
}
static Thread *by_pt(pthread_t p) { for (auto t : W->th) if (t->id && pthread_equal(t->pt, p) && !t->joined) return t; return nullptr; }
int pthread_join(pthread_t p, void **ret) {
	auto rj = real<int (*)(pthread_t, void **)>("pthread_join"); if (!active()) return rj(p, ret);
	RT r; Thread *t = by_pt(p); if (!t) { fail_("join of an unknown thread"); } sp(); if (!t->done) { cur()->tgt = t->id; Thread *c = cur(); c->k = JOIN; do reschedule(); while (!enabled(c)); c->k = RUN; } acquire(t->vc); t->joined = true; return rj(p, ret);
}
int pthread_detach(pthread_t p) { auto rd = real<int (*)(pthread_t)>("pthread_detach"); if (active()) { RT r; Thread *t = by_pt(p); if (t) t->detached = true; } return rd(p); }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!active()) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m); RT r; lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!active()) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m); RT r; sp(); if (W->mu[m].owner >= 0) return EBUSY; W->mu[m].owner = me_; acquire(W->mu[m].vc); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!active()) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m); RT r; unlock(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (active()) { RT r; auto it = W->mu.find(m); if (it != W->mu.end()) { if (it->second.owner >= 0) fail_("a locked mutex is destroyed"); W->mu.erase(it); } } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!active()) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock")(m); RT r; sp(); if (W->mu[m].owner >= 0) block(RWR, m); W->mu[m].readers++; acquire(W->mu[m].vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!active()) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock")(m); RT r; lock(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!active()) return real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock")(m); RT r; Mutex &x = W->mu[m]; if (x.owner == me_) { release_set(x.vc); x.owner = -1; } else { release(x.rvc); x.readers--; } return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) { RT r; sp(); Thread *t = cur(); t->k = COND; t->obj = c; t->cmutex = m; t->woken = false; t->timed = timed; t->timedout = false; t->seq = ++W->seq; unlock(m); do reschedule(); while (!enabled(t)); t->k = RUN; t->timed = false; Mutex &x = W->mu[m]; x.owner = me_; acquire(x.vc); acquire(x.rvc); return t->timedout ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active()) return real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait")(c, m); return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!active()) return real<int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *)>("pthread_cond_timedwait")(c, m, ts); return cwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (!active()) return real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait")(c, m, k, ts); return cwait(c, m, true); }
static std::vector<Thread *> waiters(void *c, Kind k) { std::vector<Thread *> v; for (auto t : W->th) if (!t->done && t->k == k && t->obj == c && !t->woken) v.push_back(t); std::sort(v.begin(), v.end(), [](Thread *a, Thread *b) { return a->seq < b->seq; }); return v; }
int pthread_cond_signal(pthread_cond_t *c) { if (!active()) return real<int (*)(pthread_cond_t *)>("pthread_cond_signal")(c); RT r; sp(); auto v = waiters(c, COND); if (!v.empty()) v[v.size() > 1 ? choose_((int)v.size(), true) : 0]->woken = true; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!active()) return real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast")(c); RT r; sp(); for (auto t : waiters(c, COND)) t->woken = true; return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { if (active()) { RT r; for (auto t : W->th) if (!t->done && t->k == COND && t->obj == c) { fail_("a condition variable is destroyed while a thread waits on it"); } } return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
	if (!active()) return real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once")(o, fn);
	{ RT r; sp(); if (*(int *)o == 0x7ff) { acquire(W->on[o].vc); return 0; } while (W->on[o].st == 1) block(ONCE, o); Once &x = W->on[o]; if (*(int *)o == 0x7ff) { acquire(x.vc); return 0; } x.st = 1; x.owner = me_; }
	struct G { pthread_once_t *o; bool ok = false; ~G() { RT r; Once &x = W->on[o]; if (ok) { *(int *)o = 0x7ff; memcpy(x.vc, cur()->vc, sizeof(VC)); cur()->vc[me_]++; x.st = 2; } else x.st = 0; } } g{o}; fn(); g.ok = true; return 0;
}
int sched_yield() { if (!active()) return syscall(SYS_sched_yield); RT r; W->nap = true; sp(); return 0; }
int usleep(useconds_t u) { if (!active()) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return real<int (*)(const struct timespec *, struct timespec *)>("nanosleep")(&t, nullptr); } RT r; W->nap = true; sp(); return 0; }
long syscall(long n, ...) {
	va_list va; va_start(va, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(va, long); va_end(va);
	if (n == SYS_futex && active()) {
		int op = (int)a[1] & FUTEX_CMD_MASK; int *ad = (int *)a[0];
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { RT r; sp(); if (__atomic_load_n(ad, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; } Thread *t = cur(); t->k = FUTEX; t->obj = ad; t->woken = false; t->timed = a[3] != 0; t->timedout = false; t->seq = ++W->seq; do reschedule(); while (!enabled(t)); t->k = RUN; bool to = t->timedout; t->timed = false; if (to) { errno = ETIMEDOUT; return -1; } return 0; }
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { RT r; sp(); int k = 0; for (auto t : waiters(ad, FUTEX)) { if (k >= (int)a[2]) break; t->woken = true; ++k; } return k; }
	}
	return real<long (*)(long, ...)>("syscall")(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}
// allocation: releasing memory is a write to it
static const size_t HDR = 16;
static void fresh(void *p, size_t n) { if (!active()) return; RT r; W->cells.clear((uintptr_t)p, n); }   // the allocator orders the previous owner before the new one
static void *get(size_t n) { size_t *p = (size_t *)malloc(n + HDR); if (!p) _exit(2); p[0] = n; fresh((char *)p + HDR, n); return (char *)p + HDR; }
extern "C" void *__cxa_allocate_exception(size_t n) noexcept { void *p = real<void *(*)(size_t)>("__cxa_allocate_exception")(n); fresh(p, n); return p; }
static void put(void *q) { if (!q) return; size_t *p = (size_t *)((char *)q - HDR); freed(q, p[0]); free(p); }
void *operator new(size_t n) { return get(n); } void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); } void operator delete[](void *p) noexcept { put(p); } void operator delete(void *p, size_t) noexcept { put(p); } void operator delete[](void *p, size_t) noexcept { put(p); }
