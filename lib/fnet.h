// Fake operating system network + cooperative parties, for exploring the channel code itself.
//
// Parties are fibers; every system call they make (socket, connect, accept, read, write, ...) is a
// scheduling point.  Calls are replaced at link time (-Wl,--wrap) and answered by an in-memory
// network whose nondeterminism (who runs next, how many bytes a transfer moves, when the peer
// disappears) is decided by the explorer.  Everything above the calls is the real code and real stdio.
#pragma once
#include <set>
#include "mc.h"
#include "mapped.h"
#include <ucontext.h>
#include <map>
#include <unordered_map>
#include <deque>
#include <memory>
#include <new>
#include <netinet/in.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <poll.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/socket.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define FN_ASAN 1
#else
#define FN_ASAN 0
#endif

namespace fnet {
// ------------------------------------------------------------------ allocations made by parties
static bool in_party = false, track = false;
struct NT { bool o; NT() : o(track) { track = false; } ~NT() { track = o; } };      // bookkeeping of this file is not the party's
template <class T> struct MA { typedef T value_type; MA() {} template <class U> MA(const MA<U> &) {} T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { free(p); } template <class U> bool operator==(const MA<U> &) const { return true; } template <class U> bool operator!=(const MA<U> &) const { return false; } };
typedef std::unordered_map<void *, size_t, std::hash<void *>, std::equal_to<void *>, MA<std::pair<void *const, size_t>>> AllocMap;
static AllocMap *live;      // party allocations not yet released
static int fill = -1;      // contents of fresh party allocations
static const size_t BIG = 1 << 15;
static const int MAXFREE = 64;
struct Pool { size_t sz; int n; void *p[MAXFREE]; };
static Pool pools[8]; static int npools = 0;
static std::unordered_map<void *, size_t, std::hash<void *>, std::equal_to<void *>, MA<std::pair<void *const, size_t>>> *bigs;
inline void *get(size_t n) {
	void *r = nullptr;
	if (!FN_ASAN && n >= BIG) { for (int i = 0; i < npools; ++i) if (pools[i].sz == n && pools[i].n) { r = pools[i].p[--pools[i].n]; break; } if (!bigs) bigs = new (malloc(sizeof(*bigs))) std::remove_reference<decltype(*bigs)>::type; }
	if (!r) r = malloc(n ? n : 1);
	if (!r) { fprintf(stderr, "out of memory\n"); _exit(2); }
	if (!FN_ASAN && n >= BIG) (*bigs)[r] = n;
	if (fill >= 0 && track) memset(r, fill, n);
	if (track) { if (!live) live = new (malloc(sizeof(AllocMap))) AllocMap; (*live)[r] = n; }
	return r;
}
inline void put(void *p) {
	if (!p) return;
	if (live && !live->empty()) live->erase(p);
	if (!FN_ASAN && bigs) { auto it = bigs->find(p); if (it != bigs->end()) { size_t n = it->second; bigs->erase(it); int i = 0; while (i < npools && pools[i].sz != n) ++i; if (i == npools && npools < 8) { pools[npools++] = Pool{n, 0, {}}; } if (i < npools && pools[i].n < MAXFREE) { pools[i].p[pools[i].n++] = p; return; } } }
	free(p);
}

// ------------------------------------------------------------------ world
struct Pipe { std::vector<char> d; size_t rd = 0; bool closed = false; long cut = -1; bool rst = false; long wcut = -1; uint64_t hash = 7; bool consumed_to_cut = false; int eofs = 0; };
struct Conn { Pipe p[2]; int port = 0; };                 // p[s]: bytes written by side s (0 = connecting side)
struct Desc { enum { FRESH, LISTEN, CONN, DEAD } kind = FRESH; int refs = 1, port = -1, side = 0, owner = 0; Conn *c = nullptr; bool bound = false, reuse = false; uint32_t addr = 0; std::deque<Conn *> *q = nullptr; };
struct Fiber { ucontext_t ctx; char *stack = nullptr; std::function<void()> fn; std::function<bool()> wait; enum { READY, RUN, DONE } st = READY; int status = -2; jmp_buf *ej = nullptr; void *fake = nullptr; int req = 0, ans = 0; bool yielded = false; };
static const size_t STK = 512 << 10;

struct World {
	std::vector<std::unique_ptr<Conn>> conns; std::map<int, Desc *> fds; std::vector<std::unique_ptr<Desc>> descs; std::vector<std::unique_ptr<std::deque<Conn *>>> qs; int next_fd = 1000;
	std::vector<Fiber *> fb; int cur = -1; ucontext_t main; void *mainfake = nullptr; const void *mainbot = nullptr; size_t mainsz = 0;
	std::map<FILE *, int> files; int badclose = 0, badfile = 0; uint64_t opened = 0, calls = 0; long spin = 0;
	std::map<int, Desc *> listeners;      // port -> listening descriptor
	std::set<int> lingering;              // local ports of accepted connections, open or in TIME_WAIT: rebinding needs SO_REUSEADDR
	// exploration modes
	int sched = 0;          // 0 run until blocked, first party first; 1 second party first; 2 alternate at every call
	bool full = false;      // every scheduling decision is a free choice
	int rmode = 0, wmode = 0;   // largest transfer of one read / write call (0 = unlimited)
	bool devio = true, devsched = true;
	bool compact = false;       // forget bytes already read (very long streams)
	int max_refused = 1 << 30, refused = 0;
	int fail_bind = 0, fail_listen = 0;
	int binds = 0, listens = 0;
	uint32_t host = htonl(INADDR_LOOPBACK); // the address the server's machine has
	int fail_connects = 0;      // the first n connect calls are refused whatever the state
	std::vector<std::pair<int, uint32_t>> connect_log, bind_log;
	std::function<void(int)> on_block;      // a party is about to wait for input
	std::string trace; bool log = false;
	bool deadlock = false, nap = false;      // nap: the running party sleeps or polls, prefer the others
};
static World *W = nullptr;
static std::vector<char *> stacks;

inline void sw_to_main() {
	Fiber *f = W->fb[W->cur]; f->ej = mc::exit_jmp; mc::exit_jmp = nullptr; in_party = false; track = false;
#if FN_ASAN
	__sanitizer_start_switch_fiber(f->st == Fiber::DONE ? nullptr : &f->fake, W->mainbot, W->mainsz);
#endif
	swapcontext(&f->ctx, &W->main);
#if FN_ASAN
	__sanitizer_finish_switch_fiber(f->fake, &W->mainbot, &W->mainsz);
#endif
	mc::exit_jmp = f->ej; in_party = true;
}
inline int do_close(int fd);
inline void entry() {
#if FN_ASAN
	__sanitizer_finish_switch_fiber(nullptr, &W->mainbot, &W->mainsz);
#endif
	Fiber *f = W->fb[W->cur]; in_party = true; track = true;
	int s = mc::guarded([&]() { f->fn(); });
	track = false; in_party = false;
	if (s != -1) { std::vector<int> v; for (auto &p : W->fds) if (p.second->owner == W->cur) v.push_back(p.first); for (int fd : v) do_close(fd); }      // the process ended
	f->status = s; f->st = Fiber::DONE; sw_to_main();
	abort();
}
inline void sw_to(int i) {
	Fiber *f = W->fb[i]; W->cur = i;
	if (f->st == Fiber::READY) { f->st = Fiber::RUN; getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = nullptr; makecontext(&f->ctx, (void (*)())entry, 0); }
#if FN_ASAN
	__sanitizer_start_switch_fiber(&W->mainfake, f->stack, STK);
#endif
	swapcontext(&W->main, &f->ctx);
#if FN_ASAN
	__sanitizer_finish_switch_fiber(W->mainfake, nullptr, nullptr);
#endif
}
// ---- called by party code
inline void point() { if (!in_party) return; NT nt; W->calls++; mc::step(); if (++W->spin > 2000000) mc::fail("parties keep calling without making progress"); Fiber *f = W->fb[W->cur]; f->wait = nullptr; f->yielded = true; sw_to_main(); }
template <class F> void block_until(F c) { NT nt; if (c()) return; if (W->on_block) { in_party = false; W->on_block(W->cur); in_party = true; } Fiber *f = W->fb[W->cur]; f->wait = c; f->yielded = false; sw_to_main(); }
inline int ask(int n) { if (n <= 1 || !in_party) return 0; NT nt; Fiber *f = W->fb[W->cur]; f->req = n; sw_to_main(); return f->ans; }
inline int party() { return W->cur; }

struct Scope {
	World w;
	Scope() { W = &w; }
	~Scope() { cleanup(); W = nullptr; }
	void add(std::function<void()> f) {
		Fiber *x = new Fiber; x->fn = std::move(f);
		if (stacks.empty()) { char *m = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); x->stack = m; }
		else { x->stack = stacks.back(); stacks.pop_back(); }
		w.fb.push_back(x);
	}
	// returns true when every party ended, false when the rest wait for each other forever
	bool run() {
		int cur = -1; size_t n = w.fb.size();
		while (true) {
			std::vector<int> r; bool alive = false;
			int start = w.sched == 1 ? (int)n - 1 : 0;
			for (size_t k = 0; k < n; ++k) { int i = w.sched == 1 ? start - (int)k : (int)k; Fiber *f = w.fb[i]; if (f->st == Fiber::DONE) continue; alive = true; if (!f->wait || f->wait()) r.push_back(i); }
			if (!alive) return true;
			if (r.empty()) { w.deadlock = true; return false; }
			if (cur >= 0) { auto it = std::find(r.begin(), r.end(), cur); if (it != r.end()) { r.erase(it); if (w.sched == 2 || w.nap) r.push_back(cur); else r.insert(r.begin(), cur); } }
			bool free_switch = cur < 0 || w.fb[cur]->st == Fiber::DONE || (w.fb[cur]->wait && !w.fb[cur]->wait());
			int c = 0; w.nap = false;
			if (r.size() > 1) c = w.full ? mc::pick((int)r.size()) : (w.devsched && !free_switch) ? mc::pickdev((int)r.size()) : w.devsched ? mc::pickdev((int)r.size()) : 0;
			cur = r[c]; Fiber *f = w.fb[cur]; f->wait = nullptr; in_party = false;
			sw_to(cur);
			while (f->req) { int q = f->req; f->req = 0; f->ans = q > 0 ? mc::pickdev(q) : mc::pick(-q); sw_to(cur); }
		}
	}
	int status(int i) { return w.fb[i]->status; }     // -1 returned, 255 exception, else exit status
	void cleanup() {
		in_party = false;
		std::vector<FILE *> fs; for (auto &p : w.files) fs.push_back(p.first);
		W = &w; for (auto f : fs) fclose(f);
		if (live) { std::vector<void *> v; for (auto &p : *live) v.push_back(p.first); for (auto p : v) put(p); live->clear(); }
		for (auto f : w.fb) { if (FN_ASAN && f->st == Fiber::RUN) munmap(f->stack, STK); else stacks.push_back(f->stack); delete f; }
		w.fb.clear();
	}
};

// ------------------------------------------------------------------ the system calls
inline Desc *find(int fd) { if (!W) return nullptr; auto it = W->fds.find(fd); return it == W->fds.end() ? nullptr : it->second; }
inline bool ours(int fd) { return W && fd >= 1000; }
inline int newfd(Desc *d) { int fd = W->next_fd++; W->fds[fd] = d; W->opened++; return fd; }
inline Desc *newdesc() { W->descs.emplace_back(new Desc); W->descs.back()->owner = W->cur; return W->descs.back().get(); }
inline int do_close(int fd) { NT nt;
	Desc *d = find(fd); if (!d) { W->badclose++; errno = EBADF; return -1; }
	W->fds.erase(fd);
	if (--d->refs == 0) {
		if (d->kind == Desc::CONN) { d->c->p[d->side].closed = true; }
		if (d->kind == Desc::LISTEN) { auto it = W->listeners.find(d->port); if (it != W->listeners.end() && it->second == d) W->listeners.erase(it); if (d->q) for (auto c : *d->q) c->p[1].closed = true; }
		d->kind = Desc::DEAD;
	}
	return 0;
}
inline ssize_t do_read(int fd, void *buf, size_t n) { NT nt;
	Desc *d = find(fd); if (!d || d->kind != Desc::CONN) { errno = EBADF; return -1; }
	point();
	if (n == 0) return 0;
	Pipe &p = d->c->p[1 - d->side];
	auto avail = [&p]() { size_t a = p.d.size(); if (p.cut >= 0 && (size_t)p.cut < a) a = p.cut; return a - std::min(a, p.rd); };
	block_until([&p, avail]() { return avail() > 0 || p.closed || (p.cut >= 0 && p.rd >= (size_t)p.cut); });
	size_t a = std::min(avail(), n);
	if (a == 0) { p.eofs++; if (p.eofs > 5000) mc::fail("the receiving side keeps reading at end of stream instead of reporting the lost peer"); if (p.cut >= 0 && p.rst) { errno = ECONNRESET; return -1; } return 0; }
	if (W->rmode && a > (size_t)W->rmode) a = W->rmode;
	if (W->devio && a > 1) { int c = ask(a > 2 ? 3 : 2); if (c == 1) a = 1; else if (c == 2) a = a - 1; }
	if (a > 0x7ffff000) a = 0x7ffff000;      // as Linux does
	memcpy(buf, p.d.data() + p.rd, a); p.rd += a; W->spin = 0; if (W->compact) drop_mapped(buf, a);
	if (W->compact && (p.rd == p.d.size() || p.rd >= (32u << 20))) { p.d.erase(p.d.begin(), p.d.begin() + p.rd); p.rd = 0; }
	return a;
}
inline ssize_t do_write(int fd, const void *buf, size_t n) { NT nt;
	Desc *d = find(fd); if (!d || d->kind != Desc::CONN) { errno = EBADF; return -1; }
	point();
	Pipe &p = d->c->p[d->side]; size_t a = n;
	if (p.wcut >= 0 && p.d.size() + a > (size_t)p.wcut) { a = (size_t)p.wcut > p.d.size() ? p.wcut - p.d.size() : 0; if (a == 0 && n) { for (auto &c : W->conns) c->p[0].closed = c->p[1].closed = true; p.eofs++; if (p.eofs > 5000) mc::fail("the sending side keeps writing to a lost peer without reporting it"); errno = EPIPE; return -1; } }
	if (W->wmode && a > (size_t)W->wmode) a = W->wmode;
	if (a > 0x7ffff000) a = 0x7ffff000;
	if (W->devio && a > 1) { int c = ask(a > 2 ? 3 : 2); if (c == 1) a = 1; else if (c == 2) a = a - 1; }
	p.d.insert(p.d.end(), (const char *)buf, (const char *)buf + a); W->spin = 0; if (W->compact) drop_mapped(buf, a);
	return a;
}
// stdio on top of a fake descriptor: as libc does, a write loops until everything went out
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t k = 0; while (k < n) { ssize_t r = do_write((int)(intptr_t)c, b + k, n - k); if (r < 0) return k; k += r; } return k; }
static int ck_seek(void *, off64_t *, int) { errno = ESPIPE; return -1; }
static int ck_close(void *c) { return do_close((int)(intptr_t)c); }
}

void *operator new(size_t n) { return fnet::get(n); }
void *operator new[](size_t n) { return fnet::get(n); }
void operator delete(void *p) noexcept { fnet::put(p); }
void operator delete[](void *p) noexcept { fnet::put(p); }
void operator delete(void *p, size_t) noexcept { fnet::put(p); }
void operator delete[](void *p, size_t) noexcept { fnet::put(p); }

extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_accept(int, struct sockaddr *, socklen_t *); int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_close(int); int __real_usleep(useconds_t); FILE *__real_fdopen(int, const char *); int __real_dup(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_send(int, const void *, size_t, int); ssize_t __real_recv(int, void *, size_t, int); int __real_fclose(FILE *); int __real_shutdown(int, int); int __real_nanosleep(const struct timespec *, struct timespec *);
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *); ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t); ssize_t __real_writev(int, const struct iovec *, int); ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __real_sendmsg(int, const struct msghdr *, int); ssize_t __real_recvmsg(int, struct msghdr *, int); int __real_poll(struct pollfd *, nfds_t, int); int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_getsockopt(int, int, int, void *, socklen_t *); int __real_fcntl(int, int, ...);
int __real_accept4(int, struct sockaddr *, socklen_t *, int); unsigned __real_sleep(unsigned); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *); int __real_getpeername(int, struct sockaddr *, socklen_t *); int __real_getsockname(int, struct sockaddr *, socklen_t *);
namespace fnet { inline int raw_close(int fd) { return __real_close(fd); } }
using namespace fnet;
int __wrap_socket(int d, int t, int p) { NT nt; if (!W) return __real_socket(d, t, p); point(); return newfd(newdesc()); }
int __wrap_setsockopt(int fd, int a, int b, const void *c, socklen_t l) { if (!ours(fd)) { if (W) { errno = EBADF; return -1; } return __real_setsockopt(fd, a, b, c, l); } Desc *d = find(fd); if (!d) { errno = EBADF; return -1; } if (a == SOL_SOCKET && (b == SO_REUSEADDR || b == SO_REUSEPORT) && c && l >= sizeof(int)) d->reuse = *(const int *)c != 0; return 0; }
int __wrap_bind(int fd, const struct sockaddr *s, socklen_t l) { NT nt; if (!ours(fd)) return __real_bind(fd, s, l); point(); Desc *d = find(fd); if (!d) { errno = EBADF; return -1; } const sockaddr_in *in = (const sockaddr_in *)s; W->bind_log.push_back({ntohs(in->sin_port), in->sin_addr.s_addr}); if (++W->binds == W->fail_bind) { errno = EADDRINUSE; return -1; } if (W->listeners.count(ntohs(in->sin_port)) || (!d->reuse && W->lingering.count(ntohs(in->sin_port)))) { errno = EADDRINUSE; return -1; } d->port = ntohs(in->sin_port); d->addr = in->sin_addr.s_addr; d->bound = true; return 0; }
int __wrap_listen(int fd, int n) { NT nt; if (!ours(fd)) return __real_listen(fd, n); point(); Desc *d = find(fd); if (!d) { errno = EBADF; return -1; } if (++W->listens == W->fail_listen) { errno = EADDRINUSE; return -1; } if (W->listeners.count(d->port)) { errno = EADDRINUSE; return -1; } d->kind = Desc::LISTEN; W->qs.emplace_back(new std::deque<Conn *>); d->q = W->qs.back().get(); W->listeners[d->port] = d; W->spin = 0; return 0; }
int __wrap_accept(int fd, struct sockaddr *s, socklen_t *l) { NT nt; if (!ours(fd)) return __real_accept(fd, s, l); point(); Desc *d = find(fd); if (!d || d->kind != Desc::LISTEN) { errno = EINVAL; return -1; } auto q = d->q; block_until([q]() { return !q->empty(); }); Conn *c = q->front(); q->pop_front(); Desc *n = newdesc(); n->kind = Desc::CONN; n->c = c; n->side = 1; if (d->port > 0) W->lingering.insert(d->port); W->spin = 0; return newfd(n); }
int __wrap_connect(int fd, const struct sockaddr *s, socklen_t l) { NT nt;
	if (!ours(fd)) return __real_connect(fd, s, l);
	int me = W->cur; if (W->refused >= W->max_refused) { int port = ntohs(((const sockaddr_in *)s)->sin_port); block_until([port]() { return W->listeners.count(port) > 0; }); }
	point(); Desc *d = find(fd); if (!d) { errno = EBADF; return -1; } (void)me;
	const sockaddr_in *in = (const sockaddr_in *)s; int port = ntohs(in->sin_port); W->connect_log.push_back({port, in->sin_addr.s_addr});
	auto it = W->listeners.find(port);
	if (it == W->listeners.end() || W->refused < W->fail_connects || in->sin_family != AF_INET || in->sin_addr.s_addr != W->host || (it->second->addr != htonl(INADDR_ANY) && it->second->addr != W->host)) { W->refused++; W->nap = true; point(); errno = ECONNREFUSED; return -1; }
	W->conns.emplace_back(new Conn); Conn *c = W->conns.back().get(); c->port = port; it->second->q->push_back(c); d->kind = Desc::CONN; d->c = c; d->side = 0; W->spin = 0; return 0;
}
int __wrap_close(int fd) { if (!ours(fd)) { int r = __real_close(fd); if (r < 0 && W && in_party) W->badclose++; return r; } point(); return do_close(fd); }
int __wrap_shutdown(int fd, int how) { if (!ours(fd)) return __real_shutdown(fd, how); Desc *d = find(fd); if (!d || d->kind != Desc::CONN) { errno = EBADF; return -1; } if (how != SHUT_RD) d->c->p[d->side].closed = true; return 0; }
int __wrap_usleep(useconds_t u) { if (!W || !in_party) return __real_usleep(u); W->nap = true; point(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!W || !in_party) return __real_nanosleep(a, b); W->nap = true; point(); return 0; }
int __wrap_dup(int fd) { NT nt; if (!ours(fd)) return __real_dup(fd); Desc *d = find(fd); if (!d) { errno = EBADF; return -1; } d->refs++; return newfd(d); }
FILE *__wrap_fdopen(int fd, const char *m) { NT nt; if (!W) return __real_fdopen(fd, m); if (!find(fd)) { errno = EBADF; return nullptr; } cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; FILE *f = fopencookie((void *)(intptr_t)fd, m, io); W->files[f] = fd; return f; }
int __wrap_fclose(FILE *f) { NT nt; if (!W) return __real_fclose(f); W->files.erase(f); return __real_fclose(f); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return ours(fd) ? do_read(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return ours(fd) ? do_write(fd, b, n) : __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return ours(fd) ? do_write(fd, b, n) : __real_send(fd, b, n, f); }
static bool readable(int fd) { Desc *d = find(fd); if (!d) return true; if (d->kind == Desc::LISTEN) return !d->q->empty(); if (d->kind != Desc::CONN) return true; Pipe &p = d->c->p[1 - d->side]; size_t a = p.d.size(); if (p.cut >= 0 && (size_t)p.cut < a) a = p.cut; return a > p.rd || p.closed || (p.cut >= 0 && p.rd >= (size_t)p.cut); }
static ssize_t do_recv(int fd, void *b, size_t n, int f) {
	if (f & MSG_DONTWAIT) { NT nt; point(); if (!readable(fd)) { W->nap = true; point(); errno = EAGAIN; return -1; } }
	if (f & MSG_PEEK) { Desc *d = find(fd); if (!d || d->kind != Desc::CONN) { errno = EBADF; return -1; } Pipe &p = d->c->p[1 - d->side]; size_t was = p.rd; ssize_t r = do_read(fd, b, n); p.rd = was; return r; }
	if (!(f & MSG_WAITALL)) return do_read(fd, b, n);
	size_t k = 0; while (k < n) { ssize_t r = do_read(fd, (char *)b + k, n - k); if (r < 0) return k ? (ssize_t)k : r; if (r == 0) break; k += r; } return k;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return ours(fd) ? do_recv(fd, b, n, f) : __real_recv(fd, b, n, f); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *s, socklen_t *l) { return ours(fd) ? do_recv(fd, b, n, f) : __real_recvfrom(fd, b, n, f, s, l); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *s, socklen_t l) { return ours(fd) ? do_write(fd, b, n) : __real_sendto(fd, b, n, f, s, l); }
static ssize_t gather(int fd, const struct iovec *v, int n) { char *m; size_t k = 0; { NT nt; for (int i = 0; i < n; ++i) k += v[i].iov_len; m = (char *)malloc(k + 1); k = 0; for (int i = 0; i < n; ++i) { memcpy(m + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; } } ssize_t r = do_write(fd, m, k); free(m); return r; }
static ssize_t scatter(int fd, const struct iovec *v, int n, int f) { char *m; size_t k = 0; for (int i = 0; i < n; ++i) k += v[i].iov_len; m = (char *)malloc(k + 1); ssize_t r = do_recv(fd, m, k, f); size_t o = 0; for (int i = 0; i < n && r > 0 && o < (size_t)r; ++i) { size_t c = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, m + o, c); o += c; } free(m); return r; }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return ours(fd) ? gather(fd, v, n) : __real_writev(fd, v, n); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return ours(fd) ? scatter(fd, v, n, 0) : __real_readv(fd, v, n); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *h, int f) { return ours(fd) ? gather(fd, h->msg_iov, h->msg_iovlen) : __real_sendmsg(fd, h, f); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *h, int f) { return ours(fd) ? scatter(fd, h->msg_iov, h->msg_iovlen, f) : __real_recvmsg(fd, h, f); }
int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
	bool any = false; for (nfds_t i = 0; i < n; ++i) if (ours(p[i].fd)) any = true;
	if (!any) return __real_poll(p, n, to);
	auto scan = [p, n]() { int r = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd < 0) continue; Desc *d = find(p[i].fd); if (!d) p[i].revents = POLLNVAL; else { if ((p[i].events & POLLOUT) && d->kind != Desc::LISTEN) p[i].revents |= POLLOUT; if ((p[i].events & POLLIN) && readable(p[i].fd)) p[i].revents |= POLLIN; } if (p[i].revents) ++r; } return r; };
	point(); if (to != 0) block_until([scan]() { return scan() > 0; }); else if (!scan()) W->nap = true;
	return scan();
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
	bool any = false; for (int i = 1000; i < n && i < FD_SETSIZE; ++i) if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w))) any = true;
	if (!any) return __real_select(n, r, w, e, t);
	point(); fd_set R, Wr; FD_ZERO(&R); FD_ZERO(&Wr); if (r) R = *r; if (w) Wr = *w;
	auto scan = [n, R, Wr](fd_set *ro, fd_set *wo) { int k = 0; if (ro) FD_ZERO(ro); if (wo) FD_ZERO(wo); for (int i = 0; i < n && i < FD_SETSIZE; ++i) { if (FD_ISSET(i, &R) && readable(i)) { ++k; if (ro) FD_SET(i, ro); } if (FD_ISSET(i, &Wr)) { ++k; if (wo) FD_SET(i, wo); } } return k; };
	if (!(t && t->tv_sec == 0 && t->tv_usec == 0)) block_until([scan]() { return scan(nullptr, nullptr) > 0; }); else W->nap = true;
	return scan(r, w);
}
int __wrap_getsockopt(int fd, int a, int b, void *c, socklen_t *l) { if (!ours(fd)) return __real_getsockopt(fd, a, b, c, l); if (c && l) memset(c, 0, *l); return 0; }
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long x = va_arg(ap, long); va_end(ap); if (!ours(fd)) return __real_fcntl(fd, cmd, x); Desc *d = find(fd); if (!d) { errno = EBADF; return -1; } if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { NT nt; d->refs++; return newfd(d); } return cmd == F_GETFL ? O_RDWR : 0; }
int __wrap_accept4(int fd, struct sockaddr *s, socklen_t *l, int f) { return ours(fd) ? __wrap_accept(fd, s, l) : __real_accept4(fd, s, l, f); }
unsigned __wrap_sleep(unsigned u) { if (!W || !in_party) return __real_sleep(u); W->nap = true; point(); return 0; }
int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { if (!W || !in_party) return __real_clock_nanosleep(k, f, a, b); W->nap = true; point(); return 0; }
int __wrap_getpeername(int fd, struct sockaddr *s, socklen_t *l) { if (!ours(fd)) return __real_getpeername(fd, s, l); sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(s, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
int __wrap_getsockname(int fd, struct sockaddr *s, socklen_t *l) { if (!ours(fd)) return __real_getsockname(fd, s, l); sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; Desc *d = find(fd); if (d && d->port > 0) in.sin_port = htons(d->port); memcpy(s, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
}
