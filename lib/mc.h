// Stateless, choice-driven exhaustive explorer.
//
// A section is a body that builds one execution by asking pick(n) for every decision
// (operation, argument, schedule step, environment answer).  explore() runs the body once for
// every sequence of answers, depth first, so every execution inside the bounds is run; nothing
// is sampled.  The first `depth` decisions are used to split the tree over forked worker
// processes.  The decisions of the running case live in shared memory, so a crash, sanitizer
// report, unexpected exit() or hang still yields the exact case.  A failing case is replayed
// alone (and, failing that, after the same history of cases) before it is reported.
#pragma once
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <exception>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <setjmp.h>
#include <errno.h>

namespace mc {
static const int MAXCH = 20000, MAXNOTE = 16384, NSAMP = 4, MAXW = 16;
struct Slot {
	volatile uint64_t cases, trans, beat, pts;
	volatile int done, nch, failed;
	uint64_t caseno;
	uint16_t ch[MAXCH], szs[MAXCH]; volatile int mine;
	char note[MAXNOTE]; volatile int nnote;
	char fail[MAXNOTE];
	char samp[NSAMP][1600]; volatile int nsamp;
};
struct Table { volatile uint64_t count, full; volatile uint64_t h[1 << 23]; };
struct Skip {};
struct Section { std::string name; uint64_t cases, trans, states, outcomes; double secs; };

static Slot *slots, *me; static Table *tab, *otab;
static int nworkers = 8, worker = 0; static bool isolated = false; static bool thorough = false; static int replaying = 0;
static std::vector<uint16_t> prefix; static int pos = 0;
static int shard_depth = 0, dev_left = 0; static double case_limit = 60;
static std::vector<Section> sections; static std::string only, replay_section, prop_id, outfile, errfile; static std::vector<uint16_t> replay_ch; static bool replay_found = false;
static uint64_t extra_trans = 0;

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
inline uint64_t hbytes(const void *p, size_t n, uint64_t h = 7) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL; return hmix(h, n); }

inline void tadd(Table *t, uint64_t h) {
	if (!h) h = 1;
	if (t->full) return;
	size_t m = (1 << 23) - 1, i = h & m;
	for (int k = 0; k < 4096; ++k, i = (i + 1) & m) {
		uint64_t c = t->h[i];
		if (c == h) return;
		if (c == 0) { if (__sync_bool_compare_and_swap(&t->h[i], 0ULL, h)) { __sync_fetch_and_add(&t->count, 1ULL); return; } if (t->h[i] == h) return; }
	}
	t->full = 1;
}
// distinct abstract states reached / distinct observable outcomes
inline void state(uint64_t h) { tadd(tab, h); }
inline void outcome(uint64_t h) { tadd(otab, h); }
inline void step(uint64_t n = 1) { me->trans += n; me->beat++; }      // one transition of the real code
inline void points(uint64_t n) { me->pts += n; }                          // distinct states visited, when distinct by construction
inline void beat() { me->beat++; }

inline void note(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char *f, ...) {
	va_list a; va_start(a, f); int l = me->nnote;
	if (l < MAXNOTE - 2) { int r = vsnprintf(me->note + l, MAXNOTE - l, f, a); if (r > 0) me->nnote = std::min(l + r, MAXNOTE - 1); }
	va_end(a);
}
inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char *f, ...) {
	va_list a; va_start(a, f); vsnprintf(me->fail, MAXNOTE, f, a); va_end(a);
	me->failed = 1; _exit(77);
}
#define MC_REQUIRE(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

// one decision out of n (n >= 1)
inline int pick(int n) {
	if (n <= 0) { fprintf(stderr, "mc: pick(0)\n"); abort(); }
	if (n == 1) return 0;
	if (pos >= MAXCH) { fprintf(stderr, "mc: too many decisions\n"); abort(); }
	int c = 0;
	if (pos < (int)prefix.size()) { c = prefix[pos]; if (c >= n) { fprintf(stderr, "mc: replay divergence: choice %d of %d at %d\n", c, n, pos); _exit(78); } }
	me->ch[pos] = c; me->szs[pos] = n; me->nch = pos + 1; ++pos;
	if (pos == shard_depth && replaying != 1) {
		uint64_t h = 3; for (int i = 0; i < pos; ++i) h = hmix(h, me->ch[i]);
		if ((int)(h % nworkers) != worker) throw Skip();
	}
	return c;
}
// a decision whose non-default answers cost one unit of the deviation budget
inline int pickdev(int n) { if (n <= 1 || dev_left <= 0) return 0; int c = pick(n); if (c) --dev_left; return c; }
inline int pickrange(int lo, int hi) { return lo + pick(hi - lo + 1); }
template <class T> const T &choose(const std::vector<T> &v) { return v[pick((int)v.size())]; }

// ------------------------------------------------------------------ exit() capture
static jmp_buf *exit_jmp = nullptr; static int exit_code = 0;
template <class F> int guarded(F f) {      // returns -1 normally, exit status if f called exit(), 134 for abort/assert, 255 for an exception
	jmp_buf j, *old = exit_jmp; exit_jmp = &j;
	int r = setjmp(j);
	if (r == 0) { try { f(); } catch (std::exception &e) { exit_jmp = old; return 255; } exit_jmp = old; return -1; }
	exit_jmp = old; return exit_code;
}
#ifdef MC_WRAP_EXIT                        // link with -Wl,--wrap=exit,--wrap=abort,--wrap=__assert_fail
extern "C" void __real_exit(int) __attribute__((noreturn)); extern "C" void __real_abort() __attribute__((noreturn));
static void leave(int c) { exit_code = c; jmp_buf *j = exit_jmp; longjmp(*j, 1); }
extern "C" __attribute__((noreturn)) void __wrap_exit(int c) { if (exit_jmp) leave(c); __real_exit(c); }
extern "C" __attribute__((noreturn)) void __wrap_abort() { if (exit_jmp) leave(134); __real_abort(); }
extern "C" __attribute__((noreturn)) void __wrap___assert_fail(const char *, const char *, unsigned, const char *) { if (exit_jmp) leave(134); __real_abort(); }
#endif

typedef std::function<void()> Body;
inline void begin_case() {
	pos = 0; me->nch = 0; me->nnote = 0; me->note[0] = 0; me->fail[0] = 0; me->failed = 0;
}
// run the worker's share; if stop_at >= 0 stop after that case (history replay)
inline void run_shard(const Body &body, int devs, int64_t stop_at) {
	prefix.clear(); me->caseno = 0; me->done = 0;
	while (true) {
		begin_case(); dev_left = devs; bool mine = true;
		if (isolated) {      // every execution in a process of its own: nothing a previous execution left behind is visible
			pid_t c = fork(); if (c < 0) _exit(2);
			if (!c) { prctl(PR_SET_PDEATHSIG, SIGKILL); me->mine = 1; try { body(); } catch (Skip &) { me->mine = 0; } me->done = 2; _exit(0); }
			int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && me->done == 2)) { if (WIFSIGNALED(st)) { if (!me->failed) { snprintf(me->fail, MAXNOTE, "execution killed by signal %d", WTERMSIG(st)); me->failed = 1; } _exit(77); } _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 79); }
			me->done = 0; mine = me->mine; pos = me->nch;
		} else
		try { body(); } catch (Skip &) { mine = false; }
		if (mine && pos < shard_depth) { uint64_t h = 3; for (int i = 0; i < pos; ++i) h = hmix(h, me->ch[i]); if ((int)(h % nworkers) != worker) mine = false; }
		if (mine) {
			me->cases++;
			uint64_t h = hbytes(prop_id.data(), prop_id.size());
			if (me->nsamp < NSAMP && (me->cases == 1 || me->cases == 7 || me->cases == 60 || me->cases == 1000)) { snprintf(me->samp[me->nsamp], 1600, "%.1500s", me->note); me->nsamp++; }
			(void)h;
		}
		me->beat++; me->caseno++;
		if (stop_at >= 0 && (int64_t)me->caseno > stop_at) break;
		int i = pos - 1; while (i >= 0 && me->ch[i] + 1 >= me->szs[i]) --i;
		if (i < 0) break;
		prefix.assign(me->ch, me->ch + i + 1); prefix[i]++;
	}
	me->done = 1;
}
static void child_redirect(int w) {
	char p[512]; snprintf(p, sizeof p, "%s.%d", errfile.c_str(), w);
	int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
}
inline std::string tail(int w, size_t n = 6000) {
	char p[512]; snprintf(p, sizeof p, "%s.%d", errfile.c_str(), w); FILE *f = fopen(p, "rb"); if (!f) return ""; std::string s; char b[4096]; size_t r; while ((r = fread(b, 1, 4096, f)) > 0) { s.append(b, r); if (s.size() > 4000000) break; } fclose(f); if (s.size() > n) s = s.substr(0, n / 2) + "\n...\n" + s.substr(s.size() - n / 2); return s;
}
inline std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
inline int isdone(int st, Slot *s) { return WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->done; }
inline std::string describe(int st, Slot *s, bool hang) {
	if (s->failed) return s->fail;
	char b[256];
	if (hang) snprintf(b, sizeof b, "execution does not terminate (no progress within the time limit)");
	else if (WIFSIGNALED(st)) snprintf(b, sizeof b, "execution killed by signal %d", WTERMSIG(st));
	else snprintf(b, sizeof b, "execution ended by unexpected exit(%d)", WEXITSTATUS(st));
	return b;
}
inline void emit(const std::string &extra) {
	std::string o = "{\"sections\":["; uint64_t c = 0, t = 0, st = 0, oc = 0;
	for (size_t i = 0; i < sections.size(); ++i) { Section &s = sections[i]; char b[512]; snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%lu,\"transitions\":%lu,\"secs\":%.2f}", i ? "," : "", s.name.c_str(), s.cases, s.trans, s.secs); o += b; c += s.cases; t += s.trans; }
	st = tab->count; oc = otab->count; for (int w = 0; w < nworkers; ++w) st += slots[w].pts;
	char b[512]; snprintf(b, sizeof b, "],\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,\"states_capped\":%s,\"outcomes\":%lu,\"samples\":[", c, t, st, (tab->full || otab->full) ? "true" : "false", oc); o += b;
	int k = 0; for (int w = 0; w < nworkers; ++w) for (int i = 0; i < slots[w].nsamp && k < 6; ++i) { o += k++ ? ",\"" : "\""; o += jesc(slots[w].samp[i]) + "\""; }
	o += "]" + extra + "}\n";
	FILE *f = fopen(outfile.c_str(), "w"); fputs(o.c_str(), f); fclose(f);
}
inline void report(const std::string &sec, const std::vector<uint16_t> &ch, const std::string &nt, const std::string &why, const std::string &out, const std::string &how) {
	std::string cs; for (auto c : ch) { cs += (cs.empty() ? "" : ",") + std::to_string(c); }
	emit(",\"violation\":{\"section\":\"" + jesc(sec) + "\",\"choices\":[" + cs + "],\"case\":\"" + jesc(nt) + "\",\"why\":\"" + jesc(why) + "\",\"output\":\"" + jesc(out) + "\",\"replayed\":\"" + how + "\"}");
	fprintf(stderr, "[%s/%s] %s\n  case: %s\n  why: %s\n", prop_id.c_str(), sec.c_str(), how.c_str(), nt.c_str(), why.c_str());
	_exit(1);
}
struct Opt { int depth = 1, devs = 0; double limit = 60; bool isolate = false; };
// wait for pid with a no-progress limit; returns wait status, sets hang
inline int watch(std::vector<pid_t> &pids, std::vector<int> &sts, std::vector<char> &hang, double limit, bool stop_on_bad) {
	size_t n = pids.size(); std::vector<uint64_t> lb(n, 0); std::vector<double> lt(n, now()), lc(n, 0); size_t left = n; int bad = -1;
	std::vector<char> fin(n, 0);
	while (left) {
		bool any = false;
		for (size_t i = 0; i < n; ++i) if (!fin[i]) {
			int st; pid_t r = waitpid(pids[i], &st, WNOHANG);
			if (r == pids[i]) { fin[i] = 1; sts[i] = st; --left; any = true; if (bad < 0 && !isdone(st, &slots[i])) { bad = (int)i; } continue; }
			uint64_t b = slots[i].beat; if (b != lb[i]) { lb[i] = b; lt[i] = now(); }
			else if (now() - lt[i] > limit) { hang[i] = 1; kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); sts[i] = st; fin[i] = 1; --left; if (bad < 0) bad = (int)i; }
		}
		if (bad >= 0 && stop_on_bad) { for (size_t i = 0; i < n; ++i) if (!fin[i]) { kill(pids[i], SIGKILL); int st; waitpid(pids[i], &st, 0); fin[i] = 1; --left; sts[i] = -1; } return bad; }
		if (!any) usleep(3000);
	}
	return bad;
}
static std::vector<std::function<void()>> at_child;      // run in each worker before exploring
inline void explore(const char *name, Opt o, Body body) {
	if (!only.empty() && std::string(name).find(only) == std::string::npos) return;
	double t0 = now(); double limit = o.limit; shard_depth = o.depth; isolated = o.isolate;
	if (!replay_section.empty()) {
		if (replay_section != name) return;
		replay_found = true; replaying = 1; me = &slots[0]; prefix = replay_ch; begin_case(); dev_left = o.devs; me->failed = 0; worker = 0;
		pid_t p = fork();
		if (!p) { for (auto &f : at_child) f(); body(); printf("case: %s\nno violation in this execution\n", me->note); fflush(stdout); me->done = 1; _exit(0); }
		std::vector<pid_t> ps{p}; std::vector<int> st(1, 0); std::vector<char> hg(1, 0); watch(ps, st, hg, 2 * limit + 30, false);
		if (!isdone(st[0], me)) { printf("case: %s\nVIOLATES: %s\n", me->note, describe(st[0], me, hg[0]).c_str()); _exit(1); }
		_exit(0);
	}
	uint64_t c0 = 0, tr0 = 0; for (int w = 0; w < nworkers; ++w) { c0 += slots[w].cases; tr0 += slots[w].trans; }
	std::vector<pid_t> pids(nworkers); std::vector<int> sts(nworkers, 0); std::vector<char> hang(nworkers, 0);
	fflush(stdout); fflush(stderr);
	for (int w = 0; w < nworkers; ++w) {
		slots[w].done = 0;
		pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
		if (!p) { worker = w; me = &slots[w]; child_redirect(w); for (auto &f : at_child) f(); run_shard(body, o.devs, -1); fflush(stdout); fflush(stderr); _exit(0); }
		pids[w] = p;
	}
	int bad = watch(pids, sts, hang, limit, true);
	{ uint64_t c = 0, tr = 0; for (int w = 0; w < nworkers; ++w) { c += slots[w].cases; tr += slots[w].trans; } sections.push_back({name, c - c0, tr - tr0, 0, 0, now() - t0}); }
	if (bad < 0) return;
	// ---- replay before report
	Slot *s = &slots[bad]; std::vector<uint16_t> ch(s->ch, s->ch + s->nch); std::string nt(s->note), why = describe(sts[bad], s, hang[bad]), out = tail(bad); uint64_t caseno = s->caseno;
	if (WIFEXITED(sts[bad]) && WEXITSTATUS(sts[bad]) == 78 && !hang[bad]) { fprintf(stderr, "mc: nondeterministic replay in %s\n%s\n", name, out.c_str()); _exit(2); }
	bool verdict = s->failed && !hang[bad] && !strstr(s->fail, "killed by signal 9");      // the oracle spoke, as opposed to a time limit or a killed process
	for (int rep = 0; rep < (verdict ? 6 : 1); ++rep) for (int mode = 1; mode <= 2; ++mode) {
		s->done = 0; s->failed = 0;
		pid_t p = fork();
		if (!p) {
			worker = bad; me = s; child_redirect(bad); replaying = mode; for (auto &f : at_child) f();
			if (mode == 1) { prefix = ch; begin_case(); dev_left = o.devs; body(); me->done = 1; _exit(0); }
			run_shard(body, o.devs, (int64_t)caseno); _exit(0);
		}
		std::vector<pid_t> ps{p}; std::vector<int> st(1, 0); std::vector<char> hg(1, 0);
		Slot *save = slots; slots = s; watch(ps, st, hg, 2 * limit + 30, false); slots = save;
		if (!isdone(st[0], s)) report(name, std::vector<uint16_t>(s->ch, s->ch + s->nch), s->note, describe(st[0], s, hg[0]), tail(bad), mode == 1 ? "replayed alone" : "replayed after the same history of executions");
	}
	if (verdict) {      // depends on something outside the choices (uninitialised memory, say): a violation if the whole exploration fails again
		for (int w = 0; w < nworkers; ++w) {
			slots[w].done = 0; slots[w].failed = 0;
			pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); }
			if (!p) { worker = w; me = &slots[w]; child_redirect(w); for (auto &f : at_child) f(); run_shard(body, o.devs, -1); fflush(stdout); fflush(stderr); _exit(0); }
			pids[w] = p; sts[w] = 0; hang[w] = 0;
		}
		int again = watch(pids, sts, hang, limit, true);
		if (again >= 0 && slots[again].failed && !hang[again]) { Slot *q = &slots[again]; report(name, std::vector<uint16_t>(q->ch, q->ch + q->nch), q->note, describe(sts[again], q, hang[again]), tail(again), "not a function of the explored choices: fails in repeated explorations, not always in the same execution"); }
	}
	fprintf(stderr, "mc: failure in %s did not reproduce: %s\n case: %s\n%s\n", name, why.c_str(), nt.c_str(), out.c_str());
	emit(",\"unreproduced\":\"" + jesc(why) + "\""); _exit(2);
}
inline void init(int argc, char **argv, const char *id) {
	prop_id = id; outfile = "/dev/null"; errfile = "/tmp/mc_err";
	mallopt(M_PERTURB, 0x5a);      // memory that was never written is the same garbage in every run, never zero
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--out") outfile = argv[++i];
		else if (a == "--err") errfile = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--workers") nworkers = atoi(argv[++i]);
		else if (a == "--replay") { replay_section = argv[++i]; if (i + 1 < argc) { char *p = argv[++i]; while (*p) { replay_ch.push_back((uint16_t)strtol(p, &p, 10)); if (*p == ',') ++p; else break; } } }
	}
	slots = (Slot *)mmap(0, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	tab = (Table *)mmap(0, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	otab = (Table *)mmap(0, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (slots == MAP_FAILED || tab == MAP_FAILED || otab == MAP_FAILED) { perror("mmap"); exit(2); }
	me = &slots[0];
	signal(SIGPIPE, SIG_IGN);
}
inline int finish() {
	if (!replay_section.empty()) { fprintf(stderr, "no section %s\n", replay_section.c_str()); _exit(2); }
	emit("");
	for (auto &s : sections) fprintf(stderr, "  %-40s executions %-10lu transitions %-12lu %.1fs\n", s.name.c_str(), s.cases, s.trans, s.secs);
	unsigned long st = tab->count; for (int w = 0; w < nworkers; ++w) st += slots[w].pts;
	fprintf(stderr, "  states %lu outcomes %lu\n", st, (unsigned long)otab->count);
	fflush(stderr); _exit(0);
}
}
#define MC_MAIN(ID) static void mc_body(); int main(int argc, char **argv) { mc::init(argc, argv, ID); mc_body(); return mc::finish(); } static void mc_body()
