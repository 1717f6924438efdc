/* A deterministic OpenMP runtime in which the threads of a team are coroutines of one OS thread, and an
 * implementation of the callbacks that -fsanitize=thread instrumentation inserts before every memory access.
 * Together they let a harness choose the interleaving of racing code at the granularity of single memory
 * accesses and log every shared access with its value. Not linked with libgomp or libtsan. */
#include "shim.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <deque>
#include <memory>
#include <unordered_map>

extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" int __real_posix_memalign(void**, size_t, size_t);

namespace shim {

std::vector<Ev> events;
std::vector<Blk> blocks;

static int g_nthreads = 1, g_policy = 0, g_param = 0;
static uint64_t g_rng = 1;
static std::vector<int> g_script; static size_t g_sp = 0; static int g_sleft = 0;
static bool g_log = false, g_active = false;
static int g_maxteam = 1, g_regions = 0; static bool g_dead = false;
static long g_yields = 0;
struct Rng { const char *a, *b; size_t g; };
static std::vector<Rng> g_watch;

static inline uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

struct Loop { long next, end, incr, chunk; bool up; int arrived; bool guided; unsigned long long unext; };
struct Team;
struct Co {
	ucontext_t uc; char *stk; size_t stksz; int tid; bool done, waiting; unsigned wsidx, sgidx; int prio;
	void (*fn)(void*); void *data; Team *team;
	// pending write
	const char *pw; int pwsz; char pwk; 
	const void *lockwait; bool spin;
	std::unordered_map<uint64_t,int> *groups; uint64_t lastw;
	uint64_t wkey, wmask;           // dense block being written and the entries written so far
};
struct Team { int n; std::vector<Co*> co; std::deque<Loop> ws; std::vector<char> singles; std::vector<void*> cpp; ucontext_t main; int bar; Co *cur; std::vector<long> pct; long steps; std::vector<long> sectnext; void *copyptr; Team *outer; };
static Team *T = nullptr;         // current team
// the outermost team: nested regions run inline in the thread that meets them, but its switches go on
static inline Team *root() { Team *t = T; while(t && t->outer) t = t->outer; return t; }
static inline bool several() { Team *t = root(); return t && t->cur && t->n > 1; }
struct Lk { const void *id; Co *owner; };
static std::vector<Lk> g_locks;
static Co *lock_owner(const void *id) { for(auto& l : g_locks) if(l.id == id) return l.owner; return nullptr; }
static const size_t STK = 1 << 18;
static std::vector<char*> g_stkpool;

static char *getstk() {
	if(!g_stkpool.empty()) { char *s = g_stkpool.back(); g_stkpool.pop_back(); return s; }
	char *s = (char*)mmap(nullptr, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(s == MAP_FAILED) _exit(96);
	return s;
}

static inline bool watched(const char *p) {
	if(g_watch.empty()) return true;
	for(auto& r : g_watch) if(p >= r.a && p < r.b) return true;
	return false;
}

static inline void logev(char kind, const char *p, int sz) {
	if(!g_log || !watched(p)) return;
	uint64_t v = 0; if(sz <= 8) memcpy(&v, p, sz);
	bool l = g_log; g_log = false;
	events.push_back(Ev{(uint64_t)p, v, (uint32_t)g_regions, (int16_t)(T && T->cur ? root()->cur->tid : -1), (uint8_t)(sz > 255 ? 255 : sz), kind});
	g_log = l;
}

static Co g_maincoro;   // stands for code outside parallel regions (only pending-write bookkeeping)

static inline Co *curco() { return T && T->cur ? T->cur : &g_maincoro; }

static void flushpw(Co *c) {
	if(c->pw) {
		const char *p = c->pw; int n = c->pwsz; c->pw = nullptr;
		while(n > 0) { int s = n > 8 ? 8 : n; logev(c->pwk, p, s); p += s; n -= s; }
	}
}

// leaves the running thread of the outermost team
static void switchout(Team *r) { T = r; swapcontext(&r->cur->uc, &r->main); }
static void reschedule() {         // called inside a coroutine
	Team *t = T, *r = root(); g_yields++;
	switchout(r); T = t;
}

static int g_guard;            // initialising a function-local static: other threads would wait, so do not switch
static bool want_switch() {
	if(g_guard) return false;
	switch(g_policy) {
	case 1: return (int)(rnd() % 1000) < g_param;
	case 2: {
		Team *r = root(); r->steps++;
		for(auto s : r->pct) if(s == r->steps) { r->cur->prio = -(int)r->steps; return true; }
		return false; }
	case 3: return true;
	default: return false;
	}
}

static inline bool onstack(const char *p) {
	if(T && T->cur) return p >= T->cur->stk && p < T->cur->stk + T->cur->stksz;
	// main: treat addresses near the current frame as private
	char x; const char *here = &x;
	return p > here - (1<<16) && p < here + (8u<<20);
}

static inline const Rng *rangeof(const char *p) {
	for(auto& r : g_watch) if(p >= r.a && p < r.b) return &r;
	return nullptr;
}

static void access(const char *p, int sz, char kind) {
	if(!g_active) return;
	Co *c = curco();
	flushpw(c);
	if(onstack(p)) return;
	const Rng *r = rangeof(p);
	// entries of a dense block: switch only before the first of them is read or written in an update
	uint64_t key = r && r->g ? (uint64_t)r->a + (uint64_t)(p - r->a) / r->g * r->g : 0;
	if(several()) {
		bool y = true;
		if(key) { bool l = g_log; g_log = false; y = kind == 'R' ? (*c->groups)[key]++ == 0 : c->lastw != key; g_log = l; }
		if(c->wkey) y = false;
		if(y && want_switch()) reschedule();
	}
	if(key && kind != 'R') {
		if(c->wkey != key) { c->wkey = key; c->wmask = 0; }
		for(int o = 0; o < sz; o += 8) c->wmask |= 1ull << (((uint64_t)p - key + o)/8 % 64);
		if(c->wmask == (r->g >= 512 ? ~0ull : (1ull << r->g/8) - 1)) c->wkey = 0;
	}
	bool l = g_log; g_log = false;
	if(key && kind != 'R' && c->lastw != key) { c->groups->clear(); c->lastw = key; }
	if(key && kind == 'R' && c->lastw != key) c->lastw = 0;
	g_log = l;
	if(kind == 'R') { while(sz > 0) { int s = sz > 8 ? 8 : sz; logev('R', p, s); p += s; sz -= s; } }
	else { c->pw = p; c->pwsz = sz; c->pwk = kind; }
}

// ---- scheduling of a team ----
static Co *pick(Team *t) {
	std::vector<Co*> r;
	for(auto c : t->co) if(!c->done && !c->waiting && !(c->lockwait && lock_owner(c->lockwait))) r.push_back(c);
	if(r.empty()) return nullptr;
	switch(g_policy) {
	case 0: return r.front();
	case 4: return r.back();
	case 1: return r[rnd() % r.size()];
	case 2: { Co *b = r[0]; for(auto c : r) if(c->prio > b->prio) b = c; return b; }
	case 3: { static int rr = 0; return r[(rr++) % r.size()]; }
	case 5: {
		// script: thread ids, one per yield point (work chunk)
		while(g_sp < g_script.size()) {
			int w = g_script[g_sp++];
			for(auto c : r) if(c->tid == w) return c;
		}
		return r.front(); }
	}
	return r.front();
}

static void trampoline(unsigned a, unsigned b) {
	Co *c = (Co*)(((uint64_t)a << 32) | b);
	c->fn(c->data);
	flushpw(c);
	c->done = true;
	swapcontext(&c->uc, &c->team->main);
}

static void runteam(void (*fn)(void*), void *data, unsigned nth, Loop *preloop) {
	g_regions++; if(!T) g_locks.clear();
	bool act = g_active; 
	if(act) flushpw(curco());
	if(T) {             // nested: one thread, executed inline
		Team *o = T; Team nt; nt.n = 1; nt.cur = nullptr; nt.bar = 0; nt.steps = 0; nt.copyptr = nullptr; nt.outer = o;
		Co *c = new Co(); memset((void*)c, 0, sizeof *c); c->stk = o->cur->stk; c->stksz = o->cur->stksz; c->tid = 0; c->team = &nt; c->groups = new std::unordered_map<uint64_t,int>;
		nt.co.push_back(c); nt.cur = c; if(preloop) nt.ws.push_back(*preloop);
		flushpw(o->cur); T = &nt; fn(data); flushpw(c); T = o; delete c->groups; delete c;
		return;
	}
	int n = nth ? (int)nth : g_nthreads;
	if(n > g_maxteam) g_maxteam = n;
	bool l = g_log; g_log = false;
	Team *t = new Team(); t->n = n; t->bar = 0; t->cur = nullptr; t->steps = 0; t->copyptr = nullptr; t->outer = nullptr;
	if(preloop) t->ws.push_back(*preloop);
	for(int i = 0; i < n; i++) {
		Co *c = new Co(); memset((void*)c, 0, sizeof *c);
		c->stk = getstk(); c->stksz = STK; c->tid = i; c->fn = fn; c->data = data; c->team = t; c->groups = new std::unordered_map<uint64_t,int>;
		c->prio = (int)(rnd() % 1000);
		getcontext(&c->uc); c->uc.uc_stack.ss_sp = c->stk; c->uc.uc_stack.ss_size = STK; c->uc.uc_link = nullptr;
		makecontext(&c->uc, (void(*)())trampoline, 2, (unsigned)((uint64_t)c >> 32), (unsigned)(uint64_t)c);
		t->co.push_back(c);
	}
	if(g_policy == 2) for(int k = 0; k < g_param; k++) t->pct.push_back(1 + (long)(rnd() % 400));
	T = t; g_log = l;
	if(g_log) { events.push_back(Ev{0, (uint64_t)n, (uint32_t)g_regions, -1, 0, 'S'}); }
	for(;;) {
		Co *c = pick(t);
		if(!c) {
			// all done, or all live threads wait at a barrier
			int live = 0, wait = 0; for(auto x : t->co) { if(!x->done) live++; if(x->waiting) wait++; }
			if(live == 0) break;
			if(wait == live && live == t->n) { for(auto x : t->co) x->waiting = false; continue; }
			g_dead = true; _exit(77);
		}
		t->cur = c;
		swapcontext(&t->main, &c->uc);
		t->cur = nullptr;
	}
	if(g_log) { events.push_back(Ev{0, (uint64_t)n, (uint32_t)g_regions, -1, 0, 'E'}); }
	T = nullptr;
	g_log = false;
	for(auto c : t->co) { g_stkpool.push_back(c->stk); delete c->groups; delete c; }
	delete t; g_log = l;
}

void configure(int nthreads, int policy, int param, uint64_t seed, const std::vector<int>& script) {
	g_nthreads = nthreads; g_policy = policy; g_param = param; g_rng = seed*0x9E3779B97F4A7C15ull + 0x1234567; if(!g_rng) g_rng = 1;
	for(int k = 0; k < 5; k++) rnd();
	g_script = script; g_sp = 0; g_maxteam = 1; g_regions = 0; g_dead = false; g_yields = 0;
	if(!g_maincoro.groups) g_maincoro.groups = new std::unordered_map<uint64_t,int>;
	g_maincoro.tid = -1; g_maincoro.pw = nullptr;
	g_active = true;
}
void start(bool keepblocks) { events.clear(); events.reserve(1<<16); if(!keepblocks) blocks.clear(); g_maincoro.pw = nullptr; g_log = true; g_active = true; }
void stop() { flushpw(&g_maincoro); g_log = false; }
int threads_started() { return g_maxteam; }
int regions() { return g_regions; }
bool deadlocked() { return g_dead; }
void watch(const void *p, size_t b, size_t g) { bool l = g_log; g_log = false; g_watch.push_back(Rng{(const char*)p, (const char*)p + b, g}); g_log = l; }
void unwatch_all() { g_watch.clear(); }
long yields() { return g_yields; }

static void addblk(void *p, size_t n) {
	if(!g_log || !p) return;
	g_log = false; blocks.push_back(Blk{(uint64_t)p, n, false}); g_log = true;
}
static void delblk(void *p) {
	if(!g_log || !p) return;
	for(auto& b : blocks) if(b.addr == (uint64_t)p) b.freed = true;
}
static inline void chunkpoint() { if(T && T->cur) T->cur->wkey = 0; if(several() && (g_policy == 5 || want_switch())) { flushpw(T->cur); reschedule(); } else if(T && T->cur) flushpw(T->cur); }

static Loop& getws(Co *c, bool& fresh) {
	fresh = T->ws.size() <= c->wsidx;
	if(fresh) { bool l = g_log; g_log = false; T->ws.push_back(Loop()); g_log = l; }
	return T->ws[c->wsidx];
}
static bool nextchunk(Loop& w, long *is, long *ie) {
	chunkpoint();
	if(w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
	long c = w.chunk > 0 ? w.chunk : 1;
	if(w.guided) { long left = (w.end - w.next + w.incr - (w.incr > 0 ? 1 : -1))/w.incr; long q = (left + T->n - 1)/T->n; if(q > c) c = q; }
	long e = w.next + c*w.incr;
	if(w.incr > 0 ? e > w.end : e < w.end) e = w.end;
	*is = w.next; *ie = e; w.next = e;
	return true;
}
static Team g_serial_team;
static Co g_serial_co;
static bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie, bool guided) {
	static Team *st = nullptr; (void)st;
	if(!T) {      // orphaned worksharing outside a parallel region: a team of one, whole range as successive chunks
		if(inc > 0 ? s >= e : s <= e) return false;
		*is = s; *ie = e; return true;
	}
	Co *c = T->cur; bool fresh; 
	getws(c, fresh);
	Loop& w = T->ws[c->wsidx];
	if(fresh) { w = Loop(); w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; w.guided = guided; }
	size_t idx = c->wsidx;
	(void)idx;
	return nextchunk(T->ws[c->wsidx], is, ie);
}
static void barrier() {
	if(!T || T->n == 1) return;
	Co *c = T->cur; flushpw(c); c->waiting = true;
	swapcontext(&c->uc, &T->main);
}

static char g_crit, g_atom;
static void lock(const void *id) {
	if(!several()) return;
	flushpw(T->cur); chunkpoint();
	Team *me = T, *r = root(); Co *c = r->cur;
	while(lock_owner(id)) { c->lockwait = id; switchout(r); T = me; }
	c->lockwait = nullptr;
	bool l = g_log; g_log = false;
	bool f = false; for(auto& k : g_locks) if(k.id == id) { k.owner = c; f = true; }
	if(!f) g_locks.push_back(Lk{id, c});
	g_log = l;
}
static void unlock(const void *id) {
	if(!several()) return;
	flushpw(T->cur);
	for(auto& k : g_locks) if(k.id == id) k.owner = nullptr;
}

} // namespace shim

using namespace shim;
extern "C" {
// ---------------- OpenMP runtime ----------------
void GOMP_parallel(void (*fn)(void*), void *data, unsigned nth, unsigned) { runteam(fn, data, nth, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void *data, unsigned nth, unsigned) { runteam(fn, data, nth, nullptr); return nth ? nth : g_nthreads; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
#define LOOPSTART(NAME, G) bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie, G); }
#define LOOPNEXT(NAME) bool GOMP_loop_##NAME##_next(long *is, long *ie) { if(!T) return false; return nextchunk(T->ws[T->cur->wsidx], is, ie); }
LOOPSTART(dynamic,false) LOOPSTART(nonmonotonic_dynamic,false) LOOPSTART(guided,true) LOOPSTART(nonmonotonic_guided,true) LOOPSTART(static,false)
LOOPNEXT(dynamic) LOOPNEXT(nonmonotonic_dynamic) LOOPNEXT(guided) LOOPNEXT(nonmonotonic_guided) LOOPNEXT(static)
LOOPNEXT(runtime) LOOPNEXT(nonmonotonic_runtime) LOOPNEXT(maybe_nonmonotonic_runtime)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, false); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, false); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie, false); }
void GOMP_loop_end_nowait() { if(T) { flushpw(T->cur); T->cur->wsidx++; } }
void GOMP_loop_end() { if(T) { flushpw(T->cur); T->cur->wsidx++; barrier(); } }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
static void parloop(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, long c, bool g) {
	Loop l = Loop(); l.next = s; l.end = e; l.incr = i; l.chunk = c; l.guided = g; runteam(fn, d, n, &l);
}
#define PARLOOP(NAME, G) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parloop(fn, d, n, s, e, i, c, G); }
PARLOOP(dynamic,false) PARLOOP(nonmonotonic_dynamic,false) PARLOOP(guided,true) PARLOOP(nonmonotonic_guided,true) PARLOOP(static,false)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned) { parloop(fn, d, n, s, e, i, 1, false); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned) { parloop(fn, d, n, s, e, i, 1, false); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned) { parloop(fn, d, n, s, e, i, 1, false); }
// unsigned long long loops (size_t counters)
typedef unsigned long long ull;
static bool ull_start(bool up, ull s, ull e, ull inc, ull chunk, ull *is, ull *ie, bool g) { (void)up; long a, b; bool r = loop_start((long)s, (long)e, (long)inc, (long)chunk, &a, &b, g); *is = (ull)a; *ie = (ull)b; return r; }
static bool ull_next(ull *is, ull *ie) { if(!T) return false; long a, b; bool r = nextchunk(T->ws[T->cur->wsidx], &a, &b); *is = (ull)a; *ie = (ull)b; return r; }
#define ULL(NAME,G) bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return ull_start(up, s, e, i, c, is, ie, G); } \
 bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return ull_next(is, ie); }
ULL(dynamic,false) ULL(nonmonotonic_dynamic,false) ULL(guided,true) ULL(nonmonotonic_guided,true) ULL(static,false)
void GOMP_critical_start() { lock(&g_crit); }
void GOMP_critical_end() { unlock(&g_crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&g_atom); }
void GOMP_atomic_end() { unlock(&g_atom); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock(p); }
void omp_unset_lock(void *p) { unlock(p); }
int omp_test_lock(void *p) { if(lock_owner(p)) return 0; lock(p); return 1; }
void GOMP_ordered_start() { }
void GOMP_ordered_end() { }
bool GOMP_single_start() {
	if(!T) return true;
	Co *c = T->cur; chunkpoint(); unsigned k = c->sgidx++;
	if(T->singles.size() <= k) { bool l = g_log; g_log = false; T->singles.resize(k+1, 0); g_log = l; }
	if(T->singles[k]) return false;
	T->singles[k] = 1; return true;
}
void *GOMP_single_copy_start() { if(!T) return nullptr; if(GOMP_single_start()) return nullptr; barrier(); void *p = T->copyptr; barrier(); return p; }
void GOMP_single_copy_end(void *p) { if(!T) return; T->copyptr = p; barrier(); barrier(); }
unsigned GOMP_sections_start(unsigned n) { long a, b; if(!T) return n ? 1 : 0; bool r = loop_start(1, (long)n+1, 1, 1, &a, &b, false); return r ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; if(!T) return 0; return nextchunk(T->ws[T->cur->wsidx], &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void*), void *d, unsigned n, unsigned cnt, unsigned) { parloop(fn, d, n, 1, (long)cnt+1, 1, 1, false); }
void GOMP_task(void (*fn)(void*), void *data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
	if(cpy) { char *b = (char*)__real_malloc(size + align); char *a = (char*)(((uint64_t)b + align - 1) & ~(uint64_t)(align-1)); cpy(a, data); fn(a); __real_free(b); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return T && T->cur ? T->cur->tid : 0; }
int omp_get_num_threads() { return T ? T->n : 1; }
int omp_get_max_threads() { return g_nthreads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return T && T->n > 1; }
void omp_set_num_threads(int n) { g_nthreads = n; }
int omp_get_level() { return T ? 1 : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 1024; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }

// ---------------- access callbacks ----------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
 void __tsan_read##N(void *p) { access((const char*)p, N, 'R'); } \
 void __tsan_write##N(void *p) { access((const char*)p, N, 'W'); } \
 void __tsan_volatile_read##N(void *p) { access((const char*)p, N, 'R'); } \
 void __tsan_volatile_write##N(void *p) { access((const char*)p, N, 'W'); } \
 void __tsan_unaligned_read##N(void *p) { access((const char*)p, N, 'R'); } \
 void __tsan_unaligned_write##N(void *p) { access((const char*)p, N, 'W'); } \
 void __tsan_read##N##_pc(void *p, void*) { access((const char*)p, N, 'R'); } \
 void __tsan_write##N##_pc(void *p, void*) { access((const char*)p, N, 'W'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((const char*)p, (int)n, 'R'); }
void __tsan_write_range(void *p, size_t n) { access((const char*)p, (int)n, 'W'); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define ATOM(N, TY) \
 TY __tsan_atomic##N##_load(const volatile TY *p, int) { access((const char*)p, N/8, 'R'); return *p; } \
 void __tsan_atomic##N##_store(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); *p = v; } \
 TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); TY o = *p; *p = v; return o; } \
 TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); TY o = *p; *p = o + v; return o; } \
 TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); TY o = *p; *p = o - v; return o; } \
 TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); TY o = *p; *p = o & v; return o; } \
 TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); TY o = *p; *p = o | v; return o; } \
 TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int) { access((const char*)p, N/8, 'A'); TY o = *p; *p = o ^ v; return o; } \
 bool __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int, int) { access((const char*)p, N/8, 'A'); if(*p == *c) { *p = v; return true; } *c = *p; return false; } \
 bool __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int a, int b) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, a, b); } \
 TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY c, TY v, int, int) { access((const char*)p, N/8, 'A'); TY o = *p; if(o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------------- heap and block copies ----------------
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); addblk(p, n); return p; }
void __wrap_free(void *p) { delblk(p); __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if(!r) addblk(*p, n); return r; }
void *__real_memcpy(void*, const void*, size_t);
void *__real_memmove(void*, const void*, size_t);
void *__real_memset(void*, int, size_t);
static void cp(void *d, const void *s, size_t n) {
	// element by element so that other threads may observe intermediate states, as they could of a real copy
	for(size_t o = 0; o < n; o += 8) { int k = n - o < 8 ? (int)(n-o) : 8; access((const char*)s + o, k, 'R'); access((const char*)d + o, k, 'W'); __real_memmove((char*)d + o, (const char*)s + o, k); }
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { if(g_active && T && T->cur) { cp(d, s, n); return d; } if(g_active && g_log && n) { access((const char*)s, (int)n, 'R'); access((const char*)d, (int)n, 'W'); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if(g_active && g_log && n) { access((const char*)s, (int)n, 'R'); access((const char*)d, (int)n, 'W'); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if(g_active && g_log && n) access((const char*)d, (int)n, 'W'); return __real_memset(d, c, n); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if(!p) abort(); addblk(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { delblk(p); __real_free(p); }
void operator delete[](void *p) noexcept { delblk(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { delblk(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { delblk(p); __real_free(p); }
extern "C" int __cxa_guard_acquire(char *g) { if(*g) return 0; g_guard++; return 1; }
extern "C" void __cxa_guard_release(char *g) { *g = 1; g_guard--; }
extern "C" void __cxa_guard_abort(char *) { g_guard--; }
