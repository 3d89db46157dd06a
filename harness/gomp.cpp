// OpenMP runtime of the concurrency checks: the entry points gcc emits, on
// plain threads, so that ThreadSanitizer sees every synchronisation and the
// harness decides team size and interleaving.
//   free:       threads run at once, with random pauses at the yield points
//   controlled: one thread runs at a time; who goes on is drawn at every
//               yield point (any function entry of the code under test)
#include "gomp.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>

Sched SCH;

struct Team {
    int n = 1;
    std::mutex mu;
    std::condition_variable cv;
    // barrier
    int waiting = 0;
    long gen = 0;
    // work sharing
    struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int sections = 0, next_section = 0; int arrived = 0; };
    std::map<long, WS> ws;
    // controlled mode
    int turn = -1;
    std::vector<int> runnable;
    uint64_t rs = 1;
};
static thread_local Team *T = nullptr;
static thread_local int tid = 0;
static thread_local long ws_no = 0, cur_ws = 0, single_no = 0;
static thread_local uint64_t trs = 1;
static std::mutex g_crit, g_atomic, g_named_mu;
static int g_threads = 1;

static uint64_t nxt(uint64_t &s) { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }

static void pick_turn(Team *t)
{
    if (t->runnable.empty()) { t->turn = -1; return; }
    t->turn = t->runnable[nxt(t->rs) % t->runnable.size()];
    SCH.trace.add((uint64_t) t->turn);
    SCH.switches++;
}
void sched_yield_point()
{
    Team *t = T;
    if (!t || t->n < 2) return;
    if (SCH.controlled) {
        if (nxt(t->rs) % 10000 >= (uint64_t) SCH.p_switch) return; // only the thread whose turn it is gets here
        std::unique_lock<std::mutex> l(t->mu);
        pick_turn(t);
        if (t->turn == tid) return;
        t->cv.notify_all();
        t->cv.wait(l, [&] { return t->turn == tid; });
    } else {
        const uint64_t k = nxt(trs) % 4096;
        if (k < 20) sched_yield();
        else if (k < 26) for (volatile int i = 0; i < 2000; ++i) {}
    }
}
static void leave(Team *t)
{
    if (!SCH.controlled) return;
    std::unique_lock<std::mutex> l(t->mu);
    t->runnable.erase(std::find(t->runnable.begin(), t->runnable.end(), tid));
    pick_turn(t);
    t->cv.notify_all();
}
struct Arg { Team *t; int id; void (*fn)(void *); void *data; uint64_t seed; };
static void body(Arg *a)
{
    T = a->t;
    tid = a->id;
    ws_no = cur_ws = single_no = 0;
    trs = a->seed;
    if (SCH.controlled) {
        std::unique_lock<std::mutex> l(T->mu);
        T->cv.wait(l, [&] { return T->turn == tid; });
    } else if (nxt(trs) % 3 == 0) { // late start
        for (volatile int i = 0, n = (int) (nxt(trs) % 20000); i < n; ++i) {}
    }
    a->fn(a->data);
    leave(T);
}
static void *entry(void *p) { body((Arg *) p); return nullptr; }

static void parallel(void (*fn)(void *), void *data, unsigned num)
{
    int n = num ? (int) num : SCH.team > 0 ? SCH.team : g_threads;
    if (num > 1 && SCH.team > 0) n = SCH.team;
    if (T && T->n > 1) n = 1; // nested regions are run by their own thread
    const bool outer = !T;
    if (outer) SCH.regions++;
    Team team;
    team.n = n;
    team.rs = nxt(SCH.rs);
    Team *old = T;
    const int old_tid = tid;
    const long o1 = ws_no, o2 = cur_ws, o3 = single_no;
    if (n == 1) {
        T = &team; tid = 0; ws_no = cur_ws = single_no = 0;
        fn(data);
    } else {
        if (outer) SCH.parallel_regions++;
        std::vector<Arg> a(n);
        std::vector<pthread_t> th(n);
        for (int i = 0; i < n; ++i) { a[i] = Arg{ &team, i, fn, data, nxt(SCH.rs) }; team.runnable.push_back(i); }
        if (SCH.controlled) pick_turn(&team);
        for (int i = 1; i < n; ++i) pthread_create(&th[i], nullptr, entry, &a[i]);
        body(&a[0]);
        for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
    }
    T = old; tid = old_tid; ws_no = o1; cur_ws = o2; single_no = o3;
}
static void barrier()
{
    Team *t = T;
    if (!t || t->n < 2) return;
    std::unique_lock<std::mutex> l(t->mu);
    const long g = t->gen;
    if (SCH.controlled) t->runnable.erase(std::find(t->runnable.begin(), t->runnable.end(), tid));
    if (++t->waiting == t->n) {
        t->waiting = 0;
        t->gen++;
        if (SCH.controlled) {
            for (int i = 0; i < t->n; ++i) t->runnable.push_back(i);
            pick_turn(t);
        }
        t->cv.notify_all();
    } else if (SCH.controlled) {
        pick_turn(t);
        t->cv.notify_all();
    }
    t->cv.wait(l, [&] { return t->gen != g && (!SCH.controlled || t->turn == tid); });
}
// in controlled mode a lock is taken by waiting for one's turn
static void lock(std::mutex &m)
{
    if (!SCH.controlled || !T || T->n < 2) { m.lock(); return; }
    while (!m.try_lock()) {
        Team *t = T;
        std::unique_lock<std::mutex> l(t->mu);
        pick_turn(t);
        if (t->turn == tid) continue;
        t->cv.notify_all();
        t->cv.wait(l, [&] { return t->turn == tid; });
    }
}
// work sharing: one record per construct met
static Team::WS &ws_enter(long start, long end, long incr, long chunk)
{
    static Team solo;
    Team *t = T ? T : &solo;
    cur_ws = ++ws_no;
    Team::WS &w = t->ws[cur_ws];
    if (!w.init) { w.init = true; w.next = start; w.end = end; w.incr = incr; w.chunk = chunk < 1 ? 1 : chunk; }
    return w;
}
static bool ws_take(Team::WS &w, long *s, long *e)
{
    const long left = w.incr > 0 ? w.end - w.next : w.next - w.end;
    if (left <= 0) return false;
    *s = w.next;
    long to = w.next + w.incr * w.chunk;
    if (w.incr > 0 ? to > w.end : to < w.end) to = w.end;
    *e = to;
    w.next = to;
    return true;
}
static bool loop_start(long a, long b, long i, long c, long *s, long *e)
{
    sched_yield_point();
    if (!T) { *s = a; *e = b; return i > 0 ? a < b : a > b; }
    std::unique_lock<std::mutex> l(T->mu);
    return ws_take(ws_enter(a, b, i, c), s, e);
}
static bool loop_next(long *s, long *e)
{
    sched_yield_point();
    if (!T) return false;
    std::unique_lock<std::mutex> l(T->mu);
    return ws_take(T->ws[cur_ws], s, e);
}
struct LoopArg { void (*fn)(void *); void *data; long a, b, i, c; };
static void ploop_body(void *p)
{
    LoopArg *l = (LoopArg *) p;
    // the body calls GOMP_loop_*_next; the record must exist beforehand
    { std::unique_lock<std::mutex> k(T->mu); ws_enter(l->a, l->b, l->i, l->c); }
    l->fn(l->data);
}
static void ploop(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c)
{
    LoopArg l = { fn, data, a, b, i, c };
    parallel(ploop_body, &l, n);
}

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); return n; }
#define PLOOP(K) \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, long c, unsigned) { ploop(fn, data, n, a, b, i, c); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) \
    void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned n, long a, long b, long i, unsigned) { ploop(fn, data, n, a, b, i, 1); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(K) \
    bool GOMP_loop_##K##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
    bool GOMP_loop_##K##_next(long *s, long *e) { return loop_next(s, e); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(ordered_static) LOOP(ordered_dynamic) LOOP(ordered_guided)
#define LOOPR(K) \
    bool GOMP_loop_##K##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); } \
    bool GOMP_loop_##K##_next(long *s, long *e) { return loop_next(s, e); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
void GOMP_barrier(void) { barrier(); }
void GOMP_taskwait(void) {}
void GOMP_critical_start(void) { sched_yield_point(); lock(g_crit); }
void GOMP_critical_end(void) { g_crit.unlock(); }
void GOMP_critical_name_start(void **p)
{
    std::mutex *m;
    {
        std::lock_guard<std::mutex> l(g_named_mu);
        if (!*p) *p = new std::mutex;
        m = (std::mutex *) *p;
    }
    sched_yield_point();
    lock(*m);
}
void GOMP_critical_name_end(void **p) { ((std::mutex *) *p)->unlock(); }
void GOMP_atomic_start(void) { lock(g_atomic); }
void GOMP_atomic_end(void) { g_atomic.unlock(); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
bool GOMP_single_start(void)
{
    if (!T) return true;
    std::unique_lock<std::mutex> l(T->mu);
    return T->ws[-(++single_no)].arrived++ == 0;
}
unsigned GOMP_sections_start(unsigned n)
{
    if (!T) return n ? 1 : 0;
    std::unique_lock<std::mutex> l(T->mu);
    Team::WS &w = ws_enter(0, 0, 1, 1);
    w.sections = (int) n;
    return w.next_section < w.sections ? (unsigned) ++w.next_section : 0;
}
unsigned GOMP_sections_next(void)
{
    if (!T) return 0;
    std::unique_lock<std::mutex> l(T->mu);
    Team::WS &w = T->ws[cur_ws];
    return w.next_section < w.sections ? (unsigned) ++w.next_section : 0;
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
// tasks are run by the thread that meets them
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
    if (!cpy) { fn(data); return; }
    std::vector<char> b((size_t) size + (size_t) align);
    char *p = (char *) (((uintptr_t) b.data() + (uintptr_t) align - 1) / (uintptr_t) align * (uintptr_t) align);
    cpy(p, data);
    fn(p);
}
int omp_get_num_threads(void) { return T ? T->n : 1; }
int omp_get_thread_num(void) { return T ? tid : 0; }
int omp_get_max_threads(void) { return SCH.team > 0 ? SCH.team : g_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return T && T->n > 1; }
int omp_get_level(void) { return T ? 1 : 0; }
int omp_get_thread_limit(void) { return 64; }
void omp_set_num_threads(int n) { if (!omp_in_parallel()) g_threads = n < 1 ? 1 : n > 16 ? 16 : n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_schedule(omp_sched_t, int) {}
double omp_get_wtime(void) { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::map<void *, std::mutex *> g_locks;
static std::mutex *lock_of(void *p)
{
    std::lock_guard<std::mutex> l(g_named_mu);
    std::mutex *&m = g_locks[p];
    if (!m) m = new std::mutex;
    return m;
}
void omp_init_lock(omp_lock_t *l) { lock_of(l); }
void omp_destroy_lock(omp_lock_t *) {}
void omp_set_lock(omp_lock_t *l) { sched_yield_point(); lock(*lock_of(l)); }
void omp_unset_lock(omp_lock_t *l) { lock_of(l)->unlock(); }
int omp_test_lock(omp_lock_t *l) { return lock_of(l)->try_lock(); }
void __cyg_profile_func_enter(void *, void *) { sched_yield_point(); }
void __cyg_profile_func_exit(void *, void *) {}
}
