// Cooperative scheduler for the "sched" build variant: real threads, of which exactly one runs at a time.  The library is
// compiled with -fsanitize-coverage=trace-loads,trace-stores,trace-pc, so every memory access of the library is a point
// where the running thread can be preempted; where and in favour of whom is drawn from the tape.  HT_Mutex is implemented
// here (documented extension point HT_MUTEX_IMPL_CUSTOM) and pthread mutexes / once / guards that block for real are
// recovered from by a watchdog, so the schedule search does not depend on which lock the library uses.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include "pbt.hpp"
#include <pthread.h>
#include <time.h>
#include <atomic>
#include <new>
#include <hawktracer/alloc.h>
#include <hawktracer/monotonic_clock.h>
#include <internal/mutex.h>

namespace sched {

struct Thr
{
    int idx = 0; pthread_t tid; std::function<void()> body;
    enum St { READY, BLOCKED, EXTERNAL, DONE } st = READY;
    const void* waits = nullptr;
    int fin_rounds = 0;
    bool in_sched = false;
};

static pthread_mutex_t g_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_c = PTHREAD_COND_INITIALIZER;
static std::vector<Thr*> g_thr;
static Thr* g_run = nullptr;                    // baton
static std::atomic<uint64_t> g_steps{0}, g_progress{0};
static uint64_t g_next = 0;                     // step of the next preemption (0: none)
static uint64_t g_switches = 0, g_preempt_budget = 0;
static pbt::Tape* g_tape = nullptr;
static bool g_on = false;
static uint64_t g_clock = 1000;
static thread_local Thr* t_self = nullptr;
static pthread_key_t g_key;
static bool g_key_made = false;
static bool g_external_seen = false;

static void draw_gap()
{
    if (!g_preempt_budget) { g_next = 0; return; }
    g_preempt_budget--;
    uint64_t gap;
    switch (g_tape->weighted({4, 4, 3, 1}))
    {
    case 0: gap = g_tape->draw(12); break;
    case 1: gap = g_tape->draw(60); break;
    case 2: gap = g_tape->draw(400); break;
    default: gap = g_tape->draw(2500); break;
    }
    g_next = g_steps.load(std::memory_order_relaxed) + 1 + gap;
}
// g_m held; picks the next thread to run among the ready ones (other than avoid if possible)
static Thr* pick_next(Thr* avoid)
{
    std::vector<Thr*> r; for (Thr* x : g_thr) if (x->st == Thr::READY && x != avoid) r.push_back(x);
    if (r.empty()) return avoid && avoid->st == Thr::READY ? avoid : nullptr;
    if (r.size() == 1) return r[0];
    return r[g_tape->draw(r.size() - 1)];
}
static void hand_over(Thr* to)
{
    g_run = to; g_switches++;
    draw_gap();
    pthread_cond_broadcast(&g_c);
}
[[noreturn]] static void deadlock()
{
    std::string s;
    for (Thr* x : g_thr) if (x->st == Thr::BLOCKED) s += pbt::fmt(" thread %d waits for a mutex;", x->idx);
    pbt::fail("deadlock", "no thread can continue:" + s);
}
// g_m held; waits until this thread has the baton
static void wait_turn(Thr* self)
{
    uint64_t last = ~0ULL; int still = 0;
    while (g_run != self)
    {
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 50 * 1000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
        if (pthread_cond_timedwait(&g_c, &g_m, &ts) == 0) { still = 0; continue; }
        uint64_t s = g_steps.load(std::memory_order_relaxed) + g_progress.load(std::memory_order_relaxed);
        if (s != last) { last = s; still = 0; continue; }
        if (++still < 8 || !g_run || self->st != Thr::READY) continue;
        // the running thread does not reach any point of the library: blocked in the system
        g_run->st = Thr::EXTERNAL; g_external_seen = true;
        Thr* n = pick_next(g_run); if (n) hand_over(n);
        still = 0;
    }
}
static void point_slow(Thr* self)
{
    pthread_mutex_lock(&g_m);
    if (self->st == Thr::EXTERNAL) { self->st = Thr::READY; if (!g_run || g_run->st != Thr::READY) g_run = self; wait_turn(self); pthread_mutex_unlock(&g_m); return; }
    Thr* n = pick_next(self);
    if (n && n != self) { hand_over(n); wait_turn(self); }
    else draw_gap();
    pthread_mutex_unlock(&g_m);
}
static inline void point()
{
    Thr* self = t_self;
    if (!self || !g_on || self->in_sched) return;
    uint64_t s = g_steps.fetch_add(1, std::memory_order_relaxed) + 1;
    if ((g_next && s >= g_next) || self->st == Thr::EXTERNAL || g_run != self)
    {
        self->in_sched = true; int e = errno;
        if (g_run != self && self->st != Thr::EXTERNAL) { pthread_mutex_lock(&g_m); if (g_run != self) wait_turn(self); pthread_mutex_unlock(&g_m); }
        else point_slow(self);
        errno = e; self->in_sched = false;
    }
}
// Points inside loops are thinned out: a thread's first visits of a code address count, later ones only now and then, so
// that preemptions spread over the code and not over the iterations of long loops.
struct Visits { uintptr_t pc; unsigned n; };
static thread_local Visits t_visits[1024];
static inline void point_at(void* pc)
{
    if (!t_self || !g_on || t_self->in_sched) return;
    Visits& v = t_visits[((uintptr_t)pc * 0x9E3779B97F4A7C15ULL) >> 54];
    if (v.pc != (uintptr_t)pc) { v.pc = (uintptr_t)pc; v.n = 0; }
    if (++v.n > 16 && v.n % 64) { if (g_run == t_self) { g_progress.fetch_add(1, std::memory_order_relaxed); return; } }
    point();
}
// blocks the calling thread until cond() holds; cond is evaluated while holding the baton
template<typename F> static void block_until(const void* what, F cond)
{
    Thr* self = t_self;
    while (!cond())
    {
        if (!self || !g_on) { pbt::fail("deadlock", "a mutex is still locked although no other thread is running"); }
        self->in_sched = true;
        pthread_mutex_lock(&g_m);
        self->st = Thr::BLOCKED; self->waits = what;
        Thr* n = pick_next(nullptr);
        if (!n) { bool ext = false; for (Thr* x : g_thr) ext |= x->st == Thr::EXTERNAL; if (!ext) deadlock(); g_run = nullptr; }
        else hand_over(n);
        wait_turn(self);
        pthread_mutex_unlock(&g_m);
        self->in_sched = false;
    }
}
static void wake(const void* what)
{
    bool lock = t_self && g_on;
    if (lock) pthread_mutex_lock(&g_m);
    for (Thr* x : g_thr) if (x->st == Thr::BLOCKED && x->waits == what) { x->st = Thr::READY; x->waits = nullptr; }
    if (lock) pthread_mutex_unlock(&g_m);
}
static void finish(void* p)
{
    Thr* self = (Thr*)p;
    if (++self->fin_rounds < 4) { pthread_setspecific(g_key, self); return; }   // after all other thread-exit handlers
    pthread_mutex_lock(&g_m);
    self->in_sched = true;
    self->st = Thr::DONE;
    if (g_run == self)
    {
        Thr* n = pick_next(nullptr);
        if (n) hand_over(n);
        else { g_run = nullptr; bool blocked = false, ext = false; for (Thr* x : g_thr) { blocked |= x->st == Thr::BLOCKED; ext |= x->st == Thr::EXTERNAL; } if (blocked && !ext) deadlock(); }
    }
    t_self = nullptr;
    pthread_mutex_unlock(&g_m);
}
static void* entry(void* p)
{
    Thr* self = (Thr*)p;
    t_self = self; self->in_sched = true;
    pthread_setspecific(g_key, self);
    pthread_mutex_lock(&g_m);
    wait_turn(self);
    pthread_mutex_unlock(&g_m);
    self->in_sched = false;
    self->body();
    return nullptr;
}
// Runs the bodies as threads under a schedule drawn from the tape; returns when all have exited (thread-exit handlers included).
static void run(pbt::Tape& t, const std::vector<std::function<void()>>& bodies, uint64_t preemptions)
{
    if (!g_key_made) { pthread_key_create(&g_key, finish); g_key_made = true; }
    g_tape = &t; g_thr.clear(); g_steps = 0; g_switches = 0; g_preempt_budget = preemptions;
    for (size_t i = 0; i < bodies.size(); i++) { Thr* x = new Thr; x->idx = (int)i; x->body = bodies[i]; g_thr.push_back(x); }
    pthread_mutex_lock(&g_m);
    g_on = true; g_run = nullptr;
    for (Thr* x : g_thr) { x->st = Thr::READY; if (pthread_create(&x->tid, nullptr, entry, x)) pbt::broken("pthread_create failed"); }
    Thr* first = pick_next(nullptr);
    hand_over(first);
    pthread_mutex_unlock(&g_m);
    for (Thr* x : g_thr) pthread_join(x->tid, nullptr);
    g_on = false;
}

} // namespace sched

// --- instrumentation callbacks and extension points of the library -------------------------------------------------
extern "C" {
#define SCHED_CB_(n) __attribute__((no_sanitize("address"))) void n(void*) { sched::point_at(__builtin_return_address(0)); }
SCHED_CB_(__sanitizer_cov_load1) SCHED_CB_(__sanitizer_cov_load2) SCHED_CB_(__sanitizer_cov_load4) SCHED_CB_(__sanitizer_cov_load8) SCHED_CB_(__sanitizer_cov_load16)
SCHED_CB_(__sanitizer_cov_store1) SCHED_CB_(__sanitizer_cov_store2) SCHED_CB_(__sanitizer_cov_store4) SCHED_CB_(__sanitizer_cov_store8) SCHED_CB_(__sanitizer_cov_store16)
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() { sched::point_at(__builtin_return_address(0)); }

struct _HT_Mutex { sched::Thr* owner; bool locked; unsigned magic; };

HT_Mutex* ht_mutex_create(void)
{
    HT_Mutex* m = (HT_Mutex*)ht_alloc(sizeof(HT_Mutex));
    if (m) { m->owner = nullptr; m->locked = false; m->magic = 0x5EED; }
    return m;
}
HT_ErrorCode ht_mutex_destroy(HT_Mutex* m)
{
    if (m->locked) pbt::fail("mutex-misuse", "a locked mutex is destroyed");
    m->magic = 0;
    ht_free(m);
    return HT_ERR_OK;
}
HT_ErrorCode ht_mutex_lock(HT_Mutex* m)
{
    sched::point();
    if (m->locked && m->owner == sched::t_self) pbt::fail("deadlock", "a thread locks a mutex it already holds");
    sched::block_until(m, [m] { return !m->locked; });
    m->locked = true; m->owner = sched::t_self;
    return HT_ERR_OK;
}
HT_ErrorCode ht_mutex_unlock(HT_Mutex* m)
{
    if (!m->locked || m->owner != sched::t_self) pbt::fail("mutex-misuse", "a thread unlocks a mutex it does not hold");
    m->locked = false; m->owner = nullptr;
    sched::wake(m);
    sched::point();
    return HT_ERR_OK;
}
HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { sched::point(); return sched::g_clock += 7; }
}
#endif
