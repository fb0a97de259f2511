// C12 (clock): the clock of the library follows the system's monotonic clock: never backwards, in nanoseconds, and not
// affected by changes of the wall clock.  clock_gettime / gettimeofday / time are replaced by generated clocks.
#include "pbt.hpp"
#include <hawktracer/monotonic_clock.h>
#include <hawktracer/timeline.h>
#include <hawktracer/init.h>
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
using pbt::Case; using pbt::fail; using pbt::fmt;

static bool g_fake = false;
static uint64_t g_mono = 0, g_real = 0, g_base_off = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!g_fake) return (int)syscall(SYS_clock_gettime, id, ts);
    uint64_t v;
    switch (id)
    {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: v = g_real; break;
    case CLOCK_BOOTTIME: v = g_mono + g_base_off; break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = g_mono / 3; break;
    default: v = g_mono;
    }
    ts->tv_sec = (time_t)(v / 1000000000ULL); ts->tv_nsec = (long)(v % 1000000000ULL);
    return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { tv->tv_sec = (time_t)(g_real / 1000000000ULL); tv->tv_usec = (long)(g_real % 1000000000ULL / 1000); return 0; }

static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr);
    HT_Timeline* tl = ht_timeline_create(64, HT_FALSE, HT_TRUE, nullptr, nullptr);
    size_t n = 2 + t.draw(40);
    g_mono = t.scaled(1000000000000000ULL); g_real = t.scaled(2000000000000000000ULL); g_base_off = t.scaled(1000000000000ULL);
    uint64_t prev = 0, pm = 0; std::string bad;
    for (size_t i = 0; i < n; i++)
    {
        switch (t.weighted({3, 2, 2, 1})) { case 0: g_mono += t.draw(2000); break; case 1: g_mono += t.draw(5000000000ULL); break; case 2: g_mono += 1000000000ULL - 1 + t.draw(2) - g_mono % 1000000000ULL; break; default: break; }
        g_real = t.coin() ? g_real + t.scaled(10000000000ULL) : g_real - std::min(g_real, t.scaled(10000000000ULL));
        bool ev = t.coin(); uint64_t ts;
        g_fake = true;
        if (ev) { HT_Event e; ht_timeline_init_event(tl, &e); ts = e.timestamp; } else ts = ht_monotonic_clock_get_timestamp();
        g_fake = false;
        c.note(fmt("system clock %llu -> timestamp %llu", (unsigned long long)g_mono, (unsigned long long)ts));
        if (i)
        {
            PBT_CHECK(ts >= prev, "time-backwards", "timestamp %llu follows %llu", (unsigned long long)ts, (unsigned long long)prev);
            PBT_CHECK(ts - prev == g_mono - pm, "wrong-elapsed", "%llu ns passed on the system's monotonic clock, the timestamps differ by %llu", (unsigned long long)(g_mono - pm), (unsigned long long)(ts - prev));
        }
        prev = ts; pm = g_mono;
    }
    ht_timeline_destroy(tl);
    ht_deinit();
    c.nontrivial = n >= 3;
}
pbt::Harness& pbt::harness() { static Harness h{"clock", run, {}, 30, false}; return h; }
