// C09: task scheduler against a model, with a virtual clock.
#include "pbt.hpp"
#include <hawktracer/task_scheduler.h>
#include <hawktracer/monotonic_clock.h>
#include <hawktracer/alloc.h>
#include <deque>
#include <numeric>
#include <set>
using pbt::Case; using pbt::fail; using pbt::fmt;

static uint64_t g_now = 1;
extern "C" HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }

struct Task
{
    int idx; HT_TaskId id = -1; bool alive = false; uint64_t period, next; HT_TaskSchedulingMode mode;
    size_t runs = 0, ran_in_tick = 0; bool due_at_start = false, removed_in_tick = false;
    // scripted behaviour per run
    unsigned stop_after; uint64_t takes; int removes; int spawns;
};
static std::deque<Task> g_t;
static HT_TaskScheduler* g_s;
static size_t g_tick = 0; static bool g_ticking = false;
static Case* g_c;
static std::set<HT_TaskId> g_ids;

static HT_Boolean cb(void* ud);
static void schedule(Task& x)
{
    x.next = g_now + x.period;
    x.id = ht_task_scheduler_schedule_task(g_s, x.mode, x.period, cb, &x);
    PBT_CHECK(x.id >= 0, "schedule-failed", "scheduling returned %d", (int)x.id);
    PBT_CHECK(g_ids.insert(x.id).second, "id-not-unique", "task id %d was handed out before", (int)x.id);
    x.alive = true;
    g_c->note(fmt("%sschedule task %d id=%d period=%llu mode=%s takes=%llu stops-after=%u removes=%d", g_ticking ? "  " : "", x.idx, (int)x.id, (unsigned long long)x.period, x.mode == HT_TASK_SCHEDULING_RESTART_TIMER ? "restart" : "ignore-delays", (unsigned long long)x.takes, x.stop_after, x.removes));
}
static void remove_task(Task& x)
{
    HT_Boolean r = ht_task_scheduler_remove_task(g_s, x.id);
    PBT_CHECK((r != 0) == x.alive, "remove-result", "removing task %d (%s) returned %d", x.idx, x.alive ? "scheduled" : "not scheduled", r);
    if (x.alive) { x.alive = false; x.removed_in_tick = g_ticking; }
    g_c->note(fmt("%sremove task %d", g_ticking ? "  " : "", x.idx));
}
static std::vector<Task>* g_spawn;
static size_t g_spawn_pos = 0;
static HT_Boolean cb(void* ud)
{
    Task& x = *(Task*)ud;
    PBT_CHECK(g_ticking, "ran-outside-tick", "task %d ran outside a tick", x.idx);
    PBT_CHECK(x.alive, "removed-task-ran", "task %d ran after it was removed or asked to stop", x.idx);
    PBT_CHECK(x.next <= g_now, "early", "task %d ran at %llu, due at %llu", x.idx, (unsigned long long)g_now, (unsigned long long)x.next);
    PBT_CHECK(x.ran_in_tick != g_tick, "twice-in-tick", "task %d ran twice in one tick", x.idx);
    x.ran_in_tick = g_tick; x.runs++;
    g_c->note(fmt("  task %d runs at %llu (due %llu)", x.idx, (unsigned long long)g_now, (unsigned long long)x.next));
    g_now += x.takes;
    bool go_on = x.runs < x.stop_after;
    if (x.removes >= 0 && x.runs == 1) remove_task(g_t[(size_t)x.removes % g_t.size()]);
    if (x.spawns && x.runs == 1 && g_spawn_pos < g_spawn->size()) { g_t.push_back((*g_spawn)[g_spawn_pos++]); g_t.back().idx = (int)g_t.size() - 1; schedule(g_t.back()); }
    if (!go_on) x.alive = false;
    else x.next = x.mode == HT_TASK_SCHEDULING_RESTART_TIMER ? g_now + x.period : x.next + x.period;
    return go_on ? HT_TRUE : HT_FALSE;
}
static Task gen(pbt::Tape& t, bool allow_zero)
{
    Task x; x.idx = 0;
    switch (t.weighted({4, 2, 1})) { case 0: x.period = t.draw(12) * 5; break; case 1: x.period = t.draw(100); break; default: x.period = t.scaled(1ULL << 50); }
    if (!allow_zero && !x.period) x.period = 1;
    x.mode = t.coin() ? HT_TASK_SCHEDULING_RESTART_TIMER : HT_TASK_SCHEDULING_IGNORE_DELAYS;
    x.stop_after = t.coin() ? 1000000 : 1 + (unsigned)t.draw(3);
    x.takes = t.chance(1, 3) ? t.draw(30) : 0;
    x.removes = t.chance(1, 6) ? (int)t.draw(40) : -1;
    x.spawns = t.chance(1, 8);
    return x;
}
static void run(Case& c)
{
    auto& t = c.t; g_c = &c;
    HT_ErrorCode err; g_s = ht_task_scheduler_create(&err);
    PBT_CHECK(g_s && err == HT_ERR_OK, "create-failed", "no scheduler");
    g_now = t.scaled(1ULL << 60);
    std::vector<Task> spawn; for (int i = 0; i < 6; i++) spawn.push_back(gen(t, false)); g_spawn = &spawn;
    size_t n = 4 + t.count(120), ticks = 0, ran = 0, removals = 0;
    bool many = t.chance(1, 10);
    for (size_t i = 0; i < n; i++)
    {
        switch (t.weighted({4, 2, 8, 1}))
        {
        case 0: { size_t m = many && t.coin() ? 1 + t.draw(40) : 1; for (size_t k = 0; k < m; k++) { g_t.push_back(gen(t, true)); g_t.back().idx = (int)g_t.size() - 1; schedule(g_t.back()); } break; }
        case 1:
            if (!g_t.empty() && !t.chance(1, 5)) { remove_task(g_t[t.draw(g_t.size() - 1)]); removals++; }
            else { HT_TaskId bad = t.pick<int>({-1, -2, INT32_MIN, INT32_MAX, 1000000}); PBT_CHECK(!ht_task_scheduler_remove_task(g_s, bad), "remove-result", "removing task %d, which never existed, succeeded", (int)bad); }
            break;
        case 2:
        {
            g_now += t.weighted({3, 2, 1}) == 0 ? t.draw(20) : t.coin() ? t.draw(200) : t.scaled(1ULL << 51);
            g_tick++; ticks++;
            for (auto& x : g_t) { x.due_at_start = x.alive && x.next <= g_now; x.removed_in_tick = false; }
            c.note(fmt("tick at %llu", (unsigned long long)g_now));
            g_ticking = true; ht_task_scheduler_tick(g_s); g_ticking = false;
            for (auto& x : g_t)
            {
                if (x.ran_in_tick == g_tick) ran++;
                else PBT_CHECK(!x.due_at_start || x.removed_in_tick, "due-not-run", "task %d (due %llu) did not run in the tick at %llu", x.idx, (unsigned long long)x.next, (unsigned long long)g_now);
            }
            break;
        }
        default:
        {
            uint64_t g = 0; for (auto& x : g_t) if (x.alive && x.period) g = std::gcd(g, x.period);
            uint64_t r = ht_task_scheduler_get_optimal_tick_period(g_s);
            PBT_CHECK(r == g, "tick-period", "optimal tick period is %llu, expected %llu", (unsigned long long)r, (unsigned long long)g);
        }
        }
    }
    PBT_CHECK(ht_task_scheduler_schedule_task(g_s, HT_TASK_SCHEDULING_IGNORE_DELAYS, 1, nullptr, nullptr) == HT_TASK_SCHEDULER_INVALID_TASK_ID, "null-callback", "a task without callback was accepted");
    ht_task_scheduler_destroy(g_s);
    if (removals) c.label("removals"); if (g_t.size() > 16) c.label(">16-tasks"); if (g_spawn_pos) c.label("scheduled-by-callback");
    c.nontrivial = g_t.size() >= 2 && ticks >= 2 && ran >= 1;
}
pbt::Harness& pbt::harness() { static Harness h{"tasks", run, {}, 30, false}; return h; }
