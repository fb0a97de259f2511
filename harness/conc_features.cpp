// C20: feature classes registered by several threads at once have one id each, and timelines keep them apart.
#include "sched.hpp"
#include "pbt.hpp"
#include <hawktracer.h>
#include <hawktracer/init.h>
#include <hawktracer/feature.h>
#include <hawktracer/registry.h>
#include <set>
using pbt::Case; using pbt::fail; using pbt::fmt;

static int g_alive = 0;
#define F(N) struct N { HT_Feature base; int which; }; static void N##_destroy(HT_Feature* f) { g_alive--; ht_free(f); } HT_FEATURE_DEFINE(N, N##_destroy)
F(F0) F(F1) F(F2) F(F3) F(F4)
static HT_ErrorCode reg(size_t i) { switch (i) { case 0: return F0_register(); case 1: return F1_register(); case 2: return F2_register(); case 3: return F3_register(); default: return F4_register(); } }
static uint32_t id(size_t i) { switch (i) { case 0: return F0_get_class()->id; case 1: return F1_get_class()->id; case 2: return F2_get_class()->id; case 3: return F3_get_class()->id; default: return F4_get_class()->id; } }
static HT_Feature* make(size_t i) { g_alive++; switch (i) { case 0: return (HT_Feature*)F0_alloc(); case 1: return (HT_Feature*)F1_alloc(); case 2: return (HT_Feature*)F2_alloc(); case 3: return (HT_Feature*)F3_alloc(); default: return (HT_Feature*)F4_alloc(); } }
static void* from(HT_Timeline* t, size_t i) { switch (i) { case 0: return F0_from_timeline(t); case 1: return F1_from_timeline(t); case 2: return F2_from_timeline(t); case 3: return F3_from_timeline(t); default: return F4_from_timeline(t); } }

static void run(Case& c)
{
    auto& t = c.t; ht_init(0, nullptr);
    size_t nt = 2 + t.draw(1), n = 0;
    std::vector<std::vector<size_t>> ops(nt); std::vector<std::vector<uint32_t>> got(nt);
    for (size_t i = 0; i < nt; i++) { size_t k = 1 + t.draw(4); for (size_t j = 0; j < k; j++) { ops[i].push_back(t.draw(4)); n++; c.note(fmt("thread %zu: register class %zu", i, ops[i].back())); } }
    std::map<size_t, uint32_t> ids; int ok[5] = {0, 0, 0, 0, 0};
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; i++)
        bodies.push_back([&, i] {
            for (size_t k : ops[i])
            {
                sched::point();
                HT_ErrorCode e = reg(k); uint32_t x = id(k);
                PBT_CHECK(e == HT_ERR_OK || e == HT_ERR_FEATURE_ALREADY_REGISTERED, "register", "registering a class returned %d", (int)e);
                if (e == HT_ERR_OK) ok[k]++;
                auto r = ids.emplace(k, x);
                PBT_CHECK(r.first->second == x, "feature-id-changed", "feature class %zu had the id %u and now has %u", k, r.first->second, x);
            }
        });
    sched::run(t, bodies, t.draw(30));
    std::set<uint32_t> u;
    for (auto& p : ids)
    {
        PBT_CHECK(id(p.first) == p.second, "feature-id-changed", "feature class %zu had the id %u and now has %u", p.first, p.second, id(p.first));
        PBT_CHECK(u.insert(p.second).second, "feature-id-shared", "two feature classes share id %u", p.second);
        PBT_CHECK(ok[p.first] == 1, "registered-twice", "feature class %zu was newly registered %d times", p.first, ok[p.first]);
    }
    HT_Timeline* tl = ht_timeline_create(64, HT_FALSE, HT_TRUE, nullptr, nullptr);
    std::map<size_t, HT_Feature*> set;
    for (auto& p : ids) { HT_Feature* f = make(p.first); set[p.first] = f; HT_ErrorCode e = ht_timeline_set_feature(tl, f); PBT_CHECK(e == HT_ERR_OK, "set-feature", "setting a feature of class %zu returned %d", p.first, (int)e); }
    for (size_t i = 0; i < 5; i++) PBT_CHECK(from(tl, i) == (set.count(i) ? (void*)set[i] : nullptr), "get-feature", "the timeline returns another feature of class %zu than was set", i);
    ht_timeline_destroy(tl);
    PBT_CHECK(g_alive == 0, "feature-destruction", "%d features left", g_alive);
    ht_deinit();
    c.nontrivial = n >= 3 && sched::g_switches > nt;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_features", run, {}, 30, false}; return h; }
