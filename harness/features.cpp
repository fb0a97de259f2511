// C28: a timeline hands out exactly the features it was given; feature classes have one slot each, for good.
#include "pbt.hpp"
#include <hawktracer.h>
#include <hawktracer/init.h>
#include <hawktracer/feature.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/registry.h>
#include <deque>
#include <set>
using pbt::Case; using pbt::fail; using pbt::fmt;

struct Obj { HT_Feature base; int serial; };
static std::map<HT_Feature*, int> g_alive; static std::vector<int> g_destroyed; static int g_serial;
static void destroy_cb(HT_Feature* f)
{
    auto it = g_alive.find(f);
    PBT_CHECK(it != g_alive.end(), "destroyed-twice", "destroy is called for a feature that is not alive");
    g_destroyed.push_back(it->second); g_alive.erase(it); ht_free(f);
}
// the generated functions of one class, next to the plain ones
struct Named { HT_Feature base; int serial; };
HT_FEATURE_DEFINE(Named, destroy_cb)

static const size_t MAXK = 40;
static HT_FeatureKlass g_k[MAXK];

static void run(Case& c)
{
    auto& t = c.t;
    size_t nk = t.chance(1, 4) ? 30 + t.draw(9) : 1 + t.draw(12);      // two of the 32 slots are the library's
    for (size_t i = 0; i < MAXK; i++) { g_k[i].destroy = destroy_cb; g_k[i].id = HT_INVALID_FEATURE_ID; }
    size_t named = nk;     // class number nk is the generated one
    auto klass = [&](size_t k) { return k == named ? Named_get_class() : &g_k[k]; };
    struct T { HT_Timeline* t; std::map<size_t, HT_Feature*> f; bool cs = false, str = false; };
    std::deque<T> tls; std::vector<size_t> order; std::vector<uint32_t> id(nk + 1, HT_INVALID_FEATURE_ID); unsigned depth = 0; size_t sets = 0, gets = 0, full = 0, reinit = 0; std::set<uint32_t> used;
    auto init = [&] { ht_init(0, nullptr); depth++; };
    init();
    auto check_all = [&](const char* when) {
        for (size_t k = 0; k <= nk; k++) PBT_CHECK(klass(k)->id == id[k], "id-changed", "%s: feature class %zu had id %u and now has %u", when, k, id[k], klass(k)->id);
        for (size_t i = 0; i < tls.size(); i++) if (tls[i].t)
        {
            for (size_t k = 0; k <= nk; k++)
            {
                HT_Feature* want = tls[i].f.count(k) ? tls[i].f[k] : nullptr; HT_Feature* got = k == named ? (HT_Feature*)Named_from_timeline(tls[i].t) : ht_timeline_get_feature(tls[i].t, klass(k)); gets++;
                PBT_CHECK(got == want, "get-feature", "%s: timeline %zu returns %s for class %zu", when, i, !got ? "nothing" : want ? "another object than was set" : "an object that was not set", k);
                if (want) PBT_CHECK(HT_TIMELINE_FEATURE(tls[i].t, klass(k), Obj)->serial == g_alive.at(want) && want->klass == klass(k), "feature-changed", "%s: the feature of class %zu was changed", when, k);
            }
        }
    };
    size_t n = 4 + t.count(50);
    auto op_register = [&](size_t k) {
        HT_ErrorCode e = k == named ? Named_register() : ht_registry_register_feature(klass(k));
        c.note(fmt("register class %zu -> %d, id %u", k, (int)e, klass(k)->id));
        if (id[k] != HT_INVALID_FEATURE_ID) PBT_CHECK(e == HT_ERR_FEATURE_ALREADY_REGISTERED, "register-result", "registering class %zu again returned %d", k, (int)e);
        else if (used.size() + 2 >= HT_TIMELINE_MAX_FEATURES) { PBT_CHECK(e == HT_ERR_MAX_FEATURE_COUNT_REACHED && klass(k)->id == HT_INVALID_FEATURE_ID, "register-result", "registering class %zu as number %zu returned %d, id %u", k, used.size() + 3, (int)e, klass(k)->id); full++; }
        else
        {
            PBT_CHECK(e == HT_ERR_OK && klass(k)->id < HT_TIMELINE_MAX_FEATURES, "register-result", "registering class %zu returned %d, id %u", k, (int)e, klass(k)->id);
            PBT_CHECK(used.insert(klass(k)->id).second, "id-shared", "two feature classes share the id %u", klass(k)->id);
            id[k] = klass(k)->id;
        }
    };
    if (nk >= 30 || t.coin()) for (size_t k = 0; k <= nk; k++) if (!t.chance(1, 8)) op_register(k);
    for (size_t i = 0; i < n; i++)
    {
        std::vector<size_t> alive; for (size_t j = 0; j < tls.size(); j++) if (tls[j].t) alive.push_back(j);
        unsigned kind = (unsigned)t.weighted({3, 4, 12, 2, 2, 1});
        if (alive.empty() && kind >= 2 && kind <= 4) kind = 1;
        size_t ti = alive.empty() ? 0 : alive[t.draw(alive.size() - 1)];
        size_t k = t.draw(nk);
        switch (kind)
        {
        case 0: op_register(k); break;
        case 1:
        {
            if (alive.size() > 5) break;
            HT_ErrorCode e; T x; x.t = ht_timeline_create(t.draw(100), t.coin(), t.coin(), t.coin() ? "group" : nullptr, &e);
            PBT_CHECK(x.t, "create-failed", "creating a timeline failed with %d", (int)e);
            c.note(fmt("create timeline %zu", tls.size())); tls.push_back(x); break;
        }
        case 2:
        {
            HT_Feature* f = k == named ? (HT_Feature*)Named_alloc() : (HT_Feature*)ht_alloc(sizeof(Obj));
            if (k != named) f->klass = klass(k);
            int s = ((Obj*)f)->serial = ++g_serial; g_alive[f] = s; g_destroyed.clear();
            PBT_CHECK(f->klass == klass(k), "alloc", "the allocated feature is not of its class");
            HT_ErrorCode e = ht_timeline_set_feature(tls[ti].t, f); sets++;
            c.note(fmt("timeline %zu: set feature %d of class %zu -> %d", ti, s, k, (int)e));
            HT_ErrorCode want = id[k] == HT_INVALID_FEATURE_ID ? HT_ERR_FEATURE_NOT_REGISTERED : tls[ti].f.count(k) ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_OK;
            PBT_CHECK(e == want, "set-result", "setting a feature of class %zu (%s, %s) returned %d", k, id[k] == HT_INVALID_FEATURE_ID ? "not registered" : "registered", tls[ti].f.count(k) ? "already set" : "not set", (int)e);
            if (want == HT_ERR_OK) { PBT_CHECK(g_destroyed.empty(), "destroyed-early", "setting a feature destroys one"); tls[ti].f[k] = f; }
            else PBT_CHECK(g_destroyed == std::vector<int>{s}, "rejected-kept", "a rejected feature is not destroyed at once, or another one is (%zu destroyed)", g_destroyed.size());
            break;
        }
        case 3:
        {
            HT_Timeline* x = tls[ti].t; bool cs = t.coin();
            HT_ErrorCode e = cs ? ht_feature_callstack_enable(x) : ht_feature_cached_string_enable(x, t.coin());
            bool& on = cs ? tls[ti].cs : tls[ti].str;
            PBT_CHECK(e == (on ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_OK), "enable-result", "enabling a core feature%s returned %d", on ? " again" : "", (int)e);
            on = true; break;
        }
        case 4:
        {
            std::set<int> mine; for (auto& p : tls[ti].f) mine.insert(g_alive.at(p.second));
            g_destroyed.clear(); ht_timeline_destroy(tls[ti].t); tls[ti].t = nullptr;
            c.note(fmt("destroy timeline %zu with %zu features", ti, mine.size()));
            PBT_CHECK(std::set<int>(g_destroyed.begin(), g_destroyed.end()) == mine && g_destroyed.size() == mine.size(), "destroyed-set", "destroying timeline %zu destroyed %zu features, it had %zu", ti, g_destroyed.size(), mine.size());
            tls[ti].f.clear(); break;
        }
        default:
            if (depth == 1 && t.coin()) init();
            else if (alive.empty() || depth > 1) { ht_deinit(); depth--; c.note("deinit"); if (!depth) { init(); reinit++; c.note("init"); } }
        }
        check_all("after the operation");
    }
    for (auto& x : tls) if (x.t) { g_destroyed.clear(); ht_timeline_destroy(x.t); PBT_CHECK(g_destroyed.size() == x.f.size(), "destroyed-set", "destroying a timeline destroyed %zu features, it had %zu", g_destroyed.size(), x.f.size()); }
    while (depth--) ht_deinit();
    PBT_CHECK(g_alive.empty(), "feature-leak", "%zu features are left", g_alive.size());
    if (full) c.label("slots-exhausted"); if (reinit) c.label("reinitialised"); if (used.size() > 20) c.label("many-classes");
    c.nontrivial = sets >= 3 && used.size() >= 2;
}
pbt::Harness& pbt::harness() { static Harness h{"features", run, {}, 30, false}; return h; }
