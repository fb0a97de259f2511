// C12: event ids and thread ids under generated schedules.
#include "sched.hpp"
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/thread.h>
#include <hawktracer/event_id_provider.h>
#include <set>
using namespace model;
using pbt::Case; using pbt::fail;

static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr);
    register_all();
    size_t gens = 1 + t.draw(2), np = 1 + t.draw(1), calls = 0;
    std::vector<HT_EventIdProvider*> prov; for (size_t i = 0; i < np; i++) { prov.push_back(ht_event_id_provider_create()); PBT_CHECK(prov.back(), "create-failed", "no id provider"); }
    HT_Timeline* tls[2] = {ht_timeline_create(64, HT_TRUE, HT_TRUE, nullptr, nullptr), ht_timeline_create(64, HT_FALSE, HT_TRUE, "x", nullptr)};
    std::map<HT_ThreadId, std::string> tids;
    if (t.coin()) tids[ht_thread_get_current_thread_id()] = "main";
    uint64_t main_tid = tids.empty() ? 0 : tids.begin()->first;
    std::set<uint64_t> def_ids; std::vector<std::set<uint64_t>> ids(np);
    for (size_t g = 0; g < gens; g++)
    {
        size_t nt = 2 + t.draw(2);
        struct Rec { std::vector<int> ops; std::vector<uint64_t> def, tid, ts; std::vector<std::vector<uint64_t>> own; };
        std::deque<Rec> rec(nt); std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < nt; i++)
        {
            size_t n = 1 + t.draw(7); rec[i].own.resize(np); std::string s;
            for (size_t k = 0; k < n; k++) { int o = (int)t.weighted({3, 3, 2, 2}); rec[i].ops.push_back(o * 2 + (int)t.draw(1)); s += fmt(" %s", o == 0 ? "thread-id" : o == 1 ? "own-provider" : o == 2 ? "init-event" : "push-decl"); calls++; }
            c.note(fmt("generation %zu thread %zu:%s", g, i, s.c_str()));
            bodies.push_back([&, i] {
                Rec& r = rec[i];
                for (int op : r.ops)
                {
                    int w = op & 1;
                    switch (op / 2)
                    {
                    case 0: r.tid.push_back(ht_thread_get_current_thread_id()); break;
                    case 1: r.own[(size_t)w % np].push_back(ht_event_id_provider_next(prov[(size_t)w % np])); break;
                    case 2: { HT_Event e; ht_timeline_init_event(tls[w], &e); r.def.push_back(e.id); r.ts.push_back(e.timestamp); break; }
                    default: r.def.push_back(ht_event_id_provider_next(ht_event_id_provider_get_default())); break;
                    }
                }
            });
        }
        sched::run(t, bodies, t.draw(60));
        for (size_t i = 0; i < nt; i++)
        {
            std::string who = fmt("thread %zu of generation %zu", i, g);
            for (uint64_t x : rec[i].tid)
            {
                PBT_CHECK(x, "zero-thread-id", "%s has thread id 0", who.c_str());
                PBT_CHECK(x == rec[i].tid[0], "thread-id-changed", "%s has thread ids %llu and %llu", who.c_str(), (unsigned long long)rec[i].tid[0], (unsigned long long)x);
            }
            if (!rec[i].tid.empty()) { auto r = tids.insert({(HT_ThreadId)rec[i].tid[0], who}); PBT_CHECK(r.second, "thread-id-shared", "%s and %s both have thread id %llu", who.c_str(), r.first->second.c_str(), (unsigned long long)rec[i].tid[0]); }
            auto chk = [&](const std::vector<uint64_t>& v, std::set<uint64_t>& all) {
                for (size_t k = 0; k < v.size(); k++)
                {
                    PBT_CHECK(!k || v[k] > v[k - 1], "ids-not-increasing", "%s got id %llu after %llu", who.c_str(), (unsigned long long)v[k], (unsigned long long)v[k - 1]);
                    PBT_CHECK(all.insert(v[k]).second, "id-twice", "id %llu was handed out twice (second time to %s)", (unsigned long long)v[k], who.c_str());
                }
            };
            chk(rec[i].def, def_ids);
            for (size_t p = 0; p < np; p++) chk(rec[i].own[p], ids[p]);
            for (size_t k = 1; k < rec[i].ts.size(); k++) PBT_CHECK(rec[i].ts[k] >= rec[i].ts[k - 1], "time-backwards", "timestamps of %s decrease", who.c_str());
        }
        c.note(fmt("%llu steps, %llu switches", (unsigned long long)sched::g_steps, (unsigned long long)sched::g_switches));
    }
    if (main_tid) PBT_CHECK(ht_thread_get_current_thread_id() == main_tid, "thread-id-changed", "the main thread's id changed");
    for (auto* p : prov) ht_event_id_provider_destroy(p);
    ht_timeline_destroy(tls[0]); ht_timeline_destroy(tls[1]);
    ht_deinit();
    c.nontrivial = calls >= 6 && tids.size() >= 2;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_ids", run, {}, 30, false}; return h; }
