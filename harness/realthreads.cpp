// C10 / C25: the same guarantees with real threads and the real mutex implementations (C++11 and POSIX), under ThreadSanitizer.
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/registry.h>
#include <hawktracer/thread.h>
#include <hawktracer/event_id_provider.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
using namespace model;
using pbt::Case; using pbt::fail;

// A listener of one thread-safe timeline has no lock of its own: the library must order its calls, and ThreadSanitizer sees
// any two that are not ordered.  A listener of a group of timelines is called by their threads at once (the library's own
// listeners lock), so the one of the global group locks.
struct Lst { int idx; bool spans; std::map<uint32_t, std::vector<uint64_t>> per; std::map<uint32_t, std::vector<uint64_t>> labels; std::map<uint64_t, std::string> maps; uint64_t total = 0; bool inside = false; };
static std::mutex g_gl;
static void cb(TEventPtr data, size_t size, HT_Boolean serialized, void* ud)
{
    Lst* l = (Lst*)ud;
    PBT_CHECK(!l->inside, "overlapping-calls", "listener %d is called while a previous call to it is still running", l->idx);
    l->inside = true;
    size_t o = 0;
    while (o < size)
    {
        Ev e; size_t n = decode(data + o, size - o, e);
        PBT_CHECK(n, "torn-event", "chunk of %zu bytes cannot be decoded at %zu", size, o);
        if (e.k == I_KInts) l->per[(uint32_t)e.vals[4].u].push_back(e.vals[6].u);
        else if (e.k == I_CSInt) l->labels[(uint32_t)e.vals[1].u].push_back(e.vals[2].u);
        else if (e.k == I_Map) { auto r = l->maps.insert({e.vals[0].u, e.vals[1].s}); PBT_CHECK(l->spans || r.second, "announced-twice", "label '%s' is announced twice", e.vals[1].s.c_str()); PBT_CHECK(r.first->second == e.vals[1].s, "id-shared", "labels '%s' and '%s' share an id", r.first->second.c_str(), e.vals[1].s.c_str()); }
        else fail("unknown-event", "received " + e.str());
        l->total++; o += n;
    }
    l->inside = false;
}

static void cb_locked(TEventPtr data, size_t size, HT_Boolean serialized, void* ud) { std::lock_guard<std::mutex> g(g_gl); cb(data, size, serialized, ud); }

enum { PUSH, FLUSH, LABEL, SPAN, GPUSH, IDS, REGK, NEWT, DYN };
struct Op { int kind; uint64_t arg; };
struct Th { std::vector<Op> ops; std::vector<uint64_t> ids; HT_ThreadId tid = 0; uint64_t pushed = 0, gpushed = 0; std::vector<uint64_t> spans; };

static void run(Case& c)
{
    auto& t = c.t;
    std::string size = fmt("%zu", t.pick<size_t>({0, 40, 100, 1024}));
    char a0[] = "prog", a1[] = "--ht-global-timeline-buffer-size"; char* argv[] = {a0, a1, &size[0], nullptr};
    ht_init(3, argv);
    register_all();
    size_t nt = 2 + t.draw(4), cap = t.coin() ? t.draw(200) : t.pick<size_t>({0, 1, 64, 1024});
    HT_ErrorCode err;
    HT_Timeline* tl = ht_timeline_create(cap, HT_TRUE, HT_TRUE, t.coin() ? "real" : nullptr, &err);
    PBT_CHECK(tl, "create-failed", "timeline creation failed");
    PBT_CHECK(ht_feature_cached_string_enable(tl, HT_TRUE) == HT_ERR_OK, "enable-failed", "cached strings cannot be enabled");
    HT_EventIdProvider* prov = ht_event_id_provider_create();
    std::deque<Lst> ls; size_t nl = 1 + t.draw(2);
    for (size_t i = 0; i < nl; i++) { ls.emplace_back(); ls.back().idx = (int)i; ls.back().spans = false; ht_timeline_register_listener(tl, cb, &ls.back()); }
    Lst gl; gl.idx = 99; gl.spans = true;
    HT_Timeline* main_gl = ht_timeline_create(0, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", &err);
    ht_timeline_register_listener(main_gl, cb_locked, &gl);
    static const char* labels[] = {"one", "two", "three", "four"};
    std::deque<Th> th; bool used_labels = false, used_global = false; uint64_t total = 0;
    for (size_t i = 0; i < nt; i++)
    {
        th.emplace_back();
        size_t n = 1 + t.draw(20);
        for (size_t k = 0; k < n; k++)
        {
            int kind = (int)t.weighted({8, 2, 2, 2, 2, 2, 1, 1, 2}); uint64_t arg = t.draw(40);
            th.back().ops.push_back({kind, arg}); total++;
        }
    }
    std::set<std::string> used;
    for (auto& x : th) for (auto& o : x.ops) { if (o.kind == LABEL) used.insert(labels[o.arg % 4]); if (o.kind == DYN) used.insert(fmt("dyn%llu", (unsigned long long)o.arg % 3)); used_global |= o.kind == SPAN || o.kind == GPUSH; }
    used_labels = !used.empty();
    size_t reps = 1 + t.draw(30);
    c.note(fmt("%zu threads, %llu operations repeated %zu times, buffer %zu, %zu listeners", nt, (unsigned long long)total, reps, cap, nl));
    static std::atomic<int> ready; ready = 0;
    static std::atomic<bool> failed; failed = false;
    std::vector<std::thread> ts;
    for (size_t i = 0; i < nt; i++)
        ts.emplace_back([&, i] {
            Th& x = th[i];
            ready++; while (ready.load() < (int)nt) std::this_thread::yield();
            x.tid = ht_thread_get_current_thread_id();
            uint64_t seq = 0, gseq = 0, sp = 0;
            for (size_t r = 0; r < reps; r++)
                for (auto& o : x.ops)
                    switch (o.kind)
                    {
                    case PUSH: { Ev e; e.k = I_KInts; HT_DECL_EVENT(KInts, ev); ev.iu8 = 1; ev.ii8 = 2; ev.iu16 = 3; ev.ii16 = 4; ev.iu32 = (uint32_t)i; ev.ii32 = 6; ev.iu64 = seq++; ev.ii64 = 8; HT_EVENT(&ev)->id = 0; HT_EVENT(&ev)->timestamp = 0; ht_timeline_push_event(tl, HT_EVENT(&ev)); break; }
                    case FLUSH: ht_timeline_flush(tl); break;
                    case LABEL: { const char* s = labels[o.arg % 4]; if (ht_feature_cached_string_add_mapping(tl, s) != (uintptr_t)s) failed = true; break; }
                    case DYN: { std::string s = fmt("dyn%llu", (unsigned long long)o.arg % 3); if (!ht_feature_cached_string_add_mapping_dynamic(tl, s.c_str())) failed = true; break; }
                    case SPAN: ht_feature_callstack_start_int(ht_global_timeline_get(), 1000 * i + sp); ht_feature_callstack_stop(ht_global_timeline_get()); sp++; break;
                    case GPUSH: { HT_DECL_EVENT(KInts, ev); memset((char*)&ev + sizeof(HT_Event), 0, sizeof ev - sizeof(HT_Event)); ev.iu32 = (uint32_t)i; ev.iu64 = gseq++; HT_EVENT(&ev)->id = 0; HT_EVENT(&ev)->timestamp = 0; ht_timeline_push_event(ht_global_timeline_get(), HT_EVENT(&ev)); break; }
                    case IDS: for (int z = 0; z < 3; z++) x.ids.push_back(ht_event_id_provider_next(prov)); break;
                    case REGK: if (ht_registry_register_event_klass(HT_EVENT_KLASS_GET(KU8)) != HT_EVENT_KLASS_GET(KU8)->klass_id) failed = true; break;
                    default: { HT_Timeline* n = ht_timeline_create(64, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", nullptr); if (!n) failed = true; else ht_timeline_destroy(n); }
                    }
            x.pushed = seq; x.gpushed = gseq; for (uint64_t z = 0; z < sp; z++) x.spans.push_back(1000 * i + z);
        });
    for (auto& x : ts) x.join();
    PBT_CHECK(!failed.load(), "call-failed", "a call of a thread failed or returned a wrong value");
    ht_timeline_flush(tl);
    auto seqs = [&](const std::vector<uint64_t>& v, uint64_t n, const char* what, size_t ti) {
        PBT_CHECK(v.size() == n, v.size() < n ? "lost-event" : "duplicate-event", "%s: %zu of the %llu events of thread %zu arrived", what, v.size(), (unsigned long long)n, ti);
        for (size_t k = 0; k < v.size(); k++) PBT_CHECK(v[k] == k, "reordered", "%s: event %llu of thread %zu arrived as number %zu", what, (unsigned long long)v[k], ti, k);
    };
    for (auto& l : ls)
    {
        for (size_t i = 0; i < nt; i++) seqs(l.per[(uint32_t)i], th[i].pushed, "shared timeline", i);
        std::set<std::string> got; for (auto& m : l.maps) got.insert(m.second);
        PBT_CHECK(got == used, "labels", "%zu of %zu labels were announced", got.size(), used.size());
    }
    std::set<uint64_t> ids; size_t nids = 0; std::set<HT_ThreadId> tids;
    for (size_t i = 0; i < nt; i++)
    {
        seqs(gl.per[(uint32_t)i], th[i].gpushed, "global timeline", i);
        std::vector<uint64_t>& v = gl.labels[th[i].tid];
        PBT_CHECK(v == th[i].spans, "spans", "thread %zu (id %u): %zu of %zu spans arrived through its global timeline", i, th[i].tid, v.size(), th[i].spans.size());
        PBT_CHECK(th[i].tid && tids.insert(th[i].tid).second, "thread-id", "threads share the id %u", th[i].tid);
        for (size_t k = 0; k < th[i].ids.size(); k++) { ids.insert(th[i].ids[k]); nids++; PBT_CHECK(!k || th[i].ids[k] > th[i].ids[k - 1], "ids-not-increasing", "ids of one thread do not increase"); }
    }
    PBT_CHECK(ids.size() == nids, "ids-shared", "%zu ids were handed out, %zu of them different", nids, ids.size());
    ht_timeline_destroy(main_gl); ht_timeline_destroy(tl); ht_event_id_provider_destroy(prov);
    ht_deinit();
    if (used_labels) c.label("labels");
    if (used_global) c.label("global");
    c.nontrivial = total * reps >= 20;
}
pbt::Harness& pbt::harness() { static Harness h{"realthreads", run, {}, 60, false}; return h; }
