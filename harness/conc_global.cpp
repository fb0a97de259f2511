// C11: global timelines of several threads under generated schedules.
#include "sched.hpp"
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <set>
#include <hawktracer/global_timeline.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
using namespace model;
using pbt::Case; using pbt::fail;

// what a thread expects to have emitted: exact event, or a span / mapping whose clock and id fields are set by the library
struct Exp { int what; Ev e; uint64_t label = 0; std::string str; uint64_t t0lo = 0, t0hi = 0, t1lo = 0, t1hi = 0; uint64_t begin = 0; };   // 0 exact, 1 int span, 2 string span, 3 mapping
struct Op { int kind; Ev e; std::string s; uint64_t label; size_t l; };
struct Th { std::vector<Op> ops; std::vector<Exp> exp, exp2; HT_Timeline* mine = nullptr; std::set<std::string> announced; };
struct Lst { int idx; bool global; uint64_t reg_end = UINT64_MAX; std::vector<std::vector<Ev>> got; };

static std::deque<Th> g_th;
static std::deque<Lst> g_l;
static uint64_t g_tick = 0;

static void cb(TEventPtr data, size_t size, HT_Boolean serialized, void* ud)
{
    Lst* l = (Lst*)ud;
    PBT_CHECK(serialized, "not-serialized", "a global timeline delivered a raw chunk");
    PBT_CHECK(sched::t_self, "foreign-thread", "events delivered on a thread that did not push them");
    size_t ti = (size_t)sched::t_self->idx, o = 0; std::vector<Ev> v;
    while (o < size) { Ev e; size_t n = decode(data + o, size - o, e); PBT_CHECK(n, "torn-event", "listener %d: chunk of %zu bytes from thread %zu cannot be decoded at %zu", l->idx, size, ti, o); v.push_back(e); o += n; sched::point(); }
    for (auto& e : v) l->got[ti].push_back(e);
}

static std::string match(const Exp& x, const Ev& g)
{
    switch (x.what)
    {
    case 0: return encode(x.e) == encode(g) ? "" : "expected " + x.e.str();
    case 1: case 2:
        if (g.k != (x.what == 1 ? I_CSInt : I_CSStr)) return "expected a span";
        if (x.what == 1 ? g.vals[2].u != x.label : g.vals[2].s != x.str) return "expected a span with another label";
        if (g.ts <= x.t0lo || g.ts >= x.t0hi) return fmt("span start %llu not within (%llu, %llu)", (unsigned long long)g.ts, (unsigned long long)x.t0lo, (unsigned long long)x.t0hi);
        if (g.ts + g.vals[0].u <= x.t1lo || g.ts + g.vals[0].u >= x.t1hi) return fmt("span end %llu not within (%llu, %llu)", (unsigned long long)(g.ts + g.vals[0].u), (unsigned long long)x.t1lo, (unsigned long long)x.t1hi);
        return "";
    default: return g.k == I_Map && g.vals[0].u == x.label && g.vals[1].s == x.str ? "" : "expected the mapping of '" + x.str + "'";
    }
}
static void check_stream(const Lst& l, size_t ti, const std::vector<Exp>& exp, const std::vector<Ev>& got, const char* which)
{
    size_t must = exp.size();           // first expected event the listener may not miss
    for (size_t i = exp.size(); i-- > 0;) if (exp[i].begin > l.reg_end) must = i;
    PBT_CHECK(got.size() <= exp.size(), "extra-events", "listener %d received %zu events of thread %zu (%s), which pushed %zu", l.idx, got.size(), ti, which, exp.size());
    size_t k = exp.size() - got.size();
    PBT_CHECK(k <= must, "not-delivered", "listener %d received only %zu of the %zu events thread %zu pushed (%s) after it was registered", l.idx, got.size(), exp.size() - must, ti, which);
    for (size_t i = 0; i < got.size(); i++)
    {
        std::string r = match(exp[k + i], got[i]);
        PBT_CHECK(r.empty(), "wrong-event", "listener %d: event %zu of thread %zu (%s) is %s; %s", l.idx, k + i, ti, which, got[i].str().c_str(), r.c_str());
    }
}

static void run(Case& c)
{
    auto& t = c.t;
    std::string size = fmt("%zu", t.coin() ? (size_t)t.draw(200) : t.pick<size_t>({0, 32, 1024}));
    char a0[] = "prog", a1[] = "--ht-global-timeline-buffer-size"; char* argv[] = {a0, a1, &size[0], nullptr};
    ht_init(3, argv);
    register_all();
    size_t nt = 2 + t.draw(2), n0 = t.draw(1), nops = 0;
    auto new_l = [&](bool g) { g_l.emplace_back(); g_l.back().idx = (int)g_l.size() - 1; g_l.back().global = g; g_l.back().got.resize(nt); return g_l.size() - 1; };
    static const char* statics[] = {"static one", "static two", "st"};
    bool own = t.coin();
    for (size_t i = 0; i < nt; i++)
    {
        g_th.emplace_back(); Th& th = g_th.back();
        size_t n = 1 + t.draw(6), open = 0;
        if (own && t.coin()) { th.ops.push_back({8, {}, "", 0, 0}); c.note(fmt("thread %zu: create timeline 'shared'", i)); }
        bool mine = !th.ops.empty();
        for (size_t k = 0; k < n; k++)
            switch (t.weighted({5, 3, 3, 2, 2, 1, (unsigned)(mine ? 4 : 0), (unsigned)(mine ? 1 : 0)}))
            {
            case 0: { Ev e = gen_event(t, t.pick<int>({I_KU8, I_KStr, I_KMix, I_Event}), 20); th.ops.push_back({0, e, "", 0, 0}); c.note(fmt("thread %zu: push %s", i, e.str().c_str())); break; }
            case 1: th.ops.push_back({1, {}, "", 1000 * (i + 1) + k, 0}); open++; c.note(fmt("thread %zu: start span", i)); break;
            case 2: if (open) { th.ops.push_back({2, {}, "", 0, 0}); open--; c.note(fmt("thread %zu: stop span", i)); } break;
            case 3: th.ops.push_back({3, {}, fmt("dyn%d", (int)t.draw(2)), 0, 0}); c.note(fmt("thread %zu: dynamic label", i)); break;
            case 4: { bool gl = true; th.ops.push_back({4, {}, "", 0, new_l(gl)}); c.note(fmt("thread %zu: register listener on its global timeline", i)); break; }
            case 5: th.ops.push_back({5, {}, "", 0, t.draw(2)}); c.note(fmt("thread %zu: static label", i)); break;
            case 6: { Ev e = gen_event(t, I_KU8, 20); th.ops.push_back({6, e, "", 0, 0}); c.note(fmt("thread %zu: push to 'shared'", i)); break; }
            default: th.ops.push_back({7, {}, "", 0, new_l(false)}); c.note(fmt("thread %zu: register listener on 'shared'", i));
            }
        while (open) { th.ops.push_back({2, {}, "", 0, 0}); open--; }
        if (mine) th.ops.push_back({9, {}, "", 0, 0});
        nops += th.ops.size();
    }
    HT_Timeline* main_tl = nullptr; HT_Timeline* main_sh = nullptr;
    if (n0)
    {
        main_tl = t.coin() ? ht_timeline_create(0, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", nullptr) : ht_global_timeline_get();
        size_t a = new_l(true); ht_timeline_register_listener(main_tl, cb, &g_l[a]); g_l[a].reg_end = ++g_tick;
        if (t.coin()) { main_sh = ht_timeline_create(0, HT_FALSE, HT_TRUE, "shared", nullptr); size_t b = new_l(false); ht_timeline_register_listener(main_sh, cb, &g_l[b]); g_l[b].reg_end = ++g_tick; }
    }
    uint64_t preempt = t.draw(60);
    std::vector<std::function<void()>> bodies;
    std::vector<HT_Timeline*> gtl(nt, nullptr);
    for (size_t i = 0; i < nt; i++)
        bodies.push_back([&, i] {
            Th& th = g_th[i]; std::vector<Exp> open; uint64_t a;
            auto gt = [&] { HT_Timeline* x = ht_global_timeline_get(); PBT_CHECK(x && (!gtl[i] || gtl[i] == x), "not-one-timeline", "thread %zu got two global timelines", i); gtl[i] = x; return x; };
            for (auto& op : th.ops)
            {
                sched::point();
                Exp x; x.begin = ++g_tick; x.what = 0;
                switch (op.kind)
                {
                case 0: case 6:
                {
                    Inst in; fill(in, op.e); x.e = op.e;
                    (op.kind == 0 ? th.exp : th.exp2).push_back(x);
                    ht_timeline_push_event(op.kind == 0 ? gt() : th.mine, in.ev()); break;
                }
                case 1: x.what = 1; x.label = op.label; a = sched::g_clock; ht_feature_callstack_start_int(gt(), op.label); x.t0lo = a; x.t0hi = sched::g_clock + 1; open.push_back(x); break;
                case 2: { Exp s = open.back(); open.pop_back(); s.begin = x.begin; s.t1lo = sched::g_clock; s.t1hi = UINT64_MAX; size_t at = th.exp.size(); th.exp.push_back(s); ht_feature_callstack_stop(gt()); th.exp[at].t1hi = sched::g_clock + 1; break; }
                case 3: case 5:
                {
                    std::string s = op.kind == 3 ? op.s : statics[op.l];
                    std::string key = (op.kind == 3 ? "d" : "s") + s; x.what = 3; x.str = s;
                    bool fresh = th.announced.insert(key).second; size_t at = th.exp.size();
                    if (fresh) th.exp.push_back(x);
                    std::string tmp = s;
                    uint64_t id = op.kind == 3 ? ht_feature_cached_string_add_mapping_dynamic(gt(), tmp.c_str()) : ht_feature_cached_string_add_mapping(gt(), statics[op.l]);
                    if (fresh) th.exp[at].label = id;
                    break;
                }
                case 4: PBT_CHECK(ht_timeline_register_listener(gt(), cb, &g_l[op.l]) == HT_ERR_OK, "register-failed", "registration failed"); g_l[op.l].reg_end = ++g_tick; break;
                case 7: PBT_CHECK(ht_timeline_register_listener(th.mine, cb, &g_l[op.l]) == HT_ERR_OK, "register-failed", "registration failed"); g_l[op.l].reg_end = ++g_tick; break;
                case 8: th.mine = ht_timeline_create(op.label ? 64 : 40, HT_FALSE, HT_TRUE, "shared", nullptr); PBT_CHECK(th.mine, "create-failed", "timeline creation failed"); break;
                default: ht_timeline_destroy(th.mine); th.mine = nullptr;
                }
            }
        });
    sched::run(t, bodies, preempt);
    c.note(fmt("%llu steps, %llu switches", (unsigned long long)sched::g_steps, (unsigned long long)sched::g_switches));
    std::map<uint64_t, size_t> tid;     // thread id -> thread
    for (auto& l : g_l)
        for (size_t ti = 0; ti < nt; ti++)
        {
            check_stream(l, ti, l.global ? g_th[ti].exp : g_th[ti].exp2, l.got[ti], l.global ? "global timeline" : "named timeline");
            for (auto& e : l.got[ti]) if (e.k == I_CSInt) { auto r = tid.insert({e.vals[1].u, ti}); PBT_CHECK(r.first->second == ti && e.vals[1].u, "thread-ids-mixed", "threads %zu and %zu emit spans with thread id %llu", r.first->second, ti, (unsigned long long)e.vals[1].u); }
        }
    ht_deinit();
    if (g_l.size() > 1) c.label("several-listeners");
    c.nontrivial = !g_l.empty() && nops >= 4 && sched::g_switches > nt;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_global", run, {}, 30, false}; return h; }
