// C10: concurrent push / flush / register on one thread-safe timeline under generated schedules.
#include "sched.hpp"
#include "events_model.hpp"
#include <hawktracer/init.h>
using namespace model;
using pbt::Case; using pbt::fail;

struct Sent { Ev e; std::string enc; Inst in; std::vector<unsigned char> raw; uint64_t begin = 0, end = 0; };
struct Op { int kind; size_t arg; };                     // 0 push arg-th event, 1 flush, 2 register listener arg
struct Th { std::deque<Sent> ev; std::vector<Op> ops; };
struct Lst { int idx; bool inside = false; uint64_t reg_begin = UINT64_MAX, reg_end = UINT64_MAX; std::vector<std::vector<size_t>> got; size_t chunks = 0; };

static std::deque<Th> g_th;
static bool g_ser;
static uint64_t g_tick = 0;

static void cb(TEventPtr data, size_t size, HT_Boolean serialized, void* ud)
{
    Lst* l = (Lst*)ud;
    PBT_CHECK(!l->inside, "overlapping-calls", "listener %d is called while a previous call to it is still running", l->idx);
    l->inside = true; l->chunks++;
    PBT_CHECK((serialized != 0) == g_ser, "wrong-mode", "chunk flagged serialized=%d", serialized);
    size_t o = 0;
    while (o < size)
    {
        uint64_t id = 0;
        if (g_ser) { PBT_CHECK(o + 20 <= size, "torn-event", "chunk of %zu bytes ends inside an event header at %zu", size, o); memcpy(&id, data + o + 12, 8); }
        else { PBT_CHECK(o + sizeof(HT_Event) <= size, "torn-event", "raw chunk ends inside an event"); id = ((HT_Event*)(data + o))->id; }
        size_t ti = (size_t)(id >> 40), seq = (size_t)(id & 0xffffffffffULL);
        PBT_CHECK(ti < g_th.size() && seq < g_th[ti].ev.size() && g_th[ti].ev[seq].begin, "unknown-event", "listener %d received something that was not pushed (id %llx at offset %zu of %zu)", l->idx, (unsigned long long)id, o, size);
        Sent& s = g_th[ti].ev[seq];
        sched::point();
        if (g_ser)
        {
            PBT_CHECK(o + s.enc.size() <= size, "torn-event", "chunk ends inside an event");
            std::string got((char*)data + o, s.enc.size());
            PBT_CHECK(got == s.enc, "bytes-differ", "thread %zu event %zu %s: %s", ti, seq, s.e.str().c_str(), diff_at(got, s.enc).c_str());
            o += s.enc.size();
        }
        else
        {
            const Klass& k = klasses()[(size_t)s.e.k];
            PBT_CHECK(o + k.size <= size, "torn-event", "raw chunk ends inside an event");
            for (auto* f : all_fields(s.e.k)) PBT_CHECK(memcmp(data + o + f->off, s.raw.data() + f->off, f->size) == 0, "bytes-differ", "raw event of thread %zu differs in %s", ti, f->name.c_str());
            o += k.size;
        }
        auto& g = l->got[ti];
        if (!g.empty()) PBT_CHECK(seq == g.back() + 1, seq <= g.back() ? "duplicate-or-reordered" : "lost-event", "listener %d: event %zu of thread %zu follows event %zu", l->idx, seq, ti, g.back());
        g.push_back(seq);
    }
    sched::point();
    l->inside = false;
}

// everything pushed completely before 'when' by listeners registered before the push must have arrived
static void check_delivered(std::deque<Lst>& ls, uint64_t when, const char* why)
{
    for (auto& l : ls)
        for (size_t ti = 0; ti < g_th.size(); ti++)
            for (size_t s = 0; s < g_th[ti].ev.size(); s++)
            {
                Sent& e = g_th[ti].ev[s];
                if (!e.end || e.end >= when || l.reg_end > e.begin) continue;
                auto& g = l.got[ti];
                PBT_CHECK(!g.empty() && g.front() <= s && g.back() >= s, "not-delivered", "%s: event %zu of thread %zu did not reach listener %d, registered before it was pushed", why, s, ti, l.idx);
            }
}

static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr);
    register_all();
    size_t nt = 2 + t.draw(2), nl0 = 1 + t.draw(1);
    g_ser = !t.chance(1, 4);
    size_t cap = t.weighted({2, 2, 1}) == 0 ? t.draw(60) : t.coin() ? t.draw(300) : t.pick<size_t>({0, 1, 128, 1024});
    std::deque<Lst> ls;
    auto new_l = [&]() -> Lst& { ls.emplace_back(); ls.back().idx = (int)ls.size() - 1; ls.back().got.resize(nt); return ls.back(); };
    size_t pushes = 0;
    for (size_t i = 0; i < nt; i++)
    {
        g_th.emplace_back(); Th& th = g_th.back();
        size_t n = 1 + t.draw(5);
        for (size_t k = 0; k < n; k++)
            switch (t.weighted({8, 2, 2}))
            {
            case 0:
            {
                th.ev.emplace_back(); Sent& s = th.ev.back();
                s.e = gen_event(t, t.pick<int>({I_KU8, I_KStr, I_KMix, I_KInts, I_KDer1, I_CSInt, I_Event}), 40);
                s.e.id = ((uint64_t)i << 40) | (th.ev.size() - 1);
                fill(s.in, s.e); s.enc = encode(s.e); s.raw.assign((unsigned char*)s.in.mem.data(), (unsigned char*)s.in.mem.data() + klasses()[(size_t)s.e.k].size);
                th.ops.push_back({0, th.ev.size() - 1}); pushes++;
                c.note(fmt("thread %zu: push %s (%zu bytes)", i, s.e.str().c_str(), s.enc.size()));
                break;
            }
            case 1: th.ops.push_back({1, 0}); c.note(fmt("thread %zu: flush", i)); break;
            default: { size_t many = t.chance(1, 4) ? 16 : 1; for (size_t z = 0; z < many; z++) { Lst& l = new_l(); th.ops.push_back({2, (size_t)l.idx}); } c.note(fmt("thread %zu: register %zu listener(s)", i, many)); }
            }
    }
    size_t first = ls.size(); for (size_t i = 0; i < nl0; i++) new_l();
    HT_ErrorCode err;
    HT_Timeline* tl = ht_timeline_create(cap, HT_TRUE, g_ser, t.coin() ? "conc" : nullptr, &err);
    if (!tl) fail("create-failed", "timeline creation failed");
    for (size_t i = first; i < ls.size(); i++) { ls[i].reg_begin = ++g_tick; ht_timeline_register_listener(tl, cb, &ls[i]); ls[i].reg_end = ++g_tick; }
    uint64_t preempt = t.draw(40);
    c.note(fmt("cap=%zu serialized=%d, %zu initial listeners, up to %llu preemptions", cap, g_ser, nl0, (unsigned long long)preempt));
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; i++)
        bodies.push_back([&, i] {
            for (auto& op : g_th[i].ops)
            {
                sched::point();
                if (op.kind == 0) { Sent& s = g_th[i].ev[op.arg]; s.begin = ++g_tick; ht_timeline_push_event(tl, s.in.ev()); s.end = ++g_tick; if (g_ser) s.in.scribble(); }
                else if (op.kind == 1) { uint64_t b = ++g_tick; ht_timeline_flush(tl); check_delivered(ls, b, "after a flush"); }
                else { Lst& l = ls[op.arg]; l.reg_begin = ++g_tick; PBT_CHECK(ht_timeline_register_listener(tl, cb, &l) == HT_ERR_OK, "register-failed", "registration failed"); l.reg_end = ++g_tick; }
            }
        });
    sched::run(t, bodies, preempt);
    c.note(fmt("%llu steps, %llu switches", (unsigned long long)sched::g_steps, (unsigned long long)sched::g_switches));
    uint64_t b = ++g_tick;
    if (t.coin()) { ht_timeline_flush(tl); check_delivered(ls, b, "after the final flush"); }
    ht_timeline_destroy(tl);
    check_delivered(ls, b, "after destroying the timeline");
    ht_deinit();
    if (sched::g_external_seen) c.label("blocked-outside");
    c.label(sched::g_switches > nt + 3 ? "preempted" : "few-switches");
    c.nontrivial = pushes >= 2 && sched::g_switches > nt;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_timeline", run, {}, 30, false}; return h; }
