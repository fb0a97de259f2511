// C01: every event pushed to a timeline is delivered to every listener of its group exactly once, in push order,
// whole and unmodified, at the latest on flush / destroy.
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/alloc.h>
#include <set>
using namespace model;
using pbt::Case; using pbt::fail;

struct Pushed { Ev e; std::string enc; std::vector<unsigned char> raw; size_t cost; };
struct Group;
struct TL
{
    HT_Timeline* t = nullptr; int idx = 0; size_t cap = 0; bool safe = false, ser = true; Group* g = nullptr;
    std::deque<Pushed> ev; size_t flushed_to = 0;      // everything below was delivered by an explicit flush
};
struct Lst
{
    int idx = 0; Group* g = nullptr; bool active = true; int destroyed = 0; bool has_destroy = false;
    struct Pos { bool started = false; size_t next = 0, lo = 0, must = 0; };
    std::map<TL*, Pos> pos;                             // per timeline of the group
    size_t chunks = 0, multi = 0;
};
struct Group { std::string name; bool named = false; std::vector<Lst*> active; std::vector<TL*> tls; };

static std::deque<TL*> g_tls;   // by index
static bool g_in_push_or_flush = false;
static TL* g_current = nullptr;

static void cb(TEventPtr data, size_t size, HT_Boolean serialized, void* ud)
{
    Lst* l = (Lst*)ud;
    PBT_CHECK(l->active, "callback-after-unregister", "listener %d was called after it was unregistered", l->idx);
    l->chunks++;
    size_t o = 0, n = 0; TL* chunk_tl = nullptr;
    while (o < size)
    {
        uint64_t id = 0;
        if (serialized) { PBT_CHECK(o + 20 <= size, "torn-event", "chunk of %zu bytes ends inside an event header at %zu", size, o); memcpy(&id, data + o + 12, 8); }
        else { PBT_CHECK(o + sizeof(HT_Event) <= size, "torn-event", "raw chunk of %zu bytes ends inside an event at %zu", size, o); id = ((HT_Event*)(data + o))->id; }
        size_t ti = (size_t)(id >> 40), seq = (size_t)(id & 0xffffffffffULL);
        PBT_CHECK(ti < g_tls.size() && seq < g_tls[ti]->ev.size(), "unknown-event", "listener %d received an event that was never pushed (id %llx, offset %zu of %zu)", l->idx, (unsigned long long)id, o, size);
        TL* t = g_tls[ti];
        PBT_CHECK(t->g == l->g, "wrong-group", "listener %d of group '%s' received an event of timeline %zu of group '%s'", l->idx, l->g->name.c_str(), ti, t->g->name.c_str());
        PBT_CHECK((serialized != 0) == t->ser, "wrong-mode", "timeline %zu serialize=%d delivered a chunk flagged serialized=%d", ti, t->ser, serialized);
        PBT_CHECK(!chunk_tl || chunk_tl == t, "mixed-chunk", "one chunk carries events of two timelines");
        chunk_tl = t;
        Lst::Pos& p = l->pos[t];
        if (!p.started)
        {
            PBT_CHECK(seq >= p.lo && seq <= p.must, "wrong-first-event", "listener %d: first event received from timeline %zu is #%zu, expected between #%zu and #%zu", l->idx, ti, seq, p.lo, p.must);
            p.started = true; p.next = seq;
        }
        PBT_CHECK(seq == p.next, seq < p.next ? "duplicate-or-reordered" : "lost-event", "listener %d: timeline %zu event #%zu delivered, expected #%zu", l->idx, ti, seq, p.next);
        Pushed& x = t->ev[seq];
        if (serialized)
        {
            PBT_CHECK(o + x.enc.size() <= size, "torn-event", "chunk ends inside event #%zu (%s): %zu of %zu bytes", seq, x.e.str().c_str(), size - o, x.enc.size());
            std::string got((char*)data + o, x.enc.size());
            PBT_CHECK(got == x.enc, "bytes-differ", "event #%zu %s: %s", seq, x.e.str().c_str(), diff_at(got, x.enc).c_str());
            o += x.enc.size();
        }
        else
        {
            const Klass& k = klasses()[(size_t)x.e.k];
            PBT_CHECK(o + k.size <= size, "torn-event", "raw chunk ends inside event #%zu", seq);
            HT_Event* e = (HT_Event*)(data + o);
            PBT_CHECK(e->klass == k.get() && e->timestamp == x.e.ts, "bytes-differ", "raw event #%zu header differs", seq);
            for (auto* f : all_fields(x.e.k))
                PBT_CHECK(memcmp(data + o + f->off, x.raw.data() + f->off, f->size) == 0, "bytes-differ", "raw event #%zu field %s differs", seq, f->name.c_str());
            o += k.size;
        }
        p.next++; n++;
    }
    if (n > 1) l->multi++;
}
static void destroy_cb(void* ud) { Lst* l = (Lst*)ud; l->destroyed++; PBT_CHECK(l->destroyed == 1, "destroy-cb-twice", "destroy callback of listener %d called twice", l->idx); l->active = false; }

static void check_complete(Group* g, TL* t, const char* why)
{
    for (Lst* l : g->active)
    {
        auto& p = l->pos[t];
        if (p.must >= t->ev.size() && !p.started) continue;        // nothing was pushed since this listener joined
        PBT_CHECK(p.started && p.next == t->ev.size(), "not-delivered", "after %s of timeline %d listener %d has seen events up to #%zu of %zu", why, t->idx, l->idx, p.started ? p.next : p.must, t->ev.size());
    }
    t->flushed_to = t->ev.size();
}

static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr);
    register_all();
    std::deque<Group> groups; std::deque<TL> tls; std::deque<Lst> lsts; std::deque<std::deque<Inst>> keep;
    std::vector<Inst*> alive_raw;
    g_tls.clear();
    static const char* names[] = {"g", "group", "HT_x", "another name", "Ab", "BA", ""};
    auto find_group = [&](int which) -> Group* {
        if (which < 0) { groups.push_back(Group{"<private>", false, {}, {}}); return &groups.back(); }
        for (auto& g : groups) if (g.named && g.name == names[which]) return &g;
        groups.push_back(Group{names[which], true, {}, {}}); return &groups.back();
    };
    auto live = [&] { std::vector<TL*> v; for (auto& x : tls) if (x.t) v.push_back(&x); return v; };
    size_t nops = 5 + t.count(120), pushes = 0, flushes = 0, bigs = 0;
    bool small_strings = t.coin();
    auto create = [&] {
        TL x; x.idx = (int)tls.size();
        switch (t.weighted({3, 3, 2, 1}))
        {
        case 0: x.cap = t.draw(300); break;
        case 1: x.cap = 20 + t.draw(60); break;
        case 2: x.cap = t.pick<size_t>({0, 1, 19, 20, 21, 127, 128, 129, 1024, 4096}); break;
        default: x.cap = t.draw(5000); break;
        }
        x.safe = t.coin(); x.ser = !t.chance(1, 4);
        int w = t.chance(1, 2) ? (int)t.draw(sizeof names / sizeof *names - 1) : -1;
        HT_ErrorCode e = HT_ERR_UNKNOWN;
        x.t = ht_timeline_create(x.cap, x.safe, x.ser, w < 0 ? nullptr : names[w], &e);
        PBT_CHECK(x.t && e == HT_ERR_OK, "create-failed", "ht_timeline_create failed with %d", (int)e);
        x.g = find_group(w);
        tls.push_back(x); g_tls.push_back(&tls.back());
        tls.back().g->tls.push_back(&tls.back());
        c.note(fmt("create timeline %d cap=%zu safe=%d serialize=%d group=%s", x.idx, x.cap, x.safe, x.ser, w < 0 ? "-" : names[w]));
    };
    create();
    for (size_t i = 0; i < nops; i++)
    {
        auto lv = live();
        if (lv.empty()) { create(); lv = live(); }
        TL* tl = t.pick(lv);
        switch (t.weighted({60, 8, 8, 2, 3, 3}))
        {
        case 0: // push
        {
            size_t burst = t.chance(1, 6) ? 1 + t.draw(20) : 1;
            int k = (int)t.draw(I_COUNT - 1);
            for (size_t b = 0; b < burst; b++)
            {
                Pushed p; p.e = gen_event(t, k, small_strings ? 20 : 400);
                p.e.id = ((uint64_t)tl->idx << 40) | tl->ev.size();
                keep.emplace_back(); keep.back().emplace_back(); Inst& in = keep.back().back();
                fill(in, p.e);
                const Klass& kl = klasses()[(size_t)k];
                p.enc = encode(p.e); p.raw.assign((unsigned char*)in.mem.data(), (unsigned char*)in.mem.data() + kl.size);
                p.cost = tl->ser ? p.enc.size() : kl.size;
                if (p.cost > tl->cap) bigs++;
                tl->ev.push_back(std::move(p));
                c.note(fmt("push tl%d %s (%zu bytes)", tl->idx, tl->ev.back().e.str().c_str(), tl->ev.back().cost));
                ht_timeline_push_event(tl->t, in.ev());
                // the caller may reuse its event object (and, for serialized timelines, its strings) right away
                if (tl->ser) { in.scribble(); keep.pop_back(); } else memset(in.mem.data(), 0xDD, in.mem.size() * 8);
                pushes++;
                for (Lst* l : tl->g->active)
                {
                    auto& q = l->pos[tl]; size_t from = q.started ? q.next : q.must, pend = 0;
                    for (size_t z = from; z < tl->ev.size(); z++) pend += tl->ev[z].cost;
                    PBT_CHECK(pend <= tl->cap, "over-buffered", "timeline %d with a %zu byte buffer holds back %zu bytes from listener %d", tl->idx, tl->cap, pend, l->idx);
                }
            }
            break;
        }
        case 1: c.note(fmt("flush tl%d", tl->idx)); ht_timeline_flush(tl->t); flushes++; check_complete(tl->g, tl, "flush"); break;
        case 2: // register listener(s)
        {
            size_t n = t.chance(1, 8) ? 1 + t.draw(40) : 1;
            for (size_t z = 0; z < n; z++)
            {
                lsts.emplace_back(); Lst& l = lsts.back(); l.idx = (int)lsts.size() - 1; l.g = tl->g; l.has_destroy = t.coin();
                for (TL* x : tl->g->tls) { auto& p = l.pos[x]; p.lo = x->flushed_to; p.must = x->ev.size(); }
                HT_ErrorCode e = l.has_destroy ? ht_timeline_register_listener_full(tl->t, cb, &l, destroy_cb) : ht_timeline_register_listener(tl->t, cb, &l);
                PBT_CHECK(e == HT_ERR_OK, "register-failed", "register_listener returned %d", (int)e);
                tl->g->active.push_back(&l);
            }
            c.note(fmt("register %zu listener(s) on group of tl%d (now %zu)", n, tl->idx, tl->g->active.size()));
            break;
        }
        case 3:
            c.note(fmt("unregister all of tl%d's group", tl->idx));
            ht_timeline_unregister_all_listeners(tl->t);
            for (Lst* l : tl->g->active) { PBT_CHECK(l->destroyed == (l->has_destroy ? 1 : 0), "destroy-cb-missing", "listener %d: destroy callback count %d after unregister", l->idx, l->destroyed); l->active = false; }
            tl->g->active.clear();
            break;
        case 4: create(); break;
        case 5:
        {
            c.note(fmt("destroy tl%d", tl->idx));
            Group* g = tl->g; HT_Timeline* h = tl->t;
            bool last = !g->named;
            std::vector<Lst*> act = g->active;
            ht_timeline_destroy(h); tl->t = nullptr;
            check_complete(g, tl, "destroy");
            if (last)
                for (Lst* l : act) { PBT_CHECK(l->destroyed == (l->has_destroy ? 1 : 0), "destroy-cb-missing", "listener %d: destroy callback count %d after its only timeline was destroyed", l->idx, l->destroyed); l->active = false; }
            if (last) g->active.clear();
            break;
        }
        }
    }
    for (TL* x : live()) { ht_timeline_destroy(x->t); x->t = nullptr; check_complete(x->g, x, "final destroy"); if (!x->g->named) x->g->active.clear(); }
    ht_deinit();
    size_t nl = 0; bool multi = false;
    for (auto& l : lsts) { PBT_CHECK(l.destroyed == (l.has_destroy ? 1 : 0), "destroy-cb-missing", "listener %d: destroy callback count %d at the end", l.idx, l.destroyed); nl += l.chunks > 0; multi |= l.multi > 0; }
    if (bigs) c.label("event-larger-than-buffer");
    if (multi) c.label("multi-event-chunk");
    if (nl > 1) c.label("several-listeners");
    if (nl > 16) c.label(">16-listeners");
    if (tls.size() > 1) c.label("several-timelines");
    c.nontrivial = pushes >= 3 && nl >= 1 && flushes >= 1;
}

pbt::Harness& pbt::harness() { static Harness h{"timeline", run, {}, 30, false}; return h; }
