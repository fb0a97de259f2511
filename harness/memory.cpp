// C19 (-DOOM): every history of library calls is repeated with the k-th allocation (and the following ones) failing.
// C20: the same histories, plus threads with global timelines and nested initialization, torn down in every order.
#include "events_model.hpp"
#include "meta_model.hpp"
#include <hawktracer.h>
#include <hawktracer/alloc.h>
#include <hawktracer/init.h>
#include <hawktracer/registry.h>
#include <hawktracer/feature.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <hawktracer/task_scheduler.h>
#include <hawktracer/timeline_listener.h>
#include <dirent.h>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <set>
#include <thread>
#include <unordered_map>
#include <sanitizer/allocator_interface.h>
using namespace model;
using pbt::Case; using pbt::fail;

// ---- the allocator -------------------------------------------------------------------------------------------------
struct Alloc
{
    std::mutex m; std::unordered_map<void*, size_t> live;
    size_t requests = 0, failures = 0; size_t fail_from = SIZE_MAX, fail_count = 0;
    std::vector<int> op_of;            // which operation made the request
    int op = -1; bool record = false;
};
static Alloc g_a;
static void* alloc_fn(void* ptr, size_t size, void* ud)
{
    PBT_CHECK(ud == &g_a, "allocator-user-data", "the allocator was called with another user data pointer");
    std::lock_guard<std::mutex> l(g_a.m);
    PBT_CHECK(ptr || size, "allocator-contract", "the allocator was called with a null pointer and size 0");
    if (ptr) PBT_CHECK(g_a.live.count(ptr), "allocator-unknown-pointer", "%s of a block that is not allocated", size ? "reallocation" : "release");
    if (size == 0) { g_a.live.erase(ptr); free(ptr); return nullptr; }
    size_t n = g_a.requests++;
    if (g_a.record) g_a.op_of.push_back(g_a.op);
    if (n >= g_a.fail_from && n - g_a.fail_from < g_a.fail_count) { g_a.failures++; return nullptr; }
    void* p = malloc(size);
    memset(p, 0xCB, size);
    if (ptr) { memcpy(p, ptr, std::min(size, g_a.live[ptr])); g_a.live.erase(ptr); free(ptr); }   // always moves
    g_a.live[p] = size;
    return p;
}

// ---- user features -------------------------------------------------------------------------------------------------
static int g_features_alive = 0;
#define USER_FEATURE(N) struct N { HT_Feature base; uint64_t canary; }; \
    static void N##_destroy(HT_Feature* f) { PBT_CHECK(((N*)f)->canary == 0xFEA7, "feature-destroyed-twice", "destroy of a feature that is not alive"); ((N*)f)->canary = 0; g_features_alive--; ht_free(f); } \
    HT_FEATURE_DEFINE(N, N##_destroy)
USER_FEATURE(UserFeatA)
USER_FEATURE(UserFeatB)
USER_FEATURE(UserFeatNever)

// ---- the model -----------------------------------------------------------------------------------------------------
struct Slot { std::multiset<std::string> keys; bool optional; };
struct TL;
struct Lst
{
    int idx = 0; bool active = true, has_destroy = false, is_file = false, is_tcp = false; int destroyed = 0;
    std::map<int, std::deque<Slot>> expect; std::map<int, size_t> firm; std::map<int, std::vector<std::string>> got;
    std::map<int, size_t> matched;
    std::string path; void* obj = nullptr;
};
struct Group { std::string name; bool named = false; std::vector<Lst*> active; std::vector<TL*> tls; };
struct Span { std::string key; bool maybe; };
struct TL
{
    int idx = 0; HT_Timeline* t = nullptr; Group* g = nullptr; size_t cap = 0; bool ser = true;
    bool cs = false, cached = false, featA = false, featB = false;
    std::vector<Span> stack; std::map<std::string, std::string> mapped[2];   // label -> key, static and dynamic
    std::map<std::string, uint64_t> ids[2];
    unsigned seq = 0, spans = 0;
};
struct Sched { HT_TaskScheduler* s = nullptr; std::vector<HT_TaskId> ids; std::deque<unsigned>* runs; };

struct Op { int kind = 0; uint64_t a = 0, b = 0, c = 0, d = 0; Ev ev; std::vector<Op> sub; };
enum { CREATE, PUSH, SPAN_START, SPAN_STOP, MAP_STATIC, MAP_DYN, PUSH_MAP, LISTEN, UNLISTEN, FLUSH, DESTROY, CALLSTACK, CACHED, FILE_L, TCP_L, KLASS, METADATA,
       SCHED_NEW, SCHED_ADD, SCHED_REMOVE, SCHED_TICK, SCHED_DESTROY, PROVIDER, FEATURE, FEATURE_NEVER, REINIT, THREAD, OPS };
static const char* OP_NAMES[] = {"create timeline", "push", "span start", "span stop", "map static label", "map dynamic label", "push map", "register listener", "unregister all listeners", "flush", "destroy timeline",
    "enable callstack", "enable cached strings", "register file listener", "register tcp listener", "register class", "request metadata", "create scheduler", "schedule task", "remove task", "tick", "destroy scheduler",
    "id provider", "set user feature", "set unregistered feature", "nested init", "thread"};

static const char* NAMES[] = {"HT_GlobalTimeline", "group", "Ab", "BA"};
// labels of one timeline lie 4096 bytes apart, so static labels fall into few buckets of a hash table of pointers
static const char* label(int t, uint64_t i)
{
    static char* mem = nullptr;
    if (!mem)
    {
        mem = (char*)aligned_alloc(4096, 64 * 16 * 4096); memset(mem, 0, 64 * 16 * 4096);
        for (int a = 0; a < 64; a++) for (int k = 0; k < 16; k++) strcpy(mem + (a * 16 + k) * 4096, fmt("t%d.label%d%s", a, k, std::string((size_t)(k * k), 'x').c_str()).c_str());
    }
    return mem + ((size_t)(t % 64) * 16 + i % 16) * 4096;
}

static std::string key_of(const Ev& e, const std::vector<uint64_t>&)
{
    // events created by the library have unpredictable ids, timestamps, durations and thread ids
    const std::string& n = klasses()[(size_t)e.k].name;
    if (n == "HT_CallstackIntEvent") return fmt("int span %llx", (unsigned long long)e.vals[2].u);
    if (n == "HT_CallstackStringEvent") return "string span " + e.vals[2].s;
    if (n == "KCall2") return fmt("big span %llx %u '", (unsigned long long)e.vals[2].u, (unsigned)e.vals[3].u) + e.vals[4].s + "'";
    if (n == "HT_StringMappingEvent") return fmt("map %llx ", (unsigned long long)e.vals[0].u) + e.vals[1].s;
    return encode_with_id(e, 0);
}
static size_t decode_raw(const unsigned char* d, size_t n, Ev& e)
{
    if (n < sizeof(HT_Event)) return 0;
    HT_Event b; memcpy(&b, d, sizeof b);
    e.k = -1; e.vals.clear(); e.ts = b.timestamp; e.id = b.id;
    for (size_t i = 0; i < klasses().size(); i++) if (klasses()[i].get() == b.klass) e.k = (int)i;
    if (e.k < 0 || klasses()[(size_t)e.k].size > n) return 0;
    for (auto* f : all_fields(e.k))
    {
        Val v;
        if (f->kind == STR) { const char* s; memcpy(&s, d + f->off, sizeof s); v.s = s ? s : ""; } else memcpy(&v.u, d + f->off, f->size);
        e.vals.push_back(v);
    }
    return klasses()[(size_t)e.k].size;
}
static int timeline_of(const Ev& e)
{
    const std::string& n = klasses()[(size_t)e.k].name;
    if (n == "HT_CallstackIntEvent" || n == "KCall2") return (int)(e.vals[2].u >> 32);
    if (n == "HT_CallstackStringEvent") return atoi(e.vals[2].s.c_str() + 1);
    if (n == "HT_StringMappingEvent") return atoi(e.vals[1].s.c_str() + 1);
    return (int)(e.id >> 40);
}
static void add_events(Lst* l, const unsigned char* data, size_t size, bool ser)
{
    size_t o = 0;
    while (o < size)
    {
        Ev e; size_t k = ser ? decode(data + o, size - o, e) : decode_raw(data + o, size - o, e);
        PBT_CHECK(k, "torn-event", "listener %d received data that is not a sequence of whole events (offset %zu of %zu)", l->idx, o, size);
        l->got[timeline_of(e)].push_back(key_of(e, {}));
        o += k;
    }
}

struct World
{
    std::deque<std::string> pool;   // labels live as long as the timelines
    Case* c; const std::vector<Op>* ops; bool log;
    std::deque<Group> groups; std::deque<TL> tls; std::deque<Lst> lsts; std::deque<Sched> scheds; std::deque<std::deque<unsigned>> runs;
    std::deque<Inst> keep; std::set<int> registered; unsigned inits = 0; bool up = false;
    struct Thr { std::thread th; std::mutex m; std::condition_variable cv; bool may_exit = false, worked = false; TL* tl = nullptr; };
    std::deque<Thr> threads; unsigned files = 0; size_t delivered = 0; unsigned errors = 0;
    std::map<int, HT_EventIdProvider*> providers;
    bool failed_in_op = false; size_t failures_before = 0;
    void begin() { failures_before = g_a.failures; }
    bool injected() { return g_a.failures != failures_before; }
};
static World* W;

static void cb(TEventPtr data, size_t size, HT_Boolean ser, void* ud)
{
    Lst* l = (Lst*)ud;
    PBT_CHECK(l->active, "callback-after-unregister", "listener %d was called after it was removed", l->idx);
    add_events(l, data, size, ser);
}
static void destroy_cb(void* ud)
{
    Lst* l = (Lst*)ud; l->destroyed++;
    PBT_CHECK(l->destroyed == 1, "destroy-cb-twice", "the destroy callback of listener %d was called %d times", l->idx, l->destroyed);
    bool expected = false;
    (void)expected;
    l->active = false;
}
// The received events must be the expected ones in order; optional ones may be missing. A slot with several keys (the whole
// map) comes in any order. The same label can be expected more than once, so all ways to align the two are followed.
static void match(Lst* l, int tl, const char* why)
{
    auto& ex = l->expect[tl]; auto& got = l->got[tl];
    std::set<size_t> at{l->matched[tl]};
    for (auto& s : ex)
    {
        std::set<size_t> to;
        for (size_t p : at)
        {
            if (s.optional) to.insert(p);
            auto left = s.keys; size_t q = p;
            while (!left.empty() && q < got.size() && left.count(got[q])) { left.erase(left.find(got[q])); q++; if (s.optional) to.insert(q); }
            if (left.empty()) to.insert(q);
        }
        if (to.empty())
        {
            size_t p = *at.rbegin();
            fail("lost-event", fmt("%s: listener %d received '%s' of timeline %d instead of '%s'%s", why, l->idx, p < got.size() ? hexdump(got[p]).c_str() : "nothing", tl, hexdump(*s.keys.begin()).c_str(), s.keys.size() > 1 ? " (one of a map)" : ""));
        }
        at = to;
    }
    PBT_CHECK(at.count(got.size()), "unexpected-event", "%s: listener %d received '%s' of timeline %d twice, out of order or without it being pushed", why, l->idx, hexdump(got[std::min(*at.rbegin(), got.size() - 1)]).c_str(), tl);
    W->delivered += got.size() - l->matched[tl]; l->matched[tl] = got.size();
    ex.clear();
}
static void pushed(TL* x, const std::multiset<std::string>& keys, bool optional)
{
    for (Lst* l : x->g->active) l->expect[x->idx].push_back(Slot{keys, optional});
}
// a raw event too big for the buffer of a file listener needs memory while it is delivered
static void delivery(TL* x)
{
    if (x->ser || !W->injected()) return;
    for (Lst* l : x->g->active) if (l->is_file) for (auto& s : l->expect[x->idx]) s.optional = true;
}
static void check_tl(TL* x, const char* why)
{
    for (Lst* l : x->g->active) if (!l->is_file && !l->is_tcp) match(l, x->idx, why);
}
static void end_listener(Lst* l)     // its data is complete
{
    if (l->is_tcp) return;
    if (l->is_file)
    {
        std::string s = pbt::slurp(l->path, SIZE_MAX); unlink(l->path.c_str());
        std::vector<meta::M> m; size_t o = meta::read_all(s, m);
        PBT_CHECK(m.size() >= 2 && m[0].kind == 'E', "file-without-metadata", "a file written by a listener starts with %zu metadata events", m.size());
        add_events(l, (const unsigned char*)s.data() + o, s.size() - o, true);
    }
    for (auto& p : l->expect) match(l, p.first, l->is_file ? "end of a file listener" : "removal of a listener");
    for (auto& p : l->got) if (l->matched[p.first] != p.second.size()) { int tl = p.first; match(l, tl, "end"); }
}
static void note(const std::string& s) { if (W->log) W->c->note(s); }

static void do_flush(TL* x)
{
    W->begin(); ht_timeline_flush(x->t); delivery(x); check_tl(x, "flush");
}
static void flush_group(Group* g) { for (TL* x : g->tls) if (x->t) do_flush(x); }

static TL* pick_tl(uint64_t a)
{
    std::vector<TL*> v; for (auto& x : W->tls) if (x.t) v.push_back(&x);
    return v.empty() ? nullptr : v[a % v.size()];
}
static Group* group_for(uint64_t b)
{
    if (b >= sizeof NAMES / sizeof *NAMES) { W->groups.push_back(Group{"<private>", false, {}, {}}); return &W->groups.back(); }
    for (auto& g : W->groups) if (g.named && g.name == NAMES[b]) return &g;
    W->groups.push_back(Group{NAMES[b], true, {}, {}}); return &W->groups.back();
}
static void group_gone(Group* g, const char* why)
{
    for (Lst* l : g->active)
    {
        if (l->has_destroy) PBT_CHECK(l->destroyed == 1, "destroy-cb-missing", "%s: the destroy callback of listener %d was called %d times", why, l->idx, l->destroyed);
        l->active = false; end_listener(l);
    }
    g->active.clear();
}
static void group_kept(Group* g, const char* why)
{
    for (Lst* l : g->active) PBT_CHECK(!l->destroyed, "destroyed-too-early", "%s: listener %d was destroyed although its group still exists", why, l->idx);
}
static void tl_gone(TL* x, const char* why)
{
    delivery(x); check_tl(x, why);
    Group* g = x->g; x->t = nullptr;
    g->tls.erase(std::find(g->tls.begin(), g->tls.end(), x));
    if (g->tls.empty() && (!g->named || !W->up)) group_gone(g, why); else group_kept(g, why);
}
static void destroy_tl(TL* x)
{
    W->begin();
    int fa = g_features_alive, own = x->featA + x->featB;
    ht_timeline_destroy(x->t);
    PBT_CHECK(g_features_alive == fa - own, "feature-destruction", "destroying a timeline with %d user features destroyed %d", own, fa - g_features_alive);
    tl_gone(x, "destroying the timeline");
}

static void exec_on(TL* x, const Op& op)
{
    W->begin();
    switch (op.kind)
    {
    case PUSH:
    {
        Ev e = op.ev; e.id = ((uint64_t)x->idx << 40) | x->seq++;
        if (!W->registered.count(e.k)) return;
        W->keep.emplace_back(); Inst& in = W->keep.back(); fill(in, e);
        ht_timeline_push_event(x->t, in.ev());
        if (x->ser) in.scribble();
        pushed(x, {encode_with_id(e, 0)}, W->injected()); delivery(x);
        break;
    }
    case SPAN_START:
    {
        if (!x->cs || x->stack.size() > 60) return;
        unsigned n = x->spans++; std::string key;
        uint64_t id = ((uint64_t)x->idx << 32) | n;
        if (op.b % 4 == 0)
        {
            auto& pool = W->pool; pool.push_back(fmt("t%d.span%u", x->idx, n) + std::string(op.c % 200, 'y'));
            key = "string span " + pool.back();
            ht_feature_callstack_start_string(x->t, pool.back().c_str());
        }
        else if (op.b % 4 == 1 && W->registered.count(I_KCall2))
        {
            auto& pool = W->pool; pool.push_back(std::string(op.c % 300, 'c'));
            HT_DECL_EVENT(KCall2, e);
            ((HT_CallstackIntEvent*)&e)->label = id; e.extra = (uint8_t)n; e.comment = pool.back().c_str();
            key = fmt("big span %llx %u '", (unsigned long long)id, n & 255) + pool.back() + "'";
            ht_feature_callstack_start(x->t, (HT_CallstackBaseEvent*)&e);
        }
        else { key = fmt("int span %llx", (unsigned long long)id); ht_feature_callstack_start_int(x->t, id); }
        x->stack.push_back(Span{key, W->injected() || (!x->stack.empty() && x->stack.back().maybe)});
        break;
    }
    case SPAN_STOP:
        if (x->stack.empty()) return;
        ht_feature_callstack_stop(x->t);
        pushed(x, {x->stack.back().key}, x->stack.back().maybe || W->injected()); delivery(x);
        x->stack.pop_back();
        break;
    case MAP_STATIC: case MAP_DYN:
    {
        if (!x->cached) return;
        int dyn = op.kind == MAP_DYN; const char* l = label(x->idx, op.b);
        std::string copy = l;
        uint64_t id = dyn ? ht_feature_cached_string_add_mapping_dynamic(x->t, copy.c_str()) : ht_feature_cached_string_add_mapping(x->t, l);
        copy.assign(copy.size(), '!');
        if (!id) { PBT_CHECK(W->injected() && !x->mapped[dyn].count(l), "mapping-failed", "adding label '%s' failed%s", l, W->injected() ? " although it was known" : " without a failed allocation"); W->errors++; return; }
        if (x->ids[dyn].count(l)) PBT_CHECK(x->ids[dyn][l] == id, "label-id-changed", "label '%s' has another id than before", l);
        x->ids[dyn][l] = id;
        if (x->mapped[dyn].count(l)) return;
        std::string key = fmt("map %llx ", (unsigned long long)id) + l;
        x->mapped[dyn][l] = key;
        pushed(x, {key}, W->injected()); delivery(x);
        break;
    }
    case PUSH_MAP:
    {
        if (!x->cached) return;
        std::multiset<std::string> k; for (auto& m : x->mapped) for (auto& p : m) k.insert(p.second);
        ht_feature_cached_string_push_map(x->t);
        if (!k.empty()) pushed(x, k, W->injected());
        delivery(x);
        break;
    }
    case FLUSH: do_flush(x); break;
    }
}
// while events wait in the buffer of the timeline only what was delivered can be checked, which match() does at the next flush

static void exec(const Op& op)
{
    TL* x = nullptr;
    auto need = [&] { x = pick_tl(op.a); return x != nullptr; };
    switch (op.kind)
    {
    case CREATE:
    {
        if (W->tls.size() >= 60) return;
        W->tls.emplace_back(); TL& n = W->tls.back(); n.idx = (int)W->tls.size() - 1; n.cap = op.c; n.ser = op.d & 1;
        Group* g = group_for(op.b);
        HT_ErrorCode e = HT_ERR_UNKNOWN;
        W->begin();
        n.t = ht_timeline_create(n.cap, (HT_Boolean)(op.d >> 1 & 1), n.ser, g->named ? g->name.c_str() : nullptr, &e);
        PBT_CHECK((n.t != nullptr) == (e == HT_ERR_OK), "create-result", "ht_timeline_create returned %s and error %d", n.t ? "a timeline" : "NULL", (int)e);
        PBT_CHECK(n.t || W->injected(), "create-failed", "creating a timeline failed with %d without a failed allocation", (int)e);
        if (n.t) { n.g = g; g->tls.push_back(&n); } else W->errors++;
        note(fmt("timeline %d: create capacity %zu %s group %s -> %s", n.idx, n.cap, n.ser ? "serialized" : "raw", g->name.c_str(), n.t ? "ok" : "error"));
        break;
    }
    case DESTROY:
        if (!need()) return;
        for (auto& th : W->threads) if (th.tl == x && th.th.joinable()) return;      // belongs to a thread
        while (!x->stack.empty() && (op.b & 1)) exec_on(x, Op{SPAN_STOP});
        note(fmt("timeline %d: destroy (%zu open spans)", x->idx, x->stack.size()));
        destroy_tl(x);
        break;
    case LISTEN: case FILE_L: case TCP_L:
    {
        if (!need()) return;
        flush_group(x->g);
        W->lsts.emplace_back(); Lst& l = W->lsts.back(); l.idx = (int)W->lsts.size() - 1;
        HT_ErrorCode e = HT_ERR_UNKNOWN; W->begin();
        if (op.kind == LISTEN)
        {
            l.has_destroy = op.b & 1;
            e = l.has_destroy ? ht_timeline_register_listener_full(x->t, cb, &l, destroy_cb) : ht_timeline_register_listener(x->t, cb, &l);
        }
        else if (op.kind == FILE_L)
        {
            l.is_file = true; l.path = fmt("%s/f%d.%u", pbt::g_scratch, (int)getpid(), W->files++);
            bool raw = false; for (TL* y : x->g->tls) raw |= !y->ser;
            l.obj = ht_file_dump_listener_register(x->t, l.path.c_str(), op.c, &e);
            PBT_CHECK((l.obj != nullptr) == (e == HT_ERR_OK), "create-result", "ht_file_dump_listener_register returned %s and error %d", l.obj ? "a listener" : "NULL", (int)e);
            if (!l.obj) unlink(l.path.c_str());
        }
        else
        {
            l.is_tcp = true;
            l.obj = ht_tcp_listener_register(x->t, 20000 + (int)(op.b % 20000), op.c, &e);
            PBT_CHECK((l.obj != nullptr) == (e == HT_ERR_OK), "create-result", "ht_tcp_listener_register returned %s and error %d", l.obj ? "a listener" : "NULL", (int)e);
            if (!l.obj) { note("tcp listener: not started"); l.active = false; break; }     // the port may be taken
        }
        PBT_CHECK(e == HT_ERR_OK || W->injected(), "register-failed", "registering listener %d failed with %d without a failed allocation", l.idx, (int)e);
        if (e == HT_ERR_OK) x->g->active.push_back(&l);
        else { PBT_CHECK(!l.destroyed, "destroyed-by-failure", "the failed registration of listener %d called its destroy callback", l.idx); l.active = false; W->errors++; }
        note(fmt("group of timeline %d: %s %d%s -> %s", x->idx, op.kind == LISTEN ? "listener" : op.kind == FILE_L ? "file listener" : "tcp listener", l.idx, l.has_destroy ? " with destroy callback" : "", e == HT_ERR_OK ? "ok" : "error"));
        break;
    }
    case UNLISTEN:
        if (!need()) return;
        flush_group(x->g); W->begin();
        for (Lst* l : x->g->active) if (!l->has_destroy) l->active = l->is_file || l->is_tcp;
        ht_timeline_unregister_all_listeners(x->t);
        note(fmt("group of timeline %d: unregister %zu listeners", x->idx, x->g->active.size()));
        group_gone(x->g, "unregistering all listeners");
        break;
    case CALLSTACK: case CACHED:
    {
        if (!need()) return;
        bool& on = op.kind == CALLSTACK ? x->cs : x->cached;
        W->begin();
        HT_ErrorCode e = op.kind == CALLSTACK ? ht_feature_callstack_enable(x->t) : ht_feature_cached_string_enable(x->t, (HT_Boolean)(op.b & 1));
        if (on) PBT_CHECK(e == HT_ERR_FEATURE_ALREADY_REGISTERED || (e != HT_ERR_OK && W->injected()), "enable-result", "enabling a feature again returned %d", (int)e);
        else PBT_CHECK(e == HT_ERR_OK || W->injected(), "enable-failed", "enabling a feature failed with %d without a failed allocation", (int)e);
        if (e == HT_ERR_OK) on = true; else W->errors++;
        note(fmt("timeline %d: enable %s -> %d", x->idx, op.kind == CALLSTACK ? "callstack" : "cached strings", (int)e));
        break;
    }
    case FEATURE:
    {
        if (!need()) return;
        bool a = op.b & 1; bool& on = a ? x->featA : x->featB; int alive = g_features_alive;
        HT_ErrorCode r = a ? UserFeatA_register() : UserFeatB_register();
        PBT_CHECK(r == HT_ERR_OK || r == HT_ERR_FEATURE_ALREADY_REGISTERED, "feature-register", "registering a feature class returned %d", (int)r);
        W->begin(); void* f; HT_ErrorCode e;
        if (a) { auto* p = UserFeatA_alloc(); if (p) p->canary = 0xFEA7; f = p; } else { auto* p = UserFeatB_alloc(); if (p) p->canary = 0xFEA7; f = p; }
        if (!f) { PBT_CHECK(W->injected(), "feature-alloc", "allocating a feature failed"); return; }
        g_features_alive++;
        e = ht_timeline_set_feature(x->t, (HT_Feature*)f);
        PBT_CHECK(e == (on ? HT_ERR_FEATURE_ALREADY_REGISTERED : HT_ERR_OK), "set-feature", "setting a feature returned %d", (int)e);
        PBT_CHECK(g_features_alive == alive + (on ? 0 : 1), "feature-destruction", "a %s feature: %d alive, expected %d", on ? "rejected" : "accepted", g_features_alive, alive + (on ? 0 : 1));
        void* got = a ? (void*)UserFeatA_from_timeline(x->t) : (void*)UserFeatB_from_timeline(x->t);
        if (!on) PBT_CHECK(got == f, "get-feature", "the feature of the timeline is another one than was set"); else PBT_CHECK(got && got != f, "get-feature", "the feature of the timeline was replaced by a rejected one");
        on = true;
        break;
    }
    case FEATURE_NEVER:
    {
        if (!need()) return;
        PBT_CHECK(!UserFeatNever_from_timeline(x->t), "get-feature", "a timeline has a feature of a class that was never registered");
        auto* p = UserFeatNever_alloc(); if (!p) return;
        p->canary = 0xFEA7; int alive = g_features_alive++;
        HT_ErrorCode e = ht_timeline_set_feature(x->t, (HT_Feature*)p);
        PBT_CHECK(e == HT_ERR_FEATURE_NOT_REGISTERED && g_features_alive == alive, "set-feature", "setting a feature of an unregistered class returned %d (%d alive)", (int)e, g_features_alive - alive);
        break;
    }
    case KLASS:
    {
        int k = (int)(op.b % I_COUNT); W->begin();
        HT_EventKlassId id = klasses()[(size_t)k].reg();
        bool ok = id != HT_INVALID_KLASS_ID;
        PBT_CHECK(ok || (W->injected() && !W->registered.count(k)), "register-class-failed", "registering class %s failed%s", klasses()[(size_t)k].name.c_str(), W->registered.count(k) ? " although it is registered" : " without a failed allocation");
        PBT_CHECK(!ok || id == klasses()[(size_t)k].get()->klass_id, "register-class-id", "class %s has another id than was returned", klasses()[(size_t)k].name.c_str());
        if (ok) W->registered.insert(k); else W->errors++;
        break;
    }
    case METADATA:
    {
        struct Col { std::string s; static void cb(TEventPtr d, size_t n, HT_Boolean, void* u) { ((Col*)u)->s.append((char*)d, n); } } col;
        size_t n = ht_timeline_listener_push_metadata(Col::cb, &col, HT_TRUE);
        std::vector<meta::M> m; size_t o = meta::read_all(col.s, m);
        PBT_CHECK(o == col.s.size() && n == o, "metadata-malformed", "metadata of %zu bytes (returned %zu) is readable up to %zu", col.s.size(), n, o);
        std::map<uint32_t, std::string> seen;
        for (auto& x2 : m) if (x2.kind == 'K') PBT_CHECK(seen.emplace(x2.kid, x2.name).second, "metadata-duplicate", "class id %u is described twice", x2.kid);
        for (int k : W->registered) { uint32_t id = klasses()[(size_t)k].get()->klass_id; PBT_CHECK(seen.count(id) && seen[id] == klasses()[(size_t)k].name, "metadata-missing", "registered class %s is not described", klasses()[(size_t)k].name.c_str()); }
        break;
    }
    case SCHED_NEW:
    {
        HT_ErrorCode e = HT_ERR_UNKNOWN; W->begin();
        HT_TaskScheduler* s = ht_task_scheduler_create(&e);
        PBT_CHECK((s != nullptr) == (e == HT_ERR_OK) && (s || W->injected()), "create-failed", "creating a scheduler returned %s and error %d", s ? "one" : "NULL", (int)e);
        if (s) { W->runs.emplace_back(); W->scheds.push_back(Sched{s, {}, &W->runs.back()}); } else W->errors++;
        break;
    }
    case SCHED_ADD: case SCHED_REMOVE: case SCHED_TICK: case SCHED_DESTROY:
    {
        std::vector<Sched*> v; for (auto& s : W->scheds) if (s.s) v.push_back(&s);
        if (v.empty()) return;
        Sched& s = *v[op.a % v.size()];
        W->begin();
        if (op.kind == SCHED_ADD)
            for (uint64_t i = 0; i <= op.b % 12; i++)
            {
                s.runs->push_back(0);
                W->begin();
                HT_TaskId id = ht_task_scheduler_schedule_task(s.s, op.c & 1 ? HT_TASK_SCHEDULING_RESTART_TIMER : HT_TASK_SCHEDULING_IGNORE_DELAYS, 0, [](void* u) -> HT_Boolean { ++*(unsigned*)u; return HT_TRUE; }, &s.runs->back());
                PBT_CHECK(id >= 0 || W->injected(), "schedule-failed", "scheduling a task failed without a failed allocation");
                for (HT_TaskId o : s.ids) PBT_CHECK(o != id || id < 0, "task-id-reused", "task id %d was handed out twice", (int)id);
                s.ids.push_back(id);
            }
        else if (op.kind == SCHED_REMOVE)
        {
            if (s.ids.empty()) return;
            size_t i = op.b % s.ids.size();
            HT_Boolean r = ht_task_scheduler_remove_task(s.s, s.ids[i]);
            PBT_CHECK((r != 0) == (s.ids[i] >= 0), "remove-result", "removing a task returned %d", r);
            s.ids[i] = -1;
        }
        else if (op.kind == SCHED_TICK)
        {
            auto before = *s.runs;
            ht_task_scheduler_tick(s.s);
            for (size_t i = 0; i < s.ids.size(); i++) PBT_CHECK((*s.runs)[i] == before[i] + (s.ids[i] >= 0 ? 1 : 0), "task-runs", "task %zu (%s) ran %u times in a tick", i, s.ids[i] >= 0 ? "scheduled" : "not scheduled", (*s.runs)[i] - before[i]);
        }
        else { ht_task_scheduler_destroy(s.s); s.s = nullptr; }
        break;
    }
    case PROVIDER:
    {
        W->begin();
        auto* p = ht_event_id_provider_create();
        PBT_CHECK(p || W->injected(), "create-failed", "creating an id provider failed");
        if (!p) { W->errors++; return; }
        for (uint64_t i = 0; i < op.b % 5; i++) PBT_CHECK(ht_event_id_provider_next(p) == i, "provider-sequence", "a new id provider does not count from 0");
        ht_event_id_provider_destroy(p);
        break;
    }
    case REINIT:
        if (op.b & 1) { ht_init(0, nullptr); W->inits++; note("nested init"); }
        else if (W->inits > 1) { ht_deinit(); W->inits--; note("nested deinit"); for (auto& g : W->groups) group_kept(&g, "nested deinit"); }
        PBT_CHECK(ht_is_initialized(), "init-state", "not initialized after a nested init / deinit");
        break;
    case THREAD:
    {
        if (W->tls.size() >= 60) return;
        W->tls.emplace_back(); TL& n = W->tls.back(); n.idx = (int)W->tls.size() - 1;
        Group* g = group_for(0); n.g = g; g->tls.push_back(&n); n.cs = n.cached = true;
        W->threads.emplace_back(); auto& th = W->threads.back(); th.tl = &n;
        note(fmt("thread with timeline %d, %zu operations, exits %s", n.idx, op.sub.size(), op.b & 1 ? "at the end" : "now"));
        th.may_exit = !(op.b & 1);
        th.th = std::thread([&th, &n, &op] {
            TL* x2 = &n; x2->t = ht_global_timeline_get();
            PBT_CHECK(x2->t && x2->t == ht_global_timeline_get(), "global-timeline", "the thread's global timeline is not stable");
            for (auto& o : op.sub) { note(std::string("  ") + OP_NAMES[o.kind]); exec_on(x2, o); }
            std::unique_lock<std::mutex> l(th.m); th.worked = true; th.cv.notify_all();
            while (!th.may_exit) th.cv.wait(l);
        });
        { std::unique_lock<std::mutex> l(th.m); while (!th.worked) th.cv.wait(l); }
        if (!(op.b & 1)) { th.th.join(); tl_gone(&n, "exit of a thread"); }
        break;
    }
    default:
        if (!need()) return;
        note(fmt("timeline %d: %s", x->idx, OP_NAMES[op.kind]));
        exec_on(x, op);
    }
}

struct Teardown { std::vector<uint64_t> order; uint64_t deinit_at; };
static size_t count_dir(const char* d) { size_t n = 0; DIR* p = opendir(d); if (!p) return 0; while (readdir(p)) n++; closedir(p); return n; }

// a timeline owned by a thread can only be destroyed by its exit
static World::Thr* thread_of(TL* x) { for (auto& t : W->threads) if (t.tl == x && t.th.joinable()) return &t; return nullptr; }

// one execution; false: the library could not be initialized because there was no memory
static bool execute(Case& c, const std::vector<Op>& ops, const Teardown& td, bool log, size_t fail_from, size_t fail_count, size_t& delivered, unsigned& errors)
{
    World w; W = &w; w.c = &c; w.ops = &ops; w.log = log; session_klasses() = &w.registered;
    PBT_CHECK(g_a.live.empty(), "leak", "blocks allocated before the run");
    g_a.requests = g_a.failures = 0; g_a.fail_from = fail_from; g_a.fail_count = fail_count; g_a.op = -1; g_a.op_of.clear(); g_a.record = log;
    PBT_CHECK(!ht_is_initialized(), "init-state", "initialized before ht_init");
    size_t fds = count_dir("/proc/self/fd");
    for (int tries = 0; !ht_is_initialized(); tries++)
    {
        w.begin(); ht_init(0, nullptr);
        PBT_CHECK(ht_is_initialized() || w.injected(), "init-failed", "ht_init failed without a failed allocation");
        if (!ht_is_initialized()) PBT_CHECK(g_a.live.empty(), "leak", "a failed ht_init leaves %zu blocks", g_a.live.size());
        if (tries > 8) { g_a.fail_count = 0; return false; }
    }
    w.inits = 1; w.up = true;
    for (int k : {(int)I_CSBase, (int)I_CSInt, (int)I_CSStr, (int)I_Map, (int)I_Event}) w.registered.insert(k);
    for (size_t i = 0; i < ops.size(); i++) { g_a.op = (int)i; exec(ops[i]); }
    g_a.op = (int)ops.size();
    // teardown in the generated order
    size_t step = 0;
    auto deinit = [&] {
        note("deinit");
        for (; w.inits > 1; w.inits--) { ht_deinit(); PBT_CHECK(ht_is_initialized(), "init-state", "the first of %u ht_deinit() calls ended the library", w.inits); }
        w.begin();
        ht_deinit(); w.inits = 0; w.up = false;
        PBT_CHECK(!ht_is_initialized(), "init-state", "still initialized after ht_deinit");
        for (auto& g : w.groups) { if (g.tls.empty()) { if (!g.active.empty()) group_gone(&g, "ht_deinit"); } else group_kept(&g, "ht_deinit"); }
        ht_deinit();     // not initialized any more: must do nothing
        PBT_CHECK(!ht_is_initialized(), "init-state", "initialized after a superfluous ht_deinit");
    };
    for (;; step++)
    {
        if (step == td.deinit_at) deinit();
        std::vector<TL*> v; for (auto& x : w.tls) if (x.t) v.push_back(&x);
        if (v.empty()) break;
        TL* x = v[td.order[step % td.order.size()] % v.size()];
        note(fmt("teardown: timeline %d", x->idx));
        if (auto* th = thread_of(x)) { { std::unique_lock<std::mutex> l(th->m); th->may_exit = true; th->cv.notify_all(); } th->th.join(); tl_gone(x, "exit of a thread"); }
        else destroy_tl(x);
    }
    if (w.up) deinit();
    for (auto& s : w.scheds) if (s.s) { ht_task_scheduler_destroy(s.s); s.s = nullptr; }
    for (auto& g : w.groups) PBT_CHECK(g.active.empty(), "listener-left", "listeners are left after the end");
    for (auto& l : w.lsts) PBT_CHECK(l.destroyed <= 1 && !l.active, "listener-left", "listener %d is still active", l.idx);
    PBT_CHECK(g_features_alive == 0, "feature-leak", "%d user features were not destroyed", g_features_alive);
    {
        std::lock_guard<std::mutex> l(g_a.m);
        PBT_CHECK(g_a.live.empty(), "leak", "%zu blocks are still allocated at the end, the first one of %zu bytes", g_a.live.size(), g_a.live.begin()->second);
    }
    PBT_CHECK(count_dir("/proc/self/fd") == fds, "descriptor-leak", "%zu descriptors before, %zu after", fds, count_dir("/proc/self/fd"));
    for (int i = 0; count_dir("/proc/self/task") != 3; i++) { PBT_CHECK(i < 2000, "thread-leak", "a thread of the library is still running"); usleep(1000); }   // ".", "..", main
    delivered = w.delivered; errors = w.errors;
    return true;
}

static Op gen_op(pbt::Tape& t, int kind)
{
    Op o; o.kind = kind; o.a = t.draw(7);
    switch (kind)
    {
    case CREATE: o.b = t.draw(7); o.c = t.pick<size_t>({0, 1, 16, 64, 128, 256, 512, 1024, 4096}); o.d = 1 + t.draw(3); if (t.chance(1, 3)) o.d &= 2; break;
    case PUSH: o.ev = gen_event(t, t.chance(1, 2) ? (int)I_Event : (int)t.draw(I_COUNT - 1), t.pick<size_t>({10, 100, 300, 2000})); if (o.ev.k >= I_CSBase && o.ev.k <= I_CSStr) o.ev = gen_event(t, I_Event); if (o.ev.k == I_KCall2 || o.ev.k == I_Map) o.ev = gen_event(t, I_KStr); break;
    case SPAN_START: o.b = t.draw(3); o.c = t.draw(299); break;
    case MAP_STATIC: case MAP_DYN: o.b = t.draw(15); break;
    case FILE_L: case TCP_L: o.b = t.draw(19999); o.c = 1 + t.scaled(4096); break;
    case KLASS: o.b = t.draw(I_COUNT - 1); break;
    default: o.b = t.draw(31); o.c = t.draw(3); break;
    }
    return o;
}
static void run(Case& c)
{
    auto& t = c.t;
    static bool set = false;
    if (!set) { ht_allocator_set(alloc_fn, &g_a); set = true; label(0, 0); }
    std::vector<Op> ops;
    ops.push_back(gen_op(t, CREATE));
    for (size_t i = 0; i < 6; i++) { Op k; k.kind = KLASS; static const int ks[] = {I_KU8, I_KStr, I_KMix, I_KWide, I_KCall2, I_KDer4}; k.b = (uint64_t)ks[i]; if (!t.chance(1, 3)) ops.push_back(k); }
    size_t n = 3 + t.count(45);
#ifdef OOM
    bool cached = t.chance(1, 4);
#else
    bool cached = t.chance(1, 2);
#endif
    // listeners tend to come in numbers beyond the initial capacity of their list
    bool many = t.chance(1, 5);
    if (cached && t.chance(1, 3)) { Op o; o.kind = CACHED; ops.push_back(o); size_t k = t.draw(12); for (size_t i = 0; i < k; i++) { o.kind = MAP_STATIC; o.b = i; ops.push_back(o); } }
    if (many) { size_t k = 14 + t.draw(20); for (size_t i = 0; i < k; i++) { Op o; o.kind = LISTEN; o.b = i; ops.push_back(o); } }
    if (t.chance(2, 3)) { Op o; o.kind = LISTEN; o.b = t.draw(1); ops.push_back(o); }
    for (size_t i = 0; i < n; i++)
    {
        static const int kinds[] = {PUSH, PUSH, SPAN_START, SPAN_STOP, FLUSH, LISTEN, CREATE, DESTROY, CALLSTACK, MAP_STATIC, MAP_DYN, PUSH_MAP, UNLISTEN, CACHED, FILE_L, KLASS, METADATA,
            SCHED_NEW, SCHED_ADD, SCHED_REMOVE, SCHED_TICK, SCHED_DESTROY, PROVIDER, FEATURE, FEATURE_NEVER, TCP_L, REINIT, THREAD};
        int k = kinds[t.weighted({12, 12, 12, 10, 6, 4, 4, 3, 5, cached ? 6u : 0u, cached ? 6u : 0u, cached ? 3u : 0u, 1, cached ? 4u : 0u, 4, 6, 1, 2, 4, 1, 2, 1, 1, 3, 1, 1,
#ifdef OOM
            1, 0
#else
            3, 5
#endif
        })];
        if (k == SPAN_START && t.chance(1, 6)) { size_t d = t.draw(30); Op o = gen_op(t, SPAN_START); for (size_t j = 0; j < d; j++) ops.push_back(o); }
        Op o = gen_op(t, k);
        if (k == THREAD)
        {
            size_t m = t.draw(8);
            for (size_t j = 0; j < m; j++) { static const int sub[] = {PUSH, SPAN_START, SPAN_STOP, MAP_DYN, MAP_STATIC, PUSH_MAP, FLUSH}; o.sub.push_back(gen_op(t, sub[t.draw(6)])); }
        }
        ops.push_back(o);
    }
    Teardown td; size_t no = 1 + t.draw(7); for (size_t i = 0; i < no; i++) td.order.push_back(t.draw(63));
    td.deinit_at = t.chance(1, 2) ? t.draw(4) : 1000;

    size_t delivered = 0; unsigned errors = 0;
    execute(c, ops, td, true, SIZE_MAX, 0, delivered, errors);
    size_t N = g_a.requests; std::vector<int> op_of = g_a.op_of;
    std::set<int> used; for (auto& o : ops) used.insert(o.kind);
    for (int k : used) c.label(OP_NAMES[k]);
#ifndef OOM
    // once more: nothing may be left over from the first time
    execute(c, ops, td, false, SIZE_MAX, 0, delivered, errors);
    c.nontrivial = delivered >= 2 && N >= 10;
    if (t.chance(1, 4))
    {
        // with the default allocator: the process must not grow from run to run
        ht_allocator_set(nullptr, nullptr);
        c.label("default-allocator");
        size_t m[5]; size_t d = delivered;
        for (size_t i = 0; i < 5; i++) { execute(c, ops, td, false, SIZE_MAX, 0, d, errors); m[i] = __sanitizer_get_current_allocated_bytes(); }
        PBT_CHECK(!(m[2] > m[1] && m[3] > m[2] && m[4] > m[3]), "leak-default-allocator", "with the default allocator each run leaves %zu bytes allocated", m[4] - m[3]);
        PBT_CHECK(g_a.requests == 0 && d == delivered, "allocator-in-use", "the allocator that was taken away is still asked for memory, or events are lost without it");
    }
#else
    std::vector<size_t> ks;
    if (N <= 70) for (size_t k = 0; k < N; k++) ks.push_back(k);
    else
    {
        // the first and the last requests of each operation, and some in between
        std::map<int, std::vector<size_t>> by; for (size_t i = 0; i < N; i++) by[op_of[i]].push_back(i);
        std::set<size_t> s;
        for (auto& p : by) { auto& v = p.second; for (size_t i = 0; i < v.size(); i++) if (i < 2 || i + 2 >= v.size()) s.insert(v[i]); if (v.size() > 4) s.insert(v[t.draw(v.size() - 1)]); }
        for (size_t k : s) ks.push_back(k);
        while (ks.size() > 100) ks.erase(ks.begin() + (long)t.draw(ks.size() - 1));
    }
    static const size_t LEN[] = {1, 1, 1, 2, 5, SIZE_MAX};
    unsigned total = 0; size_t shown = c.log.size();
    for (size_t k : ks)
    {
        size_t len = LEN[t.draw(5)];
        if (c.log.size() > shown) { c.log.resize(shown); }
        c.note(fmt("--- again, request %zu of %zu fails%s (during operation %d '%s')", k, N, len == 1 ? "" : len == SIZE_MAX ? " and all that follow" : fmt(" and the %zu that follow", len - 1).c_str(), op_of[k], op_of[k] < 0 ? "init" : (size_t)op_of[k] < ops.size() ? OP_NAMES[ops[(size_t)op_of[k]].kind] : "teardown"));
        execute(c, ops, td, false, k, len, delivered, errors);
        total++;
        if (errors) c.label("error-reported");
        c.label(len == 1 ? "single" : len == SIZE_MAX ? "persistent" : "burst");
    }
    if (c.log.size() > shown) c.log.resize(shown);
    c.nontrivial = total >= 5 && delivered >= 1;
#endif
}
#ifdef OOM
// known finding: a thread that uses its global timeline for the first time while there is no memory crashes
static void global_oom(Case&)
{
    ht_allocator_set(alloc_fn, &g_a);
    ht_init(0, nullptr);
    std::thread([] { g_a.requests = 0; g_a.fail_from = 0; g_a.fail_count = 1; ht_global_timeline_get(); }).join();
}
pbt::Harness& pbt::harness() { static Harness h{"oom", run, {{"global-timeline", global_oom}}, 60, false}; return h; }
#else
pbt::Harness& pbt::harness() { static Harness h{"teardown", run, {}, 60, false}; return h; }
#endif
