// C07: spans (explicit callstack API and scoped tracepoints in C and C++) against a model, with a virtual clock.
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/tracepoint.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/thread.h>
#include <thread>
#include <set>
using namespace model;
using pbt::Case; using pbt::fail;

static uint64_t g_now = 1;
extern "C" HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }

// a callstack class much larger than the others
HT_DECLARE_EVENT_KLASS(KBigCall, HT_CallstackBaseEvent,
    (INTEGER, uint64_t, b0), (INTEGER, uint64_t, b1), (INTEGER, uint64_t, b2), (INTEGER, uint64_t, b3), (INTEGER, uint64_t, b4), (INTEGER, uint64_t, b5), (INTEGER, uint64_t, b6), (INTEGER, uint64_t, b7),
    (INTEGER, uint64_t, b8), (INTEGER, uint64_t, b9), (INTEGER, uint64_t, b10), (INTEGER, uint64_t, b11), (INTEGER, uint64_t, b12), (INTEGER, uint64_t, b13), (INTEGER, uint64_t, b14), (INTEGER, uint8_t, b15))
HT_DECLARE_EVENT_KLASS(KBigCall2, KBigCall,
    (INTEGER, uint64_t, c0), (INTEGER, uint64_t, c1), (INTEGER, uint64_t, c2), (INTEGER, uint64_t, c3), (INTEGER, uint64_t, c4), (INTEGER, uint64_t, c5), (INTEGER, uint64_t, c6), (INTEGER, uint64_t, c7),
    (INTEGER, uint64_t, c8), (INTEGER, uint64_t, c9), (INTEGER, uint64_t, c10), (INTEGER, uint64_t, c11), (INTEGER, uint64_t, c12), (INTEGER, uint64_t, c13), (INTEGER, uint64_t, c14), (INTEGER, uint16_t, c15))
HT_DECLARE_EVENT_KLASS(KBigCall3, KBigCall2, (INTEGER, uint64_t, d0), (INTEGER, uint64_t, d1), (STRING, const char*, d2))

// classes above 1024 bytes (the stack starts with that much room)
HT_DECLARE_EVENT_KLASS(KHuge1, HT_CallstackBaseEvent, (INTEGER, uint64_t, h1_0), (INTEGER, uint64_t, h1_1), (INTEGER, uint64_t, h1_2), (INTEGER, uint64_t, h1_3), (INTEGER, uint64_t, h1_4), (INTEGER, uint64_t, h1_5), (INTEGER, uint64_t, h1_6), (INTEGER, uint64_t, h1_7), (INTEGER, uint64_t, h1_8), (INTEGER, uint64_t, h1_9), (INTEGER, uint64_t, h1_10), (INTEGER, uint64_t, h1_11), (INTEGER, uint64_t, h1_12), (INTEGER, uint64_t, h1_13), (INTEGER, uint64_t, h1_14), (INTEGER, uint64_t, h1_15), (INTEGER, uint64_t, h1_16), (INTEGER, uint64_t, h1_17), (INTEGER, uint64_t, h1_18), (INTEGER, uint64_t, h1_19), (INTEGER, uint64_t, h1_20), (INTEGER, uint64_t, h1_21), (INTEGER, uint64_t, h1_22), (INTEGER, uint64_t, h1_23))
HT_DECLARE_EVENT_KLASS(KHuge2, KHuge1, (INTEGER, uint64_t, h2_0), (INTEGER, uint64_t, h2_1), (INTEGER, uint64_t, h2_2), (INTEGER, uint64_t, h2_3), (INTEGER, uint64_t, h2_4), (INTEGER, uint64_t, h2_5), (INTEGER, uint64_t, h2_6), (INTEGER, uint64_t, h2_7), (INTEGER, uint64_t, h2_8), (INTEGER, uint64_t, h2_9), (INTEGER, uint64_t, h2_10), (INTEGER, uint64_t, h2_11), (INTEGER, uint64_t, h2_12), (INTEGER, uint64_t, h2_13), (INTEGER, uint64_t, h2_14), (INTEGER, uint64_t, h2_15), (INTEGER, uint64_t, h2_16), (INTEGER, uint64_t, h2_17), (INTEGER, uint64_t, h2_18), (INTEGER, uint64_t, h2_19), (INTEGER, uint64_t, h2_20), (INTEGER, uint64_t, h2_21), (INTEGER, uint64_t, h2_22), (INTEGER, uint64_t, h2_23))
HT_DECLARE_EVENT_KLASS(KHuge3, KHuge2, (INTEGER, uint64_t, h3_0), (INTEGER, uint64_t, h3_1), (INTEGER, uint64_t, h3_2), (INTEGER, uint64_t, h3_3), (INTEGER, uint64_t, h3_4), (INTEGER, uint64_t, h3_5), (INTEGER, uint64_t, h3_6), (INTEGER, uint64_t, h3_7), (INTEGER, uint64_t, h3_8), (INTEGER, uint64_t, h3_9), (INTEGER, uint64_t, h3_10), (INTEGER, uint64_t, h3_11), (INTEGER, uint64_t, h3_12), (INTEGER, uint64_t, h3_13), (INTEGER, uint64_t, h3_14), (INTEGER, uint64_t, h3_15), (INTEGER, uint64_t, h3_16), (INTEGER, uint64_t, h3_17), (INTEGER, uint64_t, h3_18), (INTEGER, uint64_t, h3_19), (INTEGER, uint64_t, h3_20), (INTEGER, uint64_t, h3_21), (INTEGER, uint64_t, h3_22), (INTEGER, uint64_t, h3_23))
HT_DECLARE_EVENT_KLASS(KHuge4, KHuge3, (INTEGER, uint64_t, h4_0), (INTEGER, uint64_t, h4_1), (INTEGER, uint64_t, h4_2), (INTEGER, uint64_t, h4_3), (INTEGER, uint64_t, h4_4), (INTEGER, uint64_t, h4_5), (INTEGER, uint64_t, h4_6), (INTEGER, uint64_t, h4_7), (INTEGER, uint64_t, h4_8), (INTEGER, uint64_t, h4_9), (INTEGER, uint64_t, h4_10), (INTEGER, uint64_t, h4_11), (INTEGER, uint64_t, h4_12), (INTEGER, uint64_t, h4_13), (INTEGER, uint64_t, h4_14), (INTEGER, uint64_t, h4_15), (INTEGER, uint64_t, h4_16), (INTEGER, uint64_t, h4_17), (INTEGER, uint64_t, h4_18), (INTEGER, uint64_t, h4_19), (INTEGER, uint64_t, h4_20), (INTEGER, uint64_t, h4_21), (INTEGER, uint64_t, h4_22), (INTEGER, uint64_t, h4_23))
HT_DECLARE_EVENT_KLASS(KHuge5, KHuge4, (INTEGER, uint64_t, h5_0), (INTEGER, uint64_t, h5_1), (INTEGER, uint64_t, h5_2), (INTEGER, uint64_t, h5_3), (INTEGER, uint64_t, h5_4), (INTEGER, uint64_t, h5_5), (INTEGER, uint64_t, h5_6), (INTEGER, uint64_t, h5_7), (INTEGER, uint64_t, h5_8), (INTEGER, uint64_t, h5_9), (INTEGER, uint64_t, h5_10), (INTEGER, uint64_t, h5_11), (INTEGER, uint64_t, h5_12), (INTEGER, uint64_t, h5_13), (INTEGER, uint64_t, h5_14), (INTEGER, uint64_t, h5_15), (INTEGER, uint64_t, h5_16), (INTEGER, uint64_t, h5_17), (INTEGER, uint64_t, h5_18), (INTEGER, uint64_t, h5_19), (INTEGER, uint64_t, h5_20), (INTEGER, uint64_t, h5_21), (INTEGER, uint64_t, h5_22), (INTEGER, uint64_t, h5_23))
HT_DECLARE_EVENT_KLASS(KHuge6, KHuge5, (INTEGER, uint64_t, h6_0), (INTEGER, uint64_t, h6_1), (INTEGER, uint64_t, h6_2), (INTEGER, uint64_t, h6_3), (INTEGER, uint64_t, h6_4), (INTEGER, uint64_t, h6_5), (INTEGER, uint64_t, h6_6), (INTEGER, uint64_t, h6_7), (INTEGER, uint64_t, h6_8), (INTEGER, uint64_t, h6_9), (INTEGER, uint64_t, h6_10), (INTEGER, uint64_t, h6_11), (INTEGER, uint64_t, h6_12), (INTEGER, uint64_t, h6_13), (INTEGER, uint64_t, h6_14), (INTEGER, uint64_t, h6_15), (INTEGER, uint64_t, h6_16), (INTEGER, uint64_t, h6_17), (INTEGER, uint64_t, h6_18), (INTEGER, uint64_t, h6_19), (INTEGER, uint64_t, h6_20), (INTEGER, uint64_t, h6_21), (INTEGER, uint64_t, h6_22), (INTEGER, uint64_t, h6_23))
HT_DECLARE_EVENT_KLASS(KHuge7, KHuge6, (INTEGER, uint64_t, h7_0), (INTEGER, uint64_t, h7_1), (INTEGER, uint64_t, h7_2), (INTEGER, uint64_t, h7_3), (INTEGER, uint64_t, h7_4), (INTEGER, uint64_t, h7_5), (INTEGER, uint64_t, h7_6), (INTEGER, uint64_t, h7_7), (INTEGER, uint64_t, h7_8), (INTEGER, uint64_t, h7_9), (INTEGER, uint64_t, h7_10), (INTEGER, uint64_t, h7_11), (INTEGER, uint64_t, h7_12), (INTEGER, uint64_t, h7_13), (INTEGER, uint64_t, h7_14), (INTEGER, uint64_t, h7_15), (INTEGER, uint64_t, h7_16), (INTEGER, uint64_t, h7_17), (INTEGER, uint64_t, h7_18), (INTEGER, uint64_t, h7_19), (INTEGER, uint64_t, h7_20), (INTEGER, uint64_t, h7_21), (INTEGER, uint64_t, h7_22), (INTEGER, uint64_t, h7_23))
enum { HUGE_FIELDS = 7 * 24 };
static_assert(sizeof(KHuge7) == sizeof(HT_CallstackBaseEvent) + 8 * HUGE_FIELDS, "layout");

typedef void (*body_fn)(void*);
extern "C" {
void c_scoped_int(HT_Timeline* t, uint64_t label, int how, body_fn body, void* ud);
void c_scoped_string(HT_Timeline* t, const char* label, int how, body_fn body, void* ud);
void c_scoped_dynamic(HT_Timeline* t, const char* label, int how, body_fn body, void* ud);
void c_scoped_function(HT_Timeline* t, int how, body_fn body, void* ud);
void c_scoped_static_1(HT_Timeline* t, int how, body_fn body, void* ud);
void c_scoped_static_2(HT_Timeline* t, int how, body_fn body, void* ud);
void c_scoped_static_3(HT_Timeline* t, int how, body_fn body, void* ud);
}

// what a listener got
struct Got { std::string klass; uint64_t ts, id, dur; uint64_t tid; std::string fields; bool is_int = false; uint64_t ilabel = 0; std::string slabel; };
// what is expected; label either int (kind 0), string (1), cached string (2), or none / compare 'fields' only (3)
struct Exp { std::string klass; uint64_t ts, dur; uint32_t tid; int lkind = 3; uint64_t ilabel = 0; std::string slabel, fields; size_t start_order; uint64_t id = 0; bool id_known = false; };

struct TL { HT_Timeline* t = nullptr; int idx; bool ser; std::vector<Exp> exp; std::vector<Got> got; std::map<uint64_t, std::string> maps; std::vector<std::string> plain_exp, plain_got; std::set<uint64_t> plain_ids; size_t open = 0; };
static std::deque<TL> g_tl;
static Case* g_c;
static size_t g_starts = 0, g_depth = 0, g_maxdepth = 0;
static std::deque<std::string> g_strs;
static std::set<std::string> g_modes;

template<typename K> static std::string rawfields(const void* p) { return std::string((const char*)p + sizeof(HT_CallstackBaseEvent), 0); }

// field-wise dump of the part behind HT_CallstackBaseEvent
static void dump_KCall(std::string& o, const char* label, int32_t info) { o += fmt("label=%s info=%d", label, info); }
struct BigDesc { std::vector<size_t> off, size; };
static std::string dump_ints(const uint64_t* v, size_t n) { std::string o; for (size_t i = 0; i < n; i++) o += fmt("%llx,", (unsigned long long)v[i]); return o; }

static void one_event(TL& tl, const unsigned char* d, size_t n, bool ser, size_t& used)
{
    Got g;
    HT_EventKlass* kl = nullptr;
    uint32_t kid = 0;
    HT_EventKlass* all[] = {ht_HT_CallstackIntEvent_get_event_klass_instance(), ht_HT_CallstackStringEvent_get_event_klass_instance(), ht_HT_CallstackBaseEvent_get_event_klass_instance(),
        ht_KCall_get_event_klass_instance(), ht_KCall2_get_event_klass_instance(), ht_KBigCall_get_event_klass_instance(), ht_KBigCall2_get_event_klass_instance(), ht_KBigCall3_get_event_klass_instance(), ht_KHuge7_get_event_klass_instance(),
        ht_HT_StringMappingEvent_get_event_klass_instance(), ht_KU8_get_event_klass_instance()};
    size_t o;
    auto need = [&](size_t k) { PBT_CHECK(k <= n, "torn-event", "timeline %d: chunk ends inside an event", tl.idx); };
    auto u = [&](size_t sz) { need(o + sz); uint64_t v = 0; memcpy(&v, d + o, sz); o += sz; return v; };
    auto str = [&] { const void* z = memchr(d + o, 0, n - o); PBT_CHECK(z, "torn-event", "timeline %d: string without end", tl.idx); std::string s((const char*)d + o, (const char*)z); o += s.size() + 1; return s; };
    if (ser)
    {
        need(20); memcpy(&kid, d, 4); memcpy(&g.ts, d + 4, 8); memcpy(&g.id, d + 12, 8); o = 20;
        for (auto* k : all) if (k->klass_id == kid) kl = k;
    }
    else
    {
        need(sizeof(HT_Event)); const HT_Event* e = (const HT_Event*)d; g.ts = e->timestamp; g.id = e->id; o = 0;
        for (auto* k : all) if (k == e->klass) kl = k;
    }
    PBT_CHECK(kl, "unknown-event", "timeline %d delivered an event of an unknown class", tl.idx);
    g.klass = kl->type_info->name;
    if (g.klass == "HT_StringMappingEvent")
    {
        uint64_t i; std::string s;
        if (ser) { i = u(8); s = str(); } else { need(sizeof(HT_StringMappingEvent)); auto* e = (const HT_StringMappingEvent*)d; i = e->identifier; s = e->label; o = sizeof *e; }
        auto it = tl.maps.find(i);
        PBT_CHECK(it == tl.maps.end() || it->second == s, "mapping-conflict", "timeline %d: id %llu announced as '%s' and '%s'", tl.idx, (unsigned long long)i, s.c_str(), it->second.c_str());
        tl.maps[i] = s; used = o; return;
    }
    if (g.klass == "KU8")
    {
        unsigned a; if (ser) a = (unsigned)u(1); else { need(sizeof(KU8)); a = ((const KU8*)d)->a; o = sizeof(KU8); }
        tl.plain_got.push_back(fmt("%zu:%u", tl.got.size(), a)); tl.plain_ids.insert(g.id); used = o; return;
    }
    if (ser) { g.dur = u(8); g.tid = u(4); }
    else { need(sizeof(HT_CallstackBaseEvent)); auto* e = (const HT_CallstackBaseEvent*)d; g.dur = e->duration; g.tid = e->thread_id; o = kl->type_info->size; need(o); }
    if (g.klass == "HT_CallstackIntEvent") { g.is_int = true; g.ilabel = ser ? u(8) : ((const HT_CallstackIntEvent*)d)->label; }
    else if (g.klass == "HT_CallstackStringEvent") g.slabel = ser ? str() : ((const HT_CallstackStringEvent*)d)->label;
    else if (g.klass == "KCall") { if (ser) { std::string l = str(); int32_t i = (int32_t)u(4); dump_KCall(g.fields, l.c_str(), i); } else { auto* e = (const KCall*)d; dump_KCall(g.fields, e->label, e->info); } }
    else if (g.klass == "KCall2")
    {
        uint64_t l; unsigned x; std::string s;
        if (ser) { l = u(8); x = (unsigned)u(1); s = str(); } else { auto* e = (const KCall2*)d; l = e->base.label; x = e->extra; s = e->comment; }
        g.fields = fmt("%llu %u %s", (unsigned long long)l, x, s.c_str());
    }
    else if (g.klass.compare(0, 8, "KBigCall") == 0)
    {
        int lvl = g.klass == "KBigCall" ? 1 : g.klass == "KBigCall2" ? 2 : 3;
        std::vector<uint64_t> v; std::string s;
        const KBigCall* b = (const KBigCall*)d; const KBigCall2* b2 = (const KBigCall2*)d; const KBigCall3* b3 = (const KBigCall3*)d;
        if (ser) { for (int i = 0; i < 15; i++) v.push_back(u(8)); v.push_back(u(1)); } else { for (int i = 0; i < 15; i++) v.push_back((&b->b0)[i]); v.push_back(b->b15); }
        if (lvl >= 2) { if (ser) { for (int i = 0; i < 15; i++) v.push_back(u(8)); v.push_back(u(2)); } else { for (int i = 0; i < 15; i++) v.push_back((&b2->c0)[i]); v.push_back(b2->c15); } }
        if (lvl >= 3) { if (ser) { v.push_back(u(8)); v.push_back(u(8)); s = str(); } else { v.push_back(b3->d0); v.push_back(b3->d1); s = b3->d2; } }
        g.fields = dump_ints(v.data(), v.size()) + s;
    }
    else if (g.klass == "KHuge7")
    {
        std::vector<uint64_t> v; const char* b = (const char*)d + sizeof(HT_CallstackBaseEvent);
        for (int i = 0; i < HUGE_FIELDS; i++) { if (ser) v.push_back(u(8)); else { uint64_t x; memcpy(&x, b + 8 * i, 8); v.push_back(x); } }
        g.fields = dump_ints(v.data(), v.size());
    }
    used = o;
    tl.got.push_back(g);
}
static void cb(TEventPtr data, size_t size, HT_Boolean ser, void* ud)
{
    TL& tl = *(TL*)ud; size_t o = 0;
    while (o < size) { size_t used = 0; one_event(tl, data + o, size - o, ser, used); o += used; }
}

enum SpanKind { API_INT, API_STR, API_BASE, API_KCALL, API_KCALL2, API_BIG1, API_BIG2, API_BIG3, API_HUGE, CPP_INT, CPP_STR, CPP_DYN, CPP_STATIC1, CPP_STATIC2, CPP_FUNC, CPP_FUNC_OPT, CPP_TWO,
            C_INT, C_STR, C_DYN, C_FUNC, C_STATIC1, C_STATIC2, C_STATIC3, KINDS };
enum Exit { FALL, RET, BRK, CONT, GOTO_, THROW };
struct Node
{
    SpanKind k; int tl; uint64_t before, after, ilabel; std::string s; Exit exit; int unwind; bool catches; bool other_thread; std::vector<Node> kids; int plain = -1; bool flush = false; uint64_t seed = 0;
    // copies of moved-on data
};
struct Unwind { int left; };

static Node gen(pbt::Tape& t, int depth, int maxdepth, size_t& budget, int last_tl)
{
    Node n;
    n.tl = t.chance(1, 4) ? (int)t.draw(g_tl.size() - 1) : last_tl;
    n.k = (SpanKind)t.draw(KINDS - 1);
    n.before = t.weighted({6, 2, 1}) == 0 ? t.draw(9) : t.scaled(1ULL << 40); n.after = t.weighted({6, 2, 1}) == 0 ? t.draw(9) : t.scaled(1ULL << 40);
    n.ilabel = t.u64any(); n.seed = t.draw(UINT32_MAX);
    n.s = gen_string(t, 80);
    n.exit = (Exit)t.weighted({6, 2, 2, 2, 2, 3}); n.unwind = (int)t.draw(4); n.catches = t.chance(1, 4); n.other_thread = t.chance(1, 40);
    if (t.chance(1, 8)) n.plain = (int)t.draw(255);
    n.flush = t.chance(1, 20);
    // static labels: one timeline per call site
    if (n.k == CPP_STATIC1 || n.k == CPP_STATIC2 || n.k == CPP_FUNC_OPT || n.k == C_STATIC1 || n.k == C_STATIC2 || n.k == C_STATIC3) n.tl = (int)((unsigned)n.k % g_tl.size());
    bool chain = t.chance(1, 3);
    while (depth < maxdepth && budget > 0 && (chain ? n.kids.empty() || t.chance(1, 6) : t.draw(2) != 0) && n.kids.size() < 6) { budget--; n.kids.push_back(gen(t, depth + 1, maxdepth, budget, n.tl)); }
    return n;
}
static void exec(Node& n);
static Exp begin(Node& n, const char* klass) { Exp e; e.klass = klass; e.ts = g_now; e.dur = 0; e.tid = 0; e.start_order = g_starts++; g_depth++; g_maxdepth = std::max(g_maxdepth, g_depth); g_tl[(size_t)n.tl].open++; return e; }
static void finish(Node& n, Exp& e)
{
    e.dur = g_now - e.ts; e.tid = ht_thread_get_current_thread_id();
    g_tl[(size_t)n.tl].exp.push_back(e); g_depth--; g_tl[(size_t)n.tl].open--;
}
static void inner(Node& n)   // between start and stop; may throw Unwind
{
    TL& tl = g_tl[(size_t)n.tl];
    g_now += n.before;
    if (n.plain >= 0) { HT_TIMELINE_PUSH_EVENT(tl.t, KU8, (uint8_t)n.plain); tl.plain_exp.push_back(fmt("%zu:%d", tl.exp.size(), n.plain)); }
    if (n.flush) ht_timeline_flush(tl.t);
    for (auto& k : n.kids) exec(k);
    g_now += n.after;
}
static void inner_nothrow(void* p) { Node& n = *(Node*)p; try { inner(n); } catch (Unwind&) { g_now += n.after; } }

#define CPP_EXITS(TP) \
    for (bool once = true; once; once = false) \
    { \
        TP; \
        inner(n); \
        if (n.exit == RET) return; \
        if (n.exit == BRK) break; \
        if (n.exit == CONT) continue; \
        if (n.exit == GOTO_) goto out; \
        if (n.exit == THROW) throw Unwind{n.unwind}; \
    } \
    out:;

static void cpp_int(HT_Timeline* tl, Node& n) { CPP_EXITS(HT_TP_SCOPED_INT(tl, n.ilabel)) }
static void cpp_str(HT_Timeline* tl, Node& n, const char* s) { CPP_EXITS(HT_TRACE(tl, s)) }
static void cpp_dyn(HT_Timeline* tl, Node& n, const char* s) { CPP_EXITS(HT_TRACE_OPT_DYNAMIC(tl, s)) }
static void cpp_static1(HT_Timeline* tl, Node& n) { CPP_EXITS(HT_TRACE_OPT_STATIC(tl, "cpp static 1")) }
static void cpp_static2(HT_Timeline* tl, Node& n) { CPP_EXITS(HT_TP_STRACEPOINT(tl, "cpp static \"2\"")) }
static void cpp_func(HT_Timeline* tl, Node& n) { CPP_EXITS(HT_TRACE_FUNCTION(tl)) }
static void cpp_func_opt(HT_Timeline* tl, Node& n) { CPP_EXITS(HT_TRACE_FUNCTION_OPT(tl)) }
// two tracepoints in one scope: the second is stopped first
static void cpp_two(HT_Timeline* tl, Node& n, const char* s)
{
    HT_TRACE(tl, s);
    CPP_EXITS(HT_TP_SCOPED_INT(tl, n.ilabel))
}

static void run_api(Node& n)
{
    TL& tl = g_tl[(size_t)n.tl]; Exp e; HT_Timeline* t = tl.t;
    auto start = [&](HT_CallstackBaseEvent* ev, size_t sz) {
        // duration and thread id are the library's business
        ev->duration = 0x1111111111111111ULL; ev->thread_id = 0x22222222u;
        ht_feature_callstack_start(t, ev);
        PBT_CHECK(((HT_Event*)ev)->timestamp == g_now, "start-timestamp", "starting set timestamp %llu at clock %llu", (unsigned long long)((HT_Event*)ev)->timestamp, (unsigned long long)g_now);
        e.id = ((HT_Event*)ev)->id; e.id_known = true;
        memset((void*)ev, 0xEE, sz);   // the started event is a copy
    };
    uint64_t s = n.seed; auto nx = [&] { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return s >> 3; };
    switch (n.k)
    {
    case API_INT: e = begin(n, "HT_CallstackIntEvent"); e.lkind = 0; e.ilabel = n.ilabel; ht_feature_callstack_start_int(t, n.ilabel); break;
    case API_STR: e = begin(n, "HT_CallstackStringEvent"); e.lkind = 1; e.slabel = n.s; g_strs.push_back(n.s); ht_feature_callstack_start_string(t, g_strs.back().c_str()); break;
    case API_BASE: { e = begin(n, "HT_CallstackBaseEvent"); HT_DECL_EVENT(HT_CallstackBaseEvent, ev); start((HT_CallstackBaseEvent*)&ev, sizeof ev); break; }
    case API_KCALL: { e = begin(n, "KCall"); HT_DECL_EVENT(KCall, ev); g_strs.push_back(n.s); ev.label = g_strs.back().c_str(); ev.info = (int32_t)n.ilabel; dump_KCall(e.fields, ev.label, ev.info); start((HT_CallstackBaseEvent*)&ev, sizeof ev); break; }
    case API_KCALL2: { e = begin(n, "KCall2"); HT_DECL_EVENT(KCall2, ev); g_strs.push_back(n.s); ev.base.label = n.ilabel; ev.extra = (uint8_t)n.seed; ev.comment = g_strs.back().c_str(); e.fields = fmt("%llu %u %s", (unsigned long long)n.ilabel, ev.extra, ev.comment); start((HT_CallstackBaseEvent*)&ev, sizeof ev); break; }
    case API_HUGE:
    {
        e = begin(n, "KHuge7"); HT_DECL_EVENT(KHuge7, ev); std::vector<uint64_t> v; char* b = (char*)&ev + sizeof(HT_CallstackBaseEvent);
        for (int i = 0; i < HUGE_FIELDS; i++) { uint64_t x = nx(); memcpy(b + 8 * i, &x, 8); v.push_back(x); }
        e.fields = dump_ints(v.data(), v.size()); start((HT_CallstackBaseEvent*)&ev, sizeof ev); break;
    }
    default:
    {
        int lvl = n.k - API_BIG1 + 1;
        e = begin(n, lvl == 1 ? "KBigCall" : lvl == 2 ? "KBigCall2" : "KBigCall3");
        HT_DECL_EVENT(KBigCall, e1); HT_DECL_EVENT(KBigCall2, e2); HT_DECL_EVENT(KBigCall3, e3);
        KBigCall* b = lvl == 1 ? &e1 : lvl == 2 ? (KBigCall*)&e2 : (KBigCall*)&e3; KBigCall2* b2 = lvl == 2 ? &e2 : (KBigCall2*)&e3;
        std::vector<uint64_t> v;
        for (int i = 0; i < 15; i++) { (&b->b0)[i] = nx(); v.push_back((&b->b0)[i]); } b->b15 = (uint8_t)nx(); v.push_back(b->b15);
        std::string str;
        if (lvl >= 2) { for (int i = 0; i < 15; i++) { (&b2->c0)[i] = nx(); v.push_back((&b2->c0)[i]); } b2->c15 = (uint16_t)nx(); v.push_back(b2->c15); }
        if (lvl >= 3) { e3.d0 = nx(); e3.d1 = nx(); g_strs.push_back(n.s); e3.d2 = g_strs.back().c_str(); v.push_back(e3.d0); v.push_back(e3.d1); str = n.s; }
        e.fields = dump_ints(v.data(), v.size()) + str;
        start((HT_CallstackBaseEvent*)b, lvl == 1 ? sizeof e1 : lvl == 2 ? sizeof e2 : sizeof e3);
    }
    }
    bool thrown = false; Unwind u{0};
    try { inner(n); } catch (Unwind& x) { thrown = true; u = x; }
    if (n.other_thread) { std::thread th([&] { ht_feature_callstack_stop(t); finish(n, e); }); th.join(); g_modes.insert("stopped-by-another-thread"); }
    else { ht_feature_callstack_stop(t); finish(n, e); }
    if (thrown) throw u;
}
static void run_one(Node& n)
{
    TL& tl = g_tl[(size_t)n.tl]; HT_Timeline* t = tl.t;
    if (n.k < CPP_INT) { run_api(n); return; }
    g_strs.push_back(n.s); const char* s = g_strs.back().c_str();
    Exp e;
    auto cpp = [&](auto f) { struct Fin { Node& n; Exp& e; ~Fin() { finish(n, e); } } fin{n, e}; f(); };
    auto ilab = [&] { e = begin(n, "HT_CallstackIntEvent"); e.lkind = 0; e.ilabel = n.ilabel; };
    auto slab = [&](const std::string& l) { e = begin(n, "HT_CallstackStringEvent"); e.lkind = 1; e.slabel = l; };
    auto clab = [&](const std::string& l) { e = begin(n, "HT_CallstackIntEvent"); e.lkind = 2; e.slabel = l; };
    switch (n.k)
    {
    case CPP_INT: ilab(); cpp([&] { cpp_int(t, n); }); break;
    case CPP_STR: slab(n.s); cpp([&] { cpp_str(t, n, s); }); break;
    case CPP_DYN: clab(n.s); cpp([&] { cpp_dyn(t, n, s); }); break;
    case CPP_STATIC1: clab("cpp static 1"); cpp([&] { cpp_static1(t, n); }); break;
    case CPP_STATIC2: clab("cpp static \"2\""); cpp([&] { cpp_static2(t, n); }); break;
    case CPP_FUNC: slab("cpp_func"); cpp([&] { cpp_func(t, n); }); break;
    case CPP_FUNC_OPT: clab("cpp_func_opt"); cpp([&] { cpp_func_opt(t, n); }); break;
    case CPP_TWO:
    {
        Exp e2; slab(n.s); e2 = begin(n, "HT_CallstackIntEvent"); e2.lkind = 0; e2.ilabel = n.ilabel;
        struct Fin { Node& n; Exp &a, &b; ~Fin() { finish(n, a); finish(n, b); } } fin{n, e2, e};
        cpp_two(t, n, s); break;
    }
    // C functions cannot be unwound: everything thrown below them is caught inside
    case C_INT: ilab(); c_scoped_int(t, n.ilabel, n.exit, inner_nothrow, &n); finish(n, e); break;
    case C_STR: slab(n.s); c_scoped_string(t, s, n.exit, inner_nothrow, &n); finish(n, e); break;
    case C_DYN: clab(n.s); c_scoped_dynamic(t, s, n.exit, inner_nothrow, &n); finish(n, e); break;
    case C_FUNC: slab("c_scoped_function"); c_scoped_function(t, n.exit, inner_nothrow, &n); finish(n, e); break;
    case C_STATIC1: clab("c static one"); c_scoped_static_1(t, n.exit, inner_nothrow, &n); finish(n, e); break;
    case C_STATIC2: clab("c static two"); c_scoped_static_2(t, n.exit, inner_nothrow, &n); finish(n, e); break;
    default: clab(""); c_scoped_static_3(t, n.exit, inner_nothrow, &n); finish(n, e); break;
    }
}
static void exec(Node& n)
{
    static const char* en[] = {"fall", "return", "break", "continue", "goto", "throw"};
    if (g_depth < 4) g_c->note(fmt("%*sspan kind=%d timeline=%d exit=%s kids=%zu", (int)g_depth * 2, "", n.k, n.tl, en[n.exit], n.kids.size()));
    try { run_one(n); }
    catch (Unwind& u) { g_modes.insert("exception"); if (n.catches || u.left <= 0) return; throw Unwind{u.left - 1}; }
}

static void run(Case& c)
{
    auto& t = c.t; g_c = &c;
    ht_init(0, nullptr); register_all();
    ht_KBigCall_register_event_klass(); ht_KBigCall2_register_event_klass(); ht_KBigCall3_register_event_klass(); ht_KHuge7_register_event_klass();
    g_now = t.scaled(1ULL << 60);
    size_t ntl = 1 + t.draw(3);
    for (size_t i = 0; i < ntl; i++)
    {
        g_tl.emplace_back(); TL& x = g_tl.back(); x.idx = (int)i; x.ser = !t.chance(1, 4); HT_ErrorCode err;
        x.t = ht_timeline_create(t.pick<size_t>({0, 1, 64, 200, 1024, 4096}), t.coin(), x.ser, t.coin() ? fmt("g%zu", i).c_str() : nullptr, &err);
        PBT_CHECK(x.t, "create-failed", "no timeline");
        PBT_CHECK(ht_feature_callstack_enable(x.t) == HT_ERR_OK && ht_feature_cached_string_enable(x.t, t.coin()) == HT_ERR_OK, "enable-failed", "feature not enabled");
        ht_timeline_register_listener(x.t, cb, &x);
    }
    size_t roots = 1 + t.draw(4), budget = 10 + t.count(200), spans = 0;
    for (size_t i = 0; i < roots; i++)
    {
        Node n = gen(t, 0, 2 + (int)t.draw(60), budget, (int)t.draw(ntl - 1));
        try { exec(n); } catch (Unwind&) {}
    }
    if (t.chance(1, 4))   // one very deep stack of explicit starts on one timeline, interleaved with the others
    {
        size_t depth = 1 + t.draw(3000); std::vector<std::pair<Node*, Exp>> open; std::deque<Node> nodes; c.label("deep");
        uint64_t seed = t.draw(UINT32_MAX);
        auto rnd = [&](uint64_t m) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; return (seed >> 33) % m; };
        auto push = [&] {
            nodes.emplace_back(); Node& n = nodes.back(); n.tl = (int)0; n.ilabel = rnd(1 << 30); HT_Timeline* tl = g_tl[0].t; Exp e;
            switch (rnd(3))
            {
            case 0: n.k = API_INT; e = begin(n, "HT_CallstackIntEvent"); e.lkind = 0; e.ilabel = n.ilabel; ht_feature_callstack_start_int(tl, n.ilabel); break;
            case 1: n.k = API_STR; e = begin(n, "HT_CallstackStringEvent"); e.lkind = 1; g_strs.push_back(fmt("deep %u", (unsigned)n.ilabel)); e.slabel = g_strs.back(); ht_feature_callstack_start_string(tl, g_strs.back().c_str()); break;
            default:
            {
                e = begin(n, "KBigCall"); HT_DECL_EVENT(KBigCall, b); std::vector<uint64_t> v; for (int i = 0; i < 15; i++) { (&b.b0)[i] = rnd(1u << 31); v.push_back((&b.b0)[i]); } b.b15 = 7; v.push_back(7);
                e.fields = dump_ints(v.data(), v.size()); ht_feature_callstack_start(tl, (HT_CallstackBaseEvent*)&b); break;
            }
            }
            g_now += rnd(100); open.push_back({&n, e});
        };
        auto pop = [&] { g_now += rnd(100); ht_feature_callstack_stop(g_tl[0].t); finish(*open.back().first, open.back().second); open.pop_back(); };
        size_t zig = t.draw(3);   // grow and shrink repeatedly
        for (size_t z = 0; z <= zig; z++) { while (open.size() < depth) push(); size_t down = rnd(depth + 1); while (open.size() > down) pop(); }
        while (!open.empty()) pop();
    }
    for (auto& x : g_tl) { if (t.coin()) ht_timeline_flush(x.t); ht_timeline_destroy(x.t); }
    std::map<size_t, uint64_t> ids;   // by start order
    for (auto& x : g_tl)
    {
        spans += x.exp.size();
        size_t n = std::min(x.got.size(), x.exp.size());
        for (size_t i = 0; i < n; i++)
        {
            Exp& e = x.exp[i]; Got& g = x.got[i];
            std::string w = fmt("timeline %d span %zu (%s)", x.idx, i, e.klass.c_str());
            PBT_CHECK(g.klass == e.klass, "wrong-span", "%s: delivered %s", w.c_str(), g.klass.c_str());
            PBT_CHECK(g.ts == e.ts, "wrong-timestamp", "%s: timestamp %llu, started at %llu", w.c_str(), (unsigned long long)g.ts, (unsigned long long)e.ts);
            PBT_CHECK(g.dur == e.dur, "wrong-duration", "%s: duration %llu, expected %llu", w.c_str(), (unsigned long long)g.dur, (unsigned long long)e.dur);
            PBT_CHECK(g.tid == e.tid, "wrong-thread", "%s: thread %llu, stopped by %u", w.c_str(), (unsigned long long)g.tid, e.tid);
            PBT_CHECK(!e.id_known || g.id == e.id, "wrong-id", "%s: id %llu, started with %llu", w.c_str(), (unsigned long long)g.id, (unsigned long long)e.id);
            if (e.lkind == 0) PBT_CHECK(g.ilabel == e.ilabel, "wrong-label", "%s: label %llu, started with %llu", w.c_str(), (unsigned long long)g.ilabel, (unsigned long long)e.ilabel);
            else if (e.lkind == 1) PBT_CHECK(g.slabel == e.slabel, "wrong-label", "%s: label '%s', started with '%s'", w.c_str(), g.slabel.c_str(), e.slabel.c_str());
            else if (e.lkind == 2) { auto it = x.maps.find(g.ilabel); PBT_CHECK(it != x.maps.end() && it->second == e.slabel, "wrong-label", "%s: label id resolves to %s, started with '%s'", w.c_str(), it == x.maps.end() ? "nothing" : it->second.c_str(), e.slabel.c_str()); }
            PBT_CHECK(g.fields == e.fields, "wrong-fields", "%s: fields %s, started with %s", w.c_str(), g.fields.substr(0, 200).c_str(), e.fields.substr(0, 200).c_str());
            ids[e.start_order] = g.id;
        }
        PBT_CHECK(x.got.size() == x.exp.size(), "span-count", "timeline %d delivered %zu spans, %zu were stopped", x.idx, x.got.size(), x.exp.size());
        PBT_CHECK(x.plain_got == x.plain_exp, "plain-events", "timeline %d: events pushed inside spans were lost or moved", x.idx);
    }
    uint64_t last = 0; bool first = true;
    for (auto& i : ids) { PBT_CHECK(first || i.second > last, "id-order", "the span started as number %zu has id %llu, an earlier started one %llu", i.first, (unsigned long long)i.second, (unsigned long long)last); last = i.second; first = false; }
    for (auto& m : g_modes) c.label(m);
    if (g_maxdepth > 32) c.label("depth>32"); if (ntl > 1) c.label("several-timelines");
    c.nontrivial = spans >= 4 && g_maxdepth >= 2;
    ht_deinit();
}
pbt::Harness& pbt::harness() { static Harness h{"spans", run, {}, 30, false}; return h; }
