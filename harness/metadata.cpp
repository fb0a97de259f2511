// C04: every stream describes its own event classes.  -DCONC: registration and metadata requests of several threads.
#ifdef CONC
#include "sched.hpp"
#endif
#include "events_model.hpp"
#include "meta_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/registry.h>
#include <set>
using namespace model;
using pbt::Case; using pbt::fail; using meta::M;

struct FD { std::string type, name; uint64_t size; unsigned dtype; };
struct KD { std::string name; std::vector<FD> f; HT_EventKlass* k = nullptr; HT_EventKlassId (*reg)() = nullptr; bool real = false; uint32_t id = 0; bool registered = false; uint64_t begin = 0, end = 0; };
enum { STRUCT_ = 1, STRING_ = 2, INT_ = 3, FLOAT_ = 4, DOUBLE_ = 5, POINTER_ = 6, UINT_ = 99 };

static const std::vector<KD>& core()
{
    static const FD base{"HT_Event", "base", sizeof(HT_Event), STRUCT_}; static const uint64_t P = sizeof(char*);
    static const std::vector<KD> v = {
        {"HT_EndiannessInfoEvent", {base, {"uint8_t", "endianness", 1, UINT_}}, ht_HT_EndiannessInfoEvent_get_event_klass_instance()},
        {"HT_Event", {{"HT_EventKlass*", "klass", P, POINTER_}, {"HT_TimestampNs", "timestamp", 8, UINT_}, {"HT_EventId", "id", 8, UINT_}}, ht_HT_Event_get_event_klass_instance()},
        {"HT_EventKlassInfoEvent", {base, {"HT_EventKlassId", "info_klass_id", 4, UINT_}, {"const char*", "event_klass_name", P, STRING_}, {"uint8_t", "field_count", 1, UINT_}}, ht_HT_EventKlassInfoEvent_get_event_klass_instance()},
        {"HT_EventKlassFieldInfoEvent", {base, {"HT_EventKlassId", "info_klass_id", 4, UINT_}, {"const char*", "field_type", P, STRING_}, {"const char*", "field_name", P, STRING_}, {"uint64_t", "size", 8, UINT_}, {"uint8_t", "data_type", 1, UINT_}}, ht_HT_EventKlassFieldInfoEvent_get_event_klass_instance()},
        {"HT_CallstackBaseEvent", {base, {"HT_DurationNs", "duration", 8, UINT_}, {"HT_ThreadId", "thread_id", 4, UINT_}}, ht_HT_CallstackBaseEvent_get_event_klass_instance()},
        {"HT_CallstackIntEvent", {{"HT_CallstackBaseEvent", "base", sizeof(HT_CallstackBaseEvent), STRUCT_}, {"HT_CallstackEventLabel", "label", 8, UINT_}}, ht_HT_CallstackIntEvent_get_event_klass_instance()},
        {"HT_CallstackStringEvent", {{"HT_CallstackBaseEvent", "base", sizeof(HT_CallstackBaseEvent), STRUCT_}, {"const char*", "label", P, STRING_}}, ht_HT_CallstackStringEvent_get_event_klass_instance()},
        {"HT_StringMappingEvent", {base, {"uint64_t", "identifier", 8, UINT_}, {"const char*", "label", P, STRING_}}, ht_HT_StringMappingEvent_get_event_klass_instance()},
        {"HT_SystemInfoEvent", {base, {"uint8_t", "version_major", 1, UINT_}, {"uint8_t", "version_minor", 1, UINT_}, {"uint8_t", "version_patch", 1, UINT_}}, ht_HT_SystemInfoEvent_get_event_klass_instance()},
    };
    return v;
}
static KD real_kd(int i)
{
    const Klass& k = klasses()[(size_t)i]; KD d; d.name = k.name; d.k = k.get(); d.reg = k.reg; d.real = true;
    size_t bs = k.base >= 0 ? klasses()[(size_t)k.base].size : sizeof(HT_Event);
    d.f.push_back({k.base_name, "base", bs, STRUCT_});
    for (auto& f : k.own) d.f.push_back({f.ctype, f.name, f.size, (unsigned)(f.kind == STR ? STRING_ : f.kind == INT ? INT_ : f.kind == UINT ? UINT_ : f.ctype == "double" ? DOUBLE_ : POINTER_)});
    return d;
}
struct Rt { HT_EventKlass k; MKCREFLECT_TypeInfo ti; std::vector<MKCREFLECT_FieldInfo> f; };
static std::deque<Rt> g_rt;
static std::deque<std::string> g_names;
static const char* keep(const std::string& s) { g_names.push_back(s); return g_names.back().c_str(); }
static std::string gen_name(pbt::Tape& t, bool longn)
{
    if (longn && t.chance(1, 4)) { size_t n = t.pick<size_t>({100, 1000, 3900, 4000, 4060, 4090, 4095, 4096, 4097, 5000, 9000}) + t.draw(40); std::string s = fmt("L%llu_", (unsigned long long)t.draw(99)); while (s.size() < n) s += (char)('a' + s.size() % 26); return s; }
    return gen_string(t, 60);
}
static KD runtime_kd(pbt::Tape& t, bool longn)
{
    KD d; d.name = gen_name(t, longn);
    size_t n = t.weighted({5, 2, 1}) == 0 ? t.draw(6) : t.coin() ? t.draw(40) : t.draw(200);
    g_rt.emplace_back(); Rt& r = g_rt.back(); memset(&r.k, 0, sizeof r.k); memset(&r.ti, 0, sizeof r.ti);
    uint64_t s = t.draw(UINT32_MAX);
    for (size_t i = 0; i < n; i++)
    {
        static const char* types[] = {"uint8_t", "int16_t", "unsigned long long", "const char*", "HT_Event", "void*", "double", "int", "size_t", "MyType"};
        FD f; MKCREFLECT_FieldInfo fi; memset(&fi, 0, sizeof fi);
        if (i < 12) { f.name = i < 4 ? gen_name(t, longn) : fmt("f%zu", i); f.type = t.chance(1, 6) ? gen_name(t, longn) : types[t.draw(9)]; f.size = t.u64any(); f.dtype = t.pick<unsigned>({UINT_, INT_, STRING_, STRUCT_, DOUBLE_, POINTER_, FLOAT_}); }
        else { s = s * 6364136223846793005ULL + 1; f.name = fmt("field_%zu_%llu", i, (unsigned long long)(s >> 40)); f.type = types[(s >> 33) % 10]; f.size = 1ULL << ((s >> 20) % 4); f.dtype = (s >> 50) & 1 ? INT_ : UINT_; }
        fi.field_name = keep(f.name); fi.field_type = keep(f.type); fi.size = f.size; fi.array_size = -1; fi.data_type = (MKCREFLECT_Types)(f.dtype == UINT_ ? INT_ : f.dtype); fi.is_signed = f.dtype == UINT_ ? 0 : f.dtype == INT_ ? 1 : (int)(i & 1);
        r.f.push_back(fi); d.f.push_back(f);
    }
    r.ti.name = keep(d.name); r.ti.fields_count = n; r.ti.size = sizeof(HT_Event); r.ti.fields = r.f.data();
    HT_EventKlass* e = ht_HT_Event_get_event_klass_instance(); r.k.serialize = e->serialize; r.k.get_size = e->get_size; r.k.type_info = &r.ti; r.k.klass_id = HT_INVALID_KLASS_ID;
    d.k = &r.k;
    return d;
}
struct Sink { std::vector<M> ev; size_t bytes = 0, calls = 0; bool ser; std::string bad; };
static void collect(TEventPtr d, size_t n, HT_Boolean ser, void* ud)
{
    Sink& s = *(Sink*)ud; s.calls++; s.bytes += n;
    if ((ser != 0) != s.ser) s.bad = "a chunk is flagged with the wrong mode";
    size_t o = 0;
    while (o < n) { M m; size_t k = s.ser ? meta::read(d + o, n - o, m) : meta::read_raw(d + o, n - o, m); if (!k) { s.bad = fmt("chunk %zu holds no whole metadata event at offset %zu of %zu", s.calls, o, n); return; } s.ev.push_back(m); o += k; }
}
// reads the metadata of one request and checks it against the classes registered; 'maybe' need not be described
static void check(Sink& s, const std::vector<const KD*>& must, const std::vector<const KD*>& maybe, bool sysinfo = true)
{
    PBT_CHECK(s.bad.empty(), "malformed", "%s", s.bad.c_str());
    size_t i = 0, n = s.ev.size();
    if (sysinfo)
    {
        PBT_CHECK(n >= 2 && s.ev[0].kind == 'E' && s.ev[0].v[0] == 0, "byte-order", "the metadata does not begin with the byte-order marker");
        size_t si = 0; for (auto& e : s.ev) if (e.kind == 'S') { si++; PBT_CHECK(e.v[0] == HT_VERSION_MAJOR && e.v[1] == HT_VERSION_MINOR && e.v[2] == HT_VERSION_PATCH, "system-info", "wrong version %u.%u.%u", e.v[0], e.v[1], e.v[2]); }
        PBT_CHECK(si == 1, "system-info", "%zu system info events", si);
        i = 1;
    }
    std::map<uint32_t, const KD*> byid; for (auto* k : must) byid[k->k->klass_id] = k; for (auto* k : maybe) byid[k->k->klass_id] = k;
    std::set<uint32_t> seen;
    while (i < n)
    {
        if (s.ev[i].kind == 'S') { i++; continue; }
        PBT_CHECK(s.ev[i].kind == 'K', "order", "metadata event %zu is %s, expected a class", i, s.ev[i].str().c_str());
        const M& km = s.ev[i++];
        auto it = byid.find(km.kid);
        PBT_CHECK(it != byid.end(), "unknown-class", "the metadata describes %s, which is not registered", km.str().c_str());
        PBT_CHECK(seen.insert(km.kid).second, "described-twice", "%s is described twice", km.str().c_str());
        const KD& d = *it->second;
        PBT_CHECK(km.name == d.name, "class-name", "class %u is described as '%s', registered as '%s'", km.kid, km.name.substr(0, 100).c_str(), d.name.substr(0, 100).c_str());
        PBT_CHECK(km.count == d.f.size(), "field-count", "class '%s' is described with %u fields, declared with %zu", d.name.substr(0, 100).c_str(), km.count, d.f.size());
        for (size_t f = 0; f < d.f.size(); f++, i++)
        {
            PBT_CHECK(i < n && s.ev[i].kind == 'F' && s.ev[i].kid == km.kid, "field-missing", "field %zu of class '%s' is not described", f, d.name.substr(0, 100).c_str());
            const M& m = s.ev[i]; const FD& x = d.f[f];
            PBT_CHECK(m.name == x.name && m.type == x.type && m.size == x.size && m.dtype == x.dtype, "field-differs", "%s, declared as '%s' '%s' size %llu kind %u", m.str().c_str(), x.name.substr(0, 60).c_str(), x.type.substr(0, 60).c_str(), (unsigned long long)x.size, x.dtype);
        }
    }
    for (auto* k : must) PBT_CHECK(seen.count(k->k->klass_id), "not-described", "class '%s' (%u) is registered but not described", k->name.substr(0, 100).c_str(), k->k->klass_id);
}
static uint32_t do_register(KD& d) { return d.real ? d.reg() : ht_registry_register_event_klass(d.k); }

#ifndef CONC
static void run(Case& c)
{
    auto& t = c.t;
    std::deque<KD> all; for (int i = 0; i < I_COUNT; i++) if (klasses()[(size_t)i].name.compare(0, 3, "HT_")) all.push_back(real_kd(i));
    bool longn = t.coin(); size_t nr = t.weighted({3, 2, 1}) == 0 ? t.draw(6) : t.coin() ? t.draw(30) : t.draw(150);
    for (size_t i = 0; i < nr; i++) all.push_back(runtime_kd(t, longn));
    int depth = 0; size_t inits = 0, pushes = 0, regs = 0, again = 0;
    auto ids_unique = [&] {
        std::map<uint32_t, std::string> m;
        for (auto& k : core()) PBT_CHECK(m.emplace(k.k->klass_id, k.name).second, "id-not-unique", "class '%s' shares its id %u", k.name.c_str(), k.k->klass_id);
        for (auto& k : all) if (k.registered) { auto r = m.emplace(k.k->klass_id, k.name); PBT_CHECK(r.second, "id-not-unique", "classes '%s' and '%s' share id %u", k.name.substr(0, 60).c_str(), r.first->second.substr(0, 60).c_str(), k.k->klass_id); }
        PBT_CHECK(core()[0].k->klass_id == 0, "byte-order-id", "the byte-order marker has class id %u", core()[0].k->klass_id);
    };
    size_t n = 4 + t.count(60);
    for (size_t i = 0; i < n; i++)
    {
        if (!depth) { c.note("init"); ht_init(0, nullptr); depth = 1; inits++; for (auto& k : all) k.registered = false; ids_unique(); }
        switch (t.weighted({6, 3, 4, 1, 2}))
        {
        case 0: case 1:
        {
            size_t m = t.chance(1, 4) ? 1 + t.draw(20) : 1, at = t.draw(all.size() - 1);
            for (size_t j = 0; j < m && j < all.size(); j++)
            {
                KD& d = all[(at + j) % all.size()];
                uint32_t id = do_register(d); regs++;
                c.note(fmt("register '%s' -> %u", d.name.substr(0, 40).c_str(), id));
                PBT_CHECK(id != HT_INVALID_KLASS_ID && id == d.k->klass_id, "register", "registering '%s' returned %u, the class has id %u", d.name.substr(0, 60).c_str(), id, d.k->klass_id);
                if (d.registered) { again++; PBT_CHECK(id == d.id, "id-changed", "registering '%s' again returned %u instead of %u", d.name.substr(0, 60).c_str(), id, d.id); }
                d.registered = true; d.id = id;
            }
            ids_unique();
            break;
        }
        case 2:
        {
            Sink s; s.ser = !t.chance(1, 3); pushes++;
            bool klasses_only = t.chance(1, 5);
            c.note(fmt("push %s (%s)", klasses_only ? "classes" : "metadata", s.ser ? "serialized" : "raw"));
            size_t sz = klasses_only ? ht_registry_push_registry_klasses_to_listener(collect, &s, s.ser) : ht_timeline_listener_push_metadata(collect, &s, s.ser);
            PBT_CHECK(sz == s.bytes, "size-reported", "%zu bytes reported, %zu delivered", sz, s.bytes);
            std::vector<const KD*> must; for (auto& k : core()) must.push_back(&k); for (auto& k : all) if (k.registered) must.push_back(&k);
            check(s, must, {}, !klasses_only);
            size_t cnt = 0; HT_EventKlass** list = ht_registry_get_event_klasses(&cnt);
            PBT_CHECK(cnt == must.size(), "class-list", "the list of registered classes has %zu entries, %zu are registered", cnt, must.size());
            for (auto* k : must) PBT_CHECK(list[k->k->klass_id] == k->k, "class-list", "entry %u of the list of classes is not class '%s'", k->k->klass_id, k->name.substr(0, 60).c_str());
            break;
        }
        case 3: ht_init(0, nullptr); depth++; c.note("init again"); break;
        default: if (t.chance(1, 2)) { ht_deinit(); depth--; c.note("deinit"); PBT_CHECK((ht_is_initialized() != 0) == (depth > 0), "initialized", "ht_is_initialized is %d at depth %d", ht_is_initialized(), depth); }
        }
    }
    while (depth--) ht_deinit();
    if (inits > 1) c.label("reinitialised"); if (again) c.label("registered-again"); if (longn) c.label("long-names"); if (nr > 30) c.label("many-classes");
    c.nontrivial = pushes >= 1 && regs >= 2;
}
pbt::Harness& pbt::harness() { static Harness h{"metadata", run, {}, 30, false}; return h; }
#else
static void run(Case& c)
{
    auto& t = c.t; ht_init(0, nullptr);
    std::deque<KD> all; for (int i = 0; i < 6; i++) all.push_back(real_kd((int)t.draw(I_KDer4)));
    size_t nr = t.draw(8); for (size_t i = 0; i < nr; i++) all.push_back(runtime_kd(t, false));
    // the same real class may be there several times: keep one
    for (size_t i = 0; i < all.size();) { bool dup = false; for (size_t j = 0; j < i; j++) dup |= all[j].k == all[i].k; if (dup) all.erase(all.begin() + (long)i); else i++; }
    size_t nt = 2 + t.draw(1), regs = 0, pushes = 0; uint64_t tick = 0;
    struct Op { int kind; size_t arg; bool ser; };
    std::vector<std::vector<Op>> ops(nt);
    for (auto& o : ops) { size_t n = 1 + t.draw(4); for (size_t k = 0; k < n; k++) if (t.chance(1, 3)) { o.push_back({1, 0, t.coin()}); pushes++; } else { o.push_back({0, t.draw(all.size() - 1), false}); regs++; } }
    for (size_t i = 0; i < nt; i++) for (auto& o : ops[i]) c.note(o.kind ? fmt("thread %zu: push metadata", i) : fmt("thread %zu: register class %zu", i, o.arg));
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; i++)
        bodies.push_back([&, i] {
            for (auto& op : ops[i])
            {
                sched::point();
                if (op.kind == 0)
                {
                    KD& d = all[op.arg]; if (!d.begin) d.begin = ++tick; uint32_t id = do_register(d);
                    PBT_CHECK(id != HT_INVALID_KLASS_ID && (!d.registered || d.id == id), "id-changed", "class '%s' got the ids %u and %u", d.name.c_str(), d.id, id);
                    d.registered = true; d.id = id; if (!d.end) d.end = ++tick;
                }
                else
                {
                    uint64_t b = ++tick; Sink s; s.ser = op.ser; size_t sz = ht_timeline_listener_push_metadata(collect, &s, s.ser); uint64_t e = ++tick;
                    PBT_CHECK(sz == s.bytes, "size-reported", "%zu bytes reported, %zu delivered", sz, s.bytes);
                    std::vector<const KD*> must, maybe; for (auto& k : core()) must.push_back(&k);
                    for (auto& k : all) if (k.end && k.end < b) must.push_back(&k); else if (k.begin && k.begin < e) maybe.push_back(&k);
                    check(s, must, maybe);
                }
            }
        });
    sched::run(t, bodies, t.draw(30));
    std::map<uint32_t, std::string> m; for (auto& k : core()) m.emplace(k.k->klass_id, k.name);
    for (auto& k : all) if (k.registered) PBT_CHECK(m.emplace(k.id, k.name).second && k.k->klass_id == k.id, "id-not-unique", "class '%s' shares id %u or changed it to %u", k.name.c_str(), k.id, k.k->klass_id);
    Sink s; s.ser = true; ht_timeline_listener_push_metadata(collect, &s, true);
    std::vector<const KD*> must; for (auto& k : core()) must.push_back(&k); for (auto& k : all) if (k.registered) must.push_back(&k);
    check(s, must, {});
    ht_deinit();
    c.nontrivial = regs >= 2 && sched::g_switches > nt;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_registry", run, {}, 30, false}; return h; }
#endif
