// C08: cached strings.  Component "labels": histories on several timelines against a model.  Component "labels_bulk"
// (-DBULK): very many labels (collisions).  Component "conc_labels" (-DCONC, sched variant): concurrent use.
#ifdef CONC
#include "sched.hpp"
#endif
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/feature_cached_string.h>
#include <set>
#include <unordered_map>
using namespace model;
using pbt::Case; using pbt::fail;

struct Rec { bool map; uint64_t id; std::string s; };
struct Log { std::vector<Rec> r; };
static void cb(TEventPtr data, size_t size, HT_Boolean serialized, void* ud)
{
    PBT_CHECK(serialized, "not-serialized", "raw chunk");
    size_t o = 0;
    while (o < size)
    {
        Ev e; size_t n = decode(data + o, size - o, e);
        PBT_CHECK(n, "torn-event", "stream cannot be decoded");
        o += n;
        if (e.k == I_Map) ((Log*)ud)->r.push_back({true, e.vals[0].u, e.vals[1].s}); else if (e.k == I_CSInt) ((Log*)ud)->r.push_back({false, e.vals[2].u, ""});
    }
}

// families of labels that are close to each other
static std::string gen_label(Tape& t)
{
    switch (t.weighted({4, 3, 2, 2, 2}))
    {
    case 0: { std::string s; size_t n = t.draw(4); for (size_t i = 0; i < n; i++) s += (char)t.pick<int>({'a', 'b', 'A', 'B', 'Z', '@', 1, 0x7f, 0x80, 0xff}); return s; }
    case 1: { std::string s; size_t n = t.draw(10); for (size_t i = 0; i < n; i++) s += (char)('a' + t.draw(25)); return s; }
    case 2: return std::string(t.pick<size_t>({7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000}), 'p') + fmt("%d", (int)t.draw(30));
    case 3: return fmt("%d", (int)t.draw(30)) + std::string(t.pick<size_t>({7, 8, 16, 32, 64, 300}), 's');
    default: { std::string s = "namespace::Class::method"; s[t.draw(s.size() - 1)] = (char)('A' + t.draw(25)); return s; }
    }
}

#if defined(BULK)
static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    HT_Timeline* tl = ht_timeline_create(1 << 16, HT_FALSE, HT_TRUE, nullptr, nullptr);
    PBT_CHECK(ht_feature_cached_string_enable(tl, HT_FALSE) == HT_ERR_OK, "enable-failed", "feature not enabled");
    Log log; ht_timeline_register_listener(tl, cb, &log);
    size_t n = 230000; int style = (int)t.draw(3); uint64_t x = t.draw(UINT32_MAX);
    std::unordered_map<uint64_t, std::string> ids; std::vector<std::pair<std::string, uint64_t>> all;
    for (size_t i = 0; i < n; i++)
    {
        std::string s;
        switch (style)
        {
        case 0: s = fmt("label_%zu", i); break;
        case 1: { uint64_t z = i; do { s += (char)('!' + z % 90); z /= 90; } while (z); break; }
        case 2: { uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ULL + x; s = fmt("%llx", (unsigned long long)z); break; }
        default: s = fmt("ns%zu::Klass::fn%zu", i % 577, i / 577);
        }
        uint64_t id = ht_feature_cached_string_add_mapping_dynamic(tl, s.c_str());
        auto r = ids.insert({id, s});
        PBT_CHECK(r.second, "id-shared", "labels '%s' and '%s' share the id %llx", r.first->second.c_str(), s.c_str(), (unsigned long long)id);
        if (i % 1000 == 0) all.push_back({s, id});
    }
    for (auto& a : all) PBT_CHECK(ht_feature_cached_string_add_mapping_dynamic(tl, a.first.c_str()) == a.second, "id-changed", "label '%s' got another id", a.first.c_str());
    ht_timeline_flush(tl);
    PBT_CHECK(log.r.size() == n, "announced", "%zu labels, %zu announcements", n, log.r.size());
    for (auto& r : log.r) { auto it = ids.find(r.id); PBT_CHECK(it != ids.end() && it->second == r.s, "wrong-mapping", "id %llx announced as '%s'", (unsigned long long)r.id, r.s.c_str()); }
    log.r.clear();
    ht_feature_cached_string_push_map(tl); ht_timeline_flush(tl);
    PBT_CHECK(log.r.size() == n, "re-announced", "%zu labels, %zu announcements by push_map", n, log.r.size());
    ht_timeline_destroy(tl); ht_deinit();
    c.note(fmt("%zu labels of style %d", n, style)); c.nontrivial = true;
}
pbt::Harness& pbt::harness() { static Harness h{"labels_bulk", run, {}, 120, false}; return h; }

#elif defined(CONC)
static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    HT_Timeline* tl = ht_timeline_create(t.coin() ? t.draw(100) : 1024, HT_TRUE, HT_TRUE, nullptr, nullptr);
    PBT_CHECK(ht_feature_cached_string_enable(tl, HT_TRUE) == HT_ERR_OK, "enable-failed", "feature not enabled");
    Log log; ht_timeline_register_listener(tl, cb, &log);
    static const char st[3][8] = {"one", "two", "three"};
    size_t nt = 2 + t.draw(1), maps = 0, uses = 0;
    struct Op { int kind; std::string s; size_t i; uint64_t id = 0; };
    std::deque<std::deque<Op>> ops(nt);
    std::vector<std::string> dyn; for (int i = 0; i < 3; i++) { std::string s; do s = gen_label(t); while (s.size() > 20); dyn.push_back(s); }
    for (size_t i = 0; i < nt; i++)
    {
        size_t n = 1 + t.draw(5);
        for (size_t k = 0; k < n; k++)
            switch (t.weighted({4, 3, 1}))
            {
            case 0: ops[i].push_back({0, t.pick(dyn), 0}); uses++; break;
            case 1: ops[i].push_back({1, "", t.draw(2)}); ops[i].back().s = st[ops[i].back().i]; uses++; break;
            default: ops[i].push_back({2, "", 0}); maps++;
            }
        std::string s; for (auto& o : ops[i]) s += o.kind == 2 ? " push_map" : o.kind == 1 ? " static:" + o.s : " dynamic:" + o.s;
        c.note(fmt("thread %zu:%s", i, s.c_str()));
    }
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; i++)
        bodies.push_back([&, i] {
            for (auto& o : ops[i])
            {
                if (o.kind == 2) { ht_feature_cached_string_push_map(tl); continue; }
                if (o.kind == 0) { std::string tmp = o.s; o.id = ht_feature_cached_string_add_mapping_dynamic(tl, tmp.c_str()); for (auto& ch : tmp) ch = '#'; }
                else o.id = ht_feature_cached_string_add_mapping(tl, st[o.i]);
                HT_TIMELINE_PUSH_EVENT(tl, HT_CallstackIntEvent, 1, 1, o.id);      // uses the id
            }
        });
    sched::run(t, bodies, t.draw(60));
    ht_timeline_flush(tl);
    std::map<uint64_t, std::string> by_id; std::map<std::string, uint64_t> by_key;
    for (auto& th : ops) for (auto& o : th) if (o.kind != 2)
    {
        auto a = by_key.insert({(o.kind ? "s:" : "d:") + o.s, o.id}); PBT_CHECK(a.first->second == o.id, "id-changed", "label '%s' has ids %llx and %llx", o.s.c_str(), (unsigned long long)a.first->second, (unsigned long long)o.id);
    }
    for (auto& k : by_key) { auto r = by_id.insert({k.second, k.first.substr(2)}); PBT_CHECK(r.second || r.first->second == k.first.substr(2), "id-shared", "labels '%s' and '%s' share an id", r.first->second.c_str(), k.first.c_str()); }
    std::map<uint64_t, size_t> ann;
    size_t used = 0;
    for (auto& r : log.r)
        if (r.map) { auto it = by_id.find(r.id); PBT_CHECK(it != by_id.end() && it->second == r.s, "wrong-mapping", "id %llx is announced as '%s'", (unsigned long long)r.id, r.s.c_str()); ann[r.id]++; }
        else { used++; PBT_CHECK(ann.count(r.id), "used-before-announced", "an event uses the id of '%s' before the mapping was announced", by_id[r.id].c_str()); }
    PBT_CHECK(used == uses, "events-lost", "%zu of %zu events delivered", used, uses);
    for (auto& b : by_id) PBT_CHECK(ann[b.first] >= 1 && ann[b.first] <= 1 + maps, "announce-count", "'%s' was announced %zu times with %zu map pushes", b.second.c_str(), ann[b.first], maps);
    ht_timeline_destroy(tl); ht_deinit();
    c.nontrivial = uses >= 3 && sched::g_switches > nt;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_labels", run, {}, 30, false}; return h; }

#else
struct TL
{
    HT_Timeline* t; Log log; size_t seen = 0;
    std::map<std::string, uint64_t> dyn; std::map<const char*, uint64_t> sta; std::vector<uint64_t> order;
};
static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    std::deque<TL> tls; std::deque<std::string> pool; std::map<uint64_t, std::string> by_id;   // across timelines
    size_t nt = 1 + t.draw(2), adds = 0, repeats = 0, maps = 0;
    for (size_t i = 0; i < nt; i++)
    {
        tls.emplace_back(); auto& x = tls.back();
        x.t = ht_timeline_create(t.coin() ? t.draw(120) : 1024, t.coin(), HT_TRUE, nullptr, nullptr);
        PBT_CHECK(ht_feature_cached_string_enable(x.t, t.coin()) == HT_ERR_OK, "enable-failed", "feature not enabled");
        ht_timeline_register_listener(x.t, cb, &x.log);
    }
    size_t np = 1 + t.count(60); for (size_t i = 0; i < np; i++) pool.push_back(gen_label(t));
    bool bulk = t.chance(1, 20);
    size_t n = 3 + t.count(bulk ? 1500 : 120);
    std::vector<std::string> recent;
    auto flush_to = [&](TL& x) { ht_timeline_flush(x.t); };
    for (size_t i = 0; i < n; i++)
    {
        TL& x = tls[t.draw(nt - 1)];
        size_t w = t.weighted({6, 4, 1, 1, 1});
        if (w == 0 || w == 1)
        {
            bool dyn = w == 0; std::string s; const char* p = nullptr; bool fresh; uint64_t id;
            if (dyn) { s = (bulk && t.coin()) ? fmt("b%zu", i) : t.chance(1, 4) ? pool[t.draw(np - 1)] : gen_label(t); fresh = !x.dyn.count(s); }
            else { std::string& q = pool[t.draw(np - 1)]; p = q.c_str(); s = q; fresh = !x.sta.count(p); }
            c.note(fmt("timeline %zu: add %s '%s'", (size_t)(&x - &tls[0]), dyn ? "dynamic" : "static", s.substr(0, 40).c_str()));
            flush_to(x); size_t before = x.log.r.size();
            if (dyn) { char* tmp = strdup(s.c_str()); id = ht_feature_cached_string_add_mapping_dynamic(x.t, tmp); memset(tmp, '#', s.size()); free(tmp); }
            else id = ht_feature_cached_string_add_mapping(x.t, p);
            flush_to(x);
            PBT_CHECK(id != 0, "no-id", "no id for '%s'", s.c_str());
            if (fresh)
            {
                adds++;
                PBT_CHECK(x.log.r.size() == before + 1, "not-announced", "new label '%s' produced %zu announcements", s.c_str(), x.log.r.size() - before);
                auto& r = x.log.r.back();
                PBT_CHECK(r.map && r.id == id && r.s == s, "wrong-mapping", "label '%s' with id %llx is announced as '%s' with id %llx", s.c_str(), (unsigned long long)id, r.s.c_str(), (unsigned long long)r.id);
                x.order.push_back(id);
                if (dyn) x.dyn[s] = id; else x.sta[p] = id;
            }
            else
            {
                repeats++;
                PBT_CHECK(id == (dyn ? x.dyn[s] : x.sta[p]), "id-changed", "label '%s' got id %llx, before %llx", s.c_str(), (unsigned long long)id, (unsigned long long)(dyn ? x.dyn[s] : x.sta[p]));
                PBT_CHECK(x.log.r.size() == before, "announced-again", "known label '%s' was announced again", s.c_str());
            }
            auto r = by_id.insert({id, s});
            PBT_CHECK(r.second || r.first->second == s, "id-shared", "labels '%s' and '%s' share the id %llx", r.first->second.c_str(), s.c_str(), (unsigned long long)id);
        }
        else if (w == 2)
        {
            maps++; c.note(fmt("timeline %zu: push map (%zu labels)", (size_t)(&x - &tls[0]), x.order.size()));
            flush_to(x); size_t before = x.log.r.size();
            ht_feature_cached_string_push_map(x.t); flush_to(x);
            PBT_CHECK(x.log.r.size() - before == x.order.size(), "map-size", "push_map announced %zu labels, %zu were added", x.log.r.size() - before, x.order.size());
            std::map<uint64_t, std::string> seen;
            for (size_t k = before; k < x.log.r.size(); k++)
            {
                auto& r = x.log.r[k]; auto it = by_id.find(r.id);
                PBT_CHECK(r.map && it != by_id.end() && it->second == r.s, "map-wrong", "push_map announced id %llx as '%s'", (unsigned long long)r.id, r.s.c_str());
                PBT_CHECK(seen.insert({r.id, r.s}).second, "map-twice", "push_map announced '%s' twice", r.s.c_str());
            }
            for (uint64_t id : x.order) PBT_CHECK(seen.count(id), "map-missing", "push_map did not announce '%s'", by_id[id].c_str());
        }
        else if (w == 3) { HT_TIMELINE_PUSH_EVENT(x.t, HT_CallstackIntEvent, 1, 1, 5); }
        else flush_to(x);
    }
    for (auto& x : tls) ht_timeline_destroy(x.t);
    ht_deinit();
    if (maps) c.label("map-pushed"); if (bulk) c.label("many-labels");
    c.nontrivial = adds >= 3 && (repeats || maps);
}
pbt::Harness& pbt::harness() { static Harness h{"labels", run, {}, 30, false}; return h; }
#endif
