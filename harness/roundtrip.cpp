// C03: what is pushed to timelines with a file dump listener is what the parser library reads back from the file.
#include "events_model.hpp"
#include "wire_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/parser/file_stream.hpp>
using namespace model;
using pbt::Case; using pbt::fail;
namespace hp = HawkTracer::parser;

static hp::FieldTypeId tid(const Field& f)
{
    wire::Field w; w.kind = f.kind == STR ? wire::STR : f.kind == UINT ? wire::UINT : wire::INT; w.size = (unsigned)f.size;
    return wire::tid(w);
}
static std::string cmp_own(const hp::Event& e, const Klass& k, const Ev& x, size_t at)
{
    std::string r;
    for (size_t i = 0; i < k.own.size() && r.empty(); i++)
    {
        auto& f = k.own[i];
        r = f.kind == STR ? wire::cmp_str(e, f.name, x.vals[at + i].s) : wire::cmp_int(e, f.name, tid(f), x.vals[at + i].u);
        if (r.empty() && k.name[0] == 'K' && e.get_raw_value(f.name).field->get_type_name() != f.ctype) r = "field '" + f.name + "' has type name '" + e.get_raw_value(f.name).field->get_type_name() + "', declared as '" + f.ctype + "'";
    }
    return r;
}
static std::string cmp_ev(const hp::Event& e, const Ev& x, bool flat)
{
    std::vector<int> ch; for (int k = x.k; k >= 0; k = klasses()[(size_t)k].base) ch.insert(ch.begin(), k);
    const Klass& kl = klasses()[(size_t)x.k];
    uint32_t kid = kl.get()->klass_id;
    if (!e.get_klass() || e.get_klass()->get_name() != kl.name) return "class is '" + (e.get_klass() ? e.get_klass()->get_name() : "") + "', pushed '" + kl.name + "'";
    std::vector<size_t> at; size_t n = 0; for (int k : ch) { at.push_back(n); n += klasses()[(size_t)k].own.size(); }
    if (kl.name == "HT_Event") return wire::cmp_head(e, kid, x.ts, x.id);
    if (flat)
    {
        std::string r = wire::cmp_head(e, kid, x.ts, x.id);
        for (size_t i = 0; i < ch.size() && r.empty(); i++) r = cmp_own(e, klasses()[(size_t)ch[i]], x, at[i]);
        if (r.empty() && e.get_values().size() != n + 3) r = fmt("event has %zu values, expected %zu", e.get_values().size(), n + 3);
        return r;
    }
    const hp::Event* cur = &e;
    for (size_t l = ch.size(); l-- > 0;)
    {
        const Klass& k = klasses()[(size_t)ch[l]];
        if (!cur->get_klass() || cur->get_klass()->get_name() != k.name) return "nested class is not '" + k.name + "'";
        std::string r = cmp_own(*cur, k, x, at[l]); if (!r.empty()) return r;
        if (!cur->has_value("base")) return "no base in '" + k.name + "'";
        cur = cur->get_value<hp::Event*>("base");
        if (!cur) return "null base";
    }
    return wire::cmp_head(*cur, kid, x.ts, x.id);
}

struct TL { HT_Timeline* t; std::vector<Ev> ev; std::deque<Inst> keep; bool ser; size_t next = 0; };

static void scenario(Case& c, bool with_unsupported)
{
    auto& t = c.t;
    ht_init(0, nullptr);
    for (auto& k : klasses()) if (k.parseable || with_unsupported) k.reg();
    std::string path = fmt("%s/dump.%d.htdump", pbt::g_scratch, (int)getpid());
    size_t lbuf; switch (t.weighted({3, 2, 2})) { case 0: lbuf = t.draw(200); break; case 1: lbuf = t.pick<size_t>({0, 1, 2, 20, 64, 1024, 4096, 65536}); break; default: lbuf = t.draw(5000); }
    size_t ntl = 1 + t.draw(2), pushed = 0, total = 0;
    bool shared_group = ntl > 1 && t.coin(), helper = t.coin();
    std::deque<TL> tls;
    HT_ErrorCode err = HT_ERR_OK;
    for (size_t i = 0; i < ntl; i++)
    {
        tls.emplace_back(); auto& x = tls.back();
        x.ser = !t.chance(1, 3);
        size_t cap = t.coin() ? t.draw(300) : t.pick<size_t>({0, 1, 20, 64, 128, 1024, 8192});
        x.t = ht_timeline_create(cap, t.coin(), x.ser, shared_group ? "roundtrip" : nullptr, &err);
        if (!x.t) fail("create-failed", "timeline creation failed");
        c.note(fmt("timeline %zu cap=%zu serialized=%d", i, cap, x.ser));
    }
    HT_FileDumpListener* l;
    if (helper && (shared_group || ntl == 1)) l = ht_file_dump_listener_register(tls[0].t, path.c_str(), lbuf, &err);
    else
    {
        helper = false;
        l = ht_file_dump_listener_create(path.c_str(), lbuf, &err);
        if (l) for (auto& x : tls) { ht_timeline_register_listener(x.t, ht_file_dump_listener_callback, l); if (shared_group) break; }
    }
    PBT_CHECK(l && err == HT_ERR_OK, "listener-failed", "file dump listener could not be created: %d", (int)err);
    c.note(fmt("listener buffer %zu, %zu timelines%s%s", lbuf, ntl, shared_group ? " in one group" : "", helper ? ", owned by the timeline" : ""));
    size_t n = with_unsupported ? 3 : 1 + t.count(80); std::vector<int> kinds; bool small = t.coin();
    for (size_t i = 0; i < n; i++)
    {
        auto& x = tls[t.draw(ntl - 1)];
        if (t.chance(1, 12)) { ht_timeline_flush(x.t); if (t.coin()) ht_file_dump_listener_flush(l, t.coin()); continue; }
        int k = with_unsupported ? I_KU8 : (int)t.draw(I_COUNT - 1);
        if (!klasses()[(size_t)k].parseable && !with_unsupported) k = I_KMix;
        Ev e = gen_event(t, k, small ? 20 : 300);
        e.id = ((uint64_t)(&x == &tls[0] ? 0 : &x == &tls[1] ? 1 : 2) << 40) | x.ev.size();
        x.keep.emplace_back(); fill(x.keep.back(), e);
        c.note(fmt("push %s", e.str().c_str()));
        x.ev.push_back(e);
        ht_timeline_push_event(x.t, x.keep.back().ev());
        if (x.ser) { x.keep.back().scribble(); x.keep.pop_back(); }
        pushed++; total += wire_size(e);
    }
    bool stop_first = t.chance(1, 4);
    if (stop_first) { for (auto& x : tls) ht_timeline_flush(x.t); ht_file_dump_listener_stop(l); }
    for (auto& x : tls) ht_timeline_destroy(x.t);
    if (shared_group) ht_deinit();
    if (!helper) ht_file_dump_listener_destroy(l);
    if (!shared_group) ht_deinit();

    for (int view = 0; view < 2; view++)
    {
        bool flat = view == 0;
        hp::KlassRegister reg; std::string bad; size_t got = 0; bool meta_over = false; std::string late;
        {
            hp::ProtocolReader rd(&reg, std::unique_ptr<hp::Stream>(new hp::FileStream(path)), flat);
            rd.register_events_listener([&](const hp::Event& e) {
                std::string kn = e.get_klass()->get_name();
                bool meta = kn == "HT_EndiannessInfoEvent" || kn == "HT_EventKlassInfoEvent" || kn == "HT_EventKlassFieldInfoEvent" || kn == "HT_SystemInfoEvent";
                if (meta) { if (meta_over && late.empty()) late = kn; return; }
                meta_over = true;
                if (!bad.empty()) return;
                uint64_t id = 0; bool found = false;
                const hp::Event* cur = &e;
                while (cur && !cur->has_value("id") && cur->has_value("base")) cur = cur->get_value<hp::Event*>("base");
                if (cur && cur->has_value("id")) { id = cur->get_value<uint64_t>("id"); found = true; }
                size_t ti = (size_t)(id >> 40), seq = (size_t)(id & 0xffffffffffULL);
                if (!found || ti >= tls.size() || seq >= tls[ti].ev.size()) { bad = fmt("event #%zu (%s, id %llx) was never pushed", got, kn.c_str(), (unsigned long long)id); return; }
                if (seq != tls[ti].next) { bad = fmt("event #%zu is push %zu of timeline %zu, expected push %zu", got, seq, ti, tls[ti].next); return; }
                tls[ti].next++;
                std::string r = cmp_ev(e, tls[ti].ev[seq], flat);
                if (!r.empty()) bad = fmt("event #%zu: pushed %s: %s", got, tls[ti].ev[seq].str().c_str(), r.c_str());
                got++;
            });
            if (!rd.start()) fail("start-failed", "the reader does not accept the file");
            rd.wait_for_complete();
        }
        PBT_CHECK(late.empty(), "metadata-late", "metadata event %s follows pushed events", late.c_str());
        PBT_CHECK(bad.empty(), "read-back-differs", "%s view: %s", flat ? "flat" : "tree", bad.c_str());
        PBT_CHECK(got == pushed, "events-missing", "%s view: %zu events pushed, %zu read back", flat ? "flat" : "tree", pushed, got);
        for (auto& x : tls) x.next = 0;
    }
    unlink(path.c_str());
    if (ntl > 1) c.label("several-timelines");
    for (auto& x : tls) if (!x.ser) { c.label("raw-timeline"); break; }
    c.nontrivial = pushed >= 3 && total > lbuf;
}
static void run(Case& c) { scenario(c, false); }
static void probe_double(Case& c) { scenario(c, true); }
pbt::Harness& pbt::harness() { static Harness h{"roundtrip", run, {{"double-fields", probe_double}}, 30, false}; return h; }
