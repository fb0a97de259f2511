// C05 (component "parser_robust", -DROBUST): damaged and arbitrary streams.  C06 (component "parser_view"): byte order and view.
#include "wire_model.hpp"
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/debug_event_listener.hpp>
#include <sanitizer/allocator_interface.h>
#include <iostream>
#include <sstream>
using namespace wire;
using pbt::Case; using pbt::fail;

struct Read { std::vector<std::string> mismatches; size_t delivered = 0; };

static void read_all(Case& c, const Stream& st, const std::string& bytes, bool flat, size_t expect_exact, bool exact, bool via_file, const char* what)
{
    hp::KlassRegister reg;
    std::unique_ptr<hp::Stream> src;
    std::string path;
    if (via_file)
    {
        path = fmt("%s/stream.%d", pbt::g_scratch, (int)getpid());
        FILE* f = fopen(path.c_str(), "wb"); if (!f) pbt::broken("cannot write scratch file");
        fwrite(bytes.data(), 1, bytes.size(), f); fclose(f);
        src.reset(new hp::FileStream(path));
    }
    else src.reset(new MemStream(bytes));
    size_t n = 0; std::string bad; size_t badn = 0;
    {
        hp::ProtocolReader rd(&reg, std::move(src), flat);
        rd.register_events_listener([&](const hp::Event& e) {
            if (n < expect_exact && bad.empty())
            {
                std::string r = cmp(st, st.items[n], e, flat);
                if (!r.empty()) { bad = r; badn = n; }
            }
            n++;
        });
        if (!rd.start()) { if (via_file) unlink(path.c_str()); fail("start-failed", "reader did not start"); }
        rd.wait_for_complete();
        PBT_CHECK(rd.eos(), "not-eos", "%s: reader completed but does not report the end", what);
    }
    if (via_file) unlink(path.c_str());
    PBT_CHECK(bad.empty(), "event-differs", "%s (%s view): event %zu of %zu: %s", what, flat ? "flat" : "tree", badn, st.items.size(), bad.c_str());
    PBT_CHECK(n >= expect_exact, "events-missing", "%s (%s view): %zu events delivered, %zu complete ones precede the damage", what, flat ? "flat" : "tree", n, expect_exact);
    if (exact) PBT_CHECK(n == expect_exact, "extra-events", "%s (%s view): %zu events delivered, expected %zu", what, flat ? "flat" : "tree", n, expect_exact);
    (void)c;
}

#ifdef ROBUST
static size_t complete_before(const Stream& st, size_t off) { size_t n = 0; while (n < st.items.size() && st.items[n].end <= off) n++; return n; }

// structured damage: an extra, ill-formed piece of metadata or an instance nobody described
static std::string nasty(Tape& t, Stream& st)
{
    Writer w; w.big = st.big; Stream dummy; dummy.big = st.big; dummy.klasses = st.klasses;
    auto some_id = [&]() -> uint32_t { return t.coin() ? st.klasses[t.draw(st.klasses.size() - 1)].id : (uint32_t)t.pick<uint64_t>({0, 1, 2, 3, 4, 77, 1000, UINT32_MAX, UINT32_MAX - 1}); };
    auto some_name = [&]() -> std::string { return t.coin() ? st.klasses[t.draw(st.klasses.size() - 1)].name : std::string(t.pick<const char*>({"HT_Event", "HT_EventKlassInfoEvent", "nobody", "", "HT_EndiannessInfoEvent"})); };
    auto some_field = [&]() -> std::string { return t.pick<const char*>({"base", "x", "timestamp", "id", "klass_id", "", "endianness", "info_klass_id", "yy"}); };
    size_t n = 1 + t.draw(6);
    for (size_t i = 0; i < n; i++)
        switch (t.weighted({3, 3, 3, 2, 2}))
        {
        case 0: w.head(some_id(), t.draw(9), t.draw(9)); break;                                     // instance (possibly of an unknown class)
        case 1: emit_info(dummy, w, some_id(), some_name(), (unsigned)t.draw(255), 1, 1); break;
        case 2: emit_field(dummy, w, some_id(), some_name(), some_field(), t.pick<uint64_t>({0, 1, 2, 3, 4, 8, 16, UINT64_MAX}), (unsigned)t.pick<uint64_t>({1, 2, 3, 4, 5, 6, 99, 0, 7, 100, 255}), 1, 1); break;
        case 3: // classes that contain themselves or each other
        {
            uint32_t a = 9000 + (uint32_t)t.draw(3), b = 9000 + (uint32_t)t.draw(3);
            emit_info(dummy, w, a, fmt("R%u", a), 2, 1, 1); emit_info(dummy, w, b, fmt("R%u", b), 2, 1, 1);
            emit_field(dummy, w, a, fmt("R%u", b), "sub", 8, DT_STRUCT, 1, 1);
            if (t.coin()) emit_field(dummy, w, a, "uint8_t", "z", 1, DT_UINT, 1, 1);
            emit_field(dummy, w, b, fmt("R%u", a), t.coin() ? "base" : "sub2", 8, DT_STRUCT, 1, 1);
            w.head(t.coin() ? a : b, 1, 1);
            if (t.coin()) for (int z = 0; z < 40; z++) w.i(t.draw(255), 1);
            break;
        }
        default: { size_t m = t.draw(40); for (size_t z = 0; z < m; z++) w.i(t.draw(255), 1); }
        }
    return w.o;
}

static void run(Case& c)
{
    auto& t = c.t;
    bool big = t.chance(1, 4);
    Stream st = gen_stream(t, big, 6, 14);
    std::string b = st.bytes; size_t damage = b.size(); bool exact = false; std::string what;
    switch (t.weighted({4, 4, 3, 3, 2, 1}))
    {
    case 0: damage = t.draw(b.size()); b.resize(damage); exact = true; what = fmt("truncated at %zu of %zu", damage, st.bytes.size()); break;
    case 1:
    {
        size_t n = 1 + t.draw(3); what = "bytes changed at";
        for (size_t i = 0; i < n; i++) { size_t p = t.draw(b.size() - 1); unsigned char o = (unsigned char)b[p]; b[p] = (char)t.draw(255); if ((unsigned char)b[p] == o) b[p] = (char)(o ^ (1u << t.draw(7))); damage = std::min(damage, p); what += fmt(" %zu", p); }
        break;
    }
    case 2: // structured damage at an item boundary
    {
        size_t k = t.draw(st.items.size()); damage = k < st.items.size() ? st.items[k].begin : b.size();
        std::string x = nasty(t, st); b.insert(damage, x); what = fmt("%zu bytes of odd metadata inserted at %zu", x.size(), damage); break;
    }
    case 3: // splice: delete / duplicate / move a range
    {
        size_t p = t.draw(b.size() - 1), n = 1 + t.draw(std::min<size_t>(60, b.size() - p - 1)), q = t.draw(b.size() - n);
        std::string x = b.substr(p, n);
        if (t.coin()) { b.erase(p, n); damage = p; what = fmt("%zu bytes removed at %zu", n, p); }
        else { b.insert(q, x); damage = q; what = fmt("%zu bytes duplicated at %zu", n, q); }
        break;
    }
    case 4: // drop or swap whole items (class descriptions missing or late)
    {
        size_t k = t.draw(st.items.size() - 1); damage = st.items[k].begin;
        std::string x = b.substr(st.items[k].begin, st.items[k].end - st.items[k].begin);
        b.erase(st.items[k].begin, x.size());
        if (t.coin()) b += x;
        what = fmt("item %zu dropped or moved to the end", k); break;
    }
    default: { size_t n = t.draw(400); b.clear(); for (size_t i = 0; i < n; i++) b += (char)(t.chance(1, 3) ? t.draw(255) : t.draw(4)); damage = 0; what = fmt("%zu arbitrary bytes", n); }
    }
    size_t before = complete_before(st, damage);
    bool flat = t.coin(), file = t.chance(1, 4);
    c.note(fmt("%s byte order, %zu classes, %zu items, %zu bytes; %s; %zu items complete before", big ? "big" : "little", st.klasses.size(), st.items.size(), st.bytes.size(), what.c_str(), before));
    c.label(what.substr(0, what.find_first_of("0123456789")));
    // twice: the second run must not keep more memory than the first
    read_all(c, st, b, flat, before, exact, file, what.c_str());
    size_t m1 = __sanitizer_get_current_allocated_bytes();
    read_all(c, st, b, flat, before, exact, file, what.c_str());
    size_t m2 = __sanitizer_get_current_allocated_bytes();
    read_all(c, st, b, flat, before, exact, file, what.c_str());
    size_t m3 = __sanitizer_get_current_allocated_bytes();
    PBT_CHECK(!(m2 > m1 && m3 > m2), "leak", "%s: reading this stream leaves %zu bytes allocated each time", what.c_str(), m3 - m2);
    c.nontrivial = before >= 2 && damage < st.bytes.size();
}
pbt::Harness& pbt::harness() { static Harness h{"parser_robust", run, {}, 30, false}; return h; }
#else
// ---- what the debug listener prints: every field of every event, with its value ----
static std::string show(const Field& f, const Val& v)
{
    if (f.kind == STR) return v.s;
    uint64_t u = mask(v.u, f.size);
    if (f.kind == UINT) return fmt("%llu", (unsigned long long)u);
    unsigned sh = 64 - 8 * f.size;
    return fmt("%lld", (long long)((int64_t)(u << sh) >> sh));
}
typedef std::multiset<std::string> Lines;
static void lines(const std::string& s, Lines& o) { size_t p = 0; while (p <= s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); o.insert(s.substr(p, e - p)); p = e + 1; } }
static void head_lines(std::string& o, const std::string& in, uint32_t kid, uint64_t ts, uint64_t id) { o += fmt("%suint32_t klass_id: %u\n%suint64_t timestamp: %llu\n%suint64_t id: %llu\n", in.c_str(), kid, in.c_str(), (unsigned long long)ts, in.c_str(), (unsigned long long)id); }
static std::string printed(const Stream& st, const Item& it, bool flat)
{
    std::string o = "\n", in = "  ";
    auto num = [&](const char* ty, const char* n, uint64_t v) { o += in + ty + " " + n + fmt(": %llu\n", (unsigned long long)v); };
    auto str = [&](const char* n, const std::string& v) { o += in + "const char* " + n + ": " + v + "\n"; };
    switch (it.type)
    {
    case Item::BASE: o += "HT_Event\n"; head_lines(o, in, ID_EVENT, it.ts, it.id); return o;
    case Item::ENDIAN: o += "HT_EndiannessInfoEvent\n"; num("uint8_t", "endianness", it.b); break;
    case Item::INFO: o += "HT_EventKlassInfoEvent\n"; num("uint32_t", "info_klass_id", it.a); str("event_klass_name", it.s1); num("uint8_t", "field_count", it.b); break;
    case Item::FIELD: o += "HT_EventKlassFieldInfoEvent\n"; num("uint32_t", "info_klass_id", it.a); str("field_type", it.s1); str("field_name", it.s2); num("uint64_t", "size", it.n); num("uint8_t", "data_type", it.b); break;
    default:
    {
        auto ch = chain(st.klasses, it.ev.k);
        o += st.klasses[(size_t)it.ev.k].name + "\n";
        for (size_t l = ch.size(); l-- > 0;)
        {
            const Klass& k = st.klasses[(size_t)ch[l]];
            for (size_t i = 0; i < k.own.size(); i++) o += in + k.own[i].tname + " " + k.own[i].name + ": " + show(k.own[i], it.ev.levels[l][i]) + "\n";
            if (!flat) { o += in + (l ? st.klasses[(size_t)ch[l - 1]].name : std::string("HT_Event")) + " base: \n"; in += "  "; }
        }
        head_lines(o, in, it.a, it.ts, it.id); return o;
    }
    }
    if (flat) head_lines(o, in, it.type == Item::ENDIAN ? ID_ENDIAN : it.type == Item::INFO ? ID_INFO : ID_FIELD, it.type == Item::ENDIAN ? 0 : it.ts, it.type == Item::ENDIAN ? 0 : it.id);
    return o;
}
static void print_all(const Stream& st, bool flat)
{
    hp::KlassRegister reg; hp::DebugEventListener dbg; std::ostringstream out; size_t n = 0; std::string bad;
    std::streambuf* old = std::cout.rdbuf(out.rdbuf());
    std::map<std::string, size_t> stats;
    {
        hp::ProtocolReader rd(&reg, std::unique_ptr<hp::Stream>(new MemStream(st.bytes)), flat);
        rd.register_events_listener([&](const hp::Event& e) {
            out.str(""); dbg(e);
            if (n < st.items.size() && bad.empty())
            {
                Lines got, want; lines(out.str(), got); lines(printed(st, st.items[n], flat), want);
                if (got != want) for (auto& l : want) if (got.count(l) != want.count(l)) { bad = fmt("event %zu (%s view): expected %zu lines '%s' but %zu are printed:", n, flat ? "flat" : "tree", want.count(l), l.c_str(), got.count(l)) + out.str(); break; }
                if (got != want && bad.empty()) bad = fmt("event %zu: more lines than fields are printed:", n) + out.str();
            }
            stats[e.get_klass()->get_name()]++; n++;
        });
        rd.start(); rd.wait_for_complete();
    }
    std::string so;
    { std::ostringstream o2; std::cout.rdbuf(o2.rdbuf()); dbg.print_statistics(); so = o2.str(); }
    std::cout.rdbuf(old);
    PBT_CHECK(bad.empty(), "debug-print", "%s", bad.c_str());
    std::string e = "Statistics: \n"; for (auto& s : stats) e += "  " + s.first + fmt(": %zu\n", s.second);
    e += fmt("Total number of events: %zu\n", n);
    Lines got, want; lines(so, got); lines(e, want);
    PBT_CHECK(got == want, "debug-statistics", "statistics are\n%sexpected\n%s", so.c_str(), e.c_str());
}

static void run(Case& c)
{
    auto& t = c.t;
    bool flat = t.coin();
    Stream st = gen_stream(t, false, 8, 30);
    // the same content in the opposite byte order
    Stream bg; bg.big = true; bg.klasses = st.klasses; Writer w; w.big = true;
    for (auto& it : st.items)
        switch (it.type)
        {
        case Item::ENDIAN: emit_endian(bg, w); break;
        case Item::INFO: emit_info(bg, w, it.a, it.s1, it.b, it.ts, it.id); break;
        case Item::FIELD: emit_field(bg, w, it.a, it.s1, it.s2, it.n, it.b, it.ts, it.id); break;
        default: emit_event(bg, w, it.ev);
        }
    bg.bytes = w.o;
    bool file = t.chance(1, 3);
    c.note(fmt("%zu classes, %zu items, %zu bytes, %s", st.klasses.size(), st.items.size(), st.bytes.size(), file ? "file" : "memory"));
    for (auto& k : st.klasses) c.note(fmt("class %s id=%u base=%d fields=%zu", k.name.c_str(), k.id, k.base, k.own.size()));
    read_all(c, st, st.bytes, flat, st.items.size(), true, file, "little endian");
    read_all(c, bg, bg.bytes, flat, bg.items.size(), true, file, "big endian");
    read_all(c, st, st.bytes, !flat, st.items.size(), true, false, "little endian");
    read_all(c, bg, bg.bytes, !flat, bg.items.size(), true, false, "big endian");
    if (t.chance(1, 3)) { print_all(t.coin() ? st : bg, flat); c.label("printed"); }
    size_t inst = 0, derived = 0;
    for (auto& it : st.items) if (it.type == Item::INSTANCE) { inst++; derived += st.klasses[(size_t)it.ev.k].base >= 0; }
    if (derived) c.label("derived-classes");
    c.nontrivial = inst >= 2;
}
pbt::Harness& pbt::harness() { static Harness h{"parser_view", run, {}, 30, false}; return h; }
#endif
