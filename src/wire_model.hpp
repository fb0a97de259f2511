// Synthetic HTDUMP streams: arbitrary class definitions and instances, written by an independent encoder in either
// byte order (docs/design/htdump_format.md), plus the expected view of each event.
#ifndef VERIF_WIRE_MODEL_HPP
#define VERIF_WIRE_MODEL_HPP
#include "pbt.hpp"
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <set>

namespace wire {
using pbt::Tape; using pbt::fmt;
namespace hp = HawkTracer::parser;

enum Kind { INT, UINT, STR };
struct Field { std::string name, tname; Kind kind; unsigned size; };
struct Klass { uint32_t id; std::string name; int base = -1; std::vector<Field> own; };
struct Val { uint64_t u = 0; std::string s; };
struct Ev { int k = -1; uint32_t klass_id = 0; uint64_t ts = 0, id = 0; std::vector<std::vector<Val>> levels; };  // levels[0]: most basic class

// metadata class ids are fixed by the format
enum { ID_ENDIAN = 0, ID_EVENT = 1, ID_INFO = 2, ID_FIELD = 3 };
enum { DT_STRUCT = 1, DT_STRING = 2, DT_INT = 3, DT_FLOAT = 4, DT_DOUBLE = 5, DT_POINTER = 6, DT_UINT = 99 };

struct Writer
{
    bool big = false; std::string o;
    void i(uint64_t v, unsigned n) { for (unsigned k = 0; k < n; k++) o += (char)(v >> (8 * (big ? n - 1 - k : k))); }
    void s(const std::string& x) { o += x; o += '\0'; }
    void head(uint32_t id, uint64_t ts, uint64_t eid) { i(id, 4); i(ts, 8); i(eid, 8); }
};

// One item of a stream: a metadata event or an instance; [begin, end) in the byte string.
struct Item
{
    enum T { ENDIAN, INFO, FIELD, INSTANCE, BASE } type; size_t begin = 0, end = 0;
    uint32_t a = 0; std::string s1, s2; uint64_t n = 0; unsigned b = 0; Ev ev; uint64_t ts = 0, id = 0;
};
struct Stream { bool big = false; std::string bytes; std::vector<Item> items; std::vector<Klass> klasses; };

inline std::vector<int> chain(const std::vector<Klass>& ks, int k) { std::vector<int> v; for (; k >= 0; k = ks[(size_t)k].base) v.insert(v.begin(), k); return v; }

inline std::string gen_ident(Tape& t)
{
    std::string s(1, (char)('a' + t.draw(25)));
    size_t n = t.weighted({6, 1}) == 0 ? t.draw(10) : t.draw(80);
    if (n > 12) { uint64_t x = t.draw(1000); for (size_t i = 0; i < n; i++) s += (char)('a' + (x * 31 + i * 7) % 26); return s; }
    for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789"[t.draw(42)];
    return s;
}
inline std::string gen_text(Tape& t, size_t maxlen = 300)
{
    size_t n;
    switch (t.weighted({5, 3, 2, 1}))
    {
    case 0: n = t.draw(8); break;
    case 1: n = t.draw(40); break;
    case 2: { size_t b[] = {30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}; n = b[t.draw(12)]; break; }
    default: n = t.draw(maxlen); break;
    }
    n = std::min(n, maxlen);
    std::string s; unsigned style = (unsigned)t.weighted({4, 2, 3});
    if (n > 20) { uint64_t x = t.draw(255); for (size_t i = 0; i < n; i++) s += (char)(style == 0 ? 'a' + (x + i) % 26 : style == 1 ? 0x20 + (x * 7 + i) % 95 : 1 + (x + i * 31) % 255); return s; }
    for (size_t i = 0; i < n; i++) s += (char)(style == 0 ? 'a' + t.draw(25) : style == 1 ? 0x20 + t.draw(94) : 1 + t.draw(254));
    return s;
}
inline uint64_t mask(uint64_t v, unsigned n) { return n >= 8 ? v : v & ((1ULL << (8 * n)) - 1); }

inline void emit_endian(Stream& st, Writer& w)
{
    Item it; it.type = Item::ENDIAN; it.begin = w.o.size(); it.b = st.big;
    w.head(ID_ENDIAN, 0, 0); w.i(st.big ? 1 : 0, 1); it.end = w.o.size(); st.items.push_back(it);
}
inline void emit_info(Stream& st, Writer& w, uint32_t id, const std::string& name, unsigned nfields, uint64_t ts, uint64_t eid)
{
    Item it; it.type = Item::INFO; it.begin = w.o.size(); it.a = id; it.s1 = name; it.b = nfields; it.ts = ts; it.id = eid;
    w.head(ID_INFO, ts, eid); w.i(id, 4); w.s(name); w.i(nfields, 1); it.end = w.o.size(); st.items.push_back(it);
}
inline void emit_field(Stream& st, Writer& w, uint32_t id, const std::string& tname, const std::string& name, uint64_t size, unsigned dt, uint64_t ts, uint64_t eid)
{
    Item it; it.type = Item::FIELD; it.begin = w.o.size(); it.a = id; it.s1 = tname; it.s2 = name; it.n = size; it.b = dt; it.ts = ts; it.id = eid;
    w.head(ID_FIELD, ts, eid); w.i(id, 4); w.s(tname); w.s(name); w.i(size, 8); w.i(dt, 1); it.end = w.o.size(); st.items.push_back(it);
}
inline void emit_klass(Stream& st, Writer& w, const Klass& k, Tape& t)
{
    uint64_t ts = t.draw(1000), id = t.draw(1000);
    emit_info(st, w, k.id, k.name, (unsigned)k.own.size() + 1, ts, id);
    emit_field(st, w, k.id, k.base < 0 ? "HT_Event" : st.klasses[(size_t)k.base].name, "base", 24 + t.draw(100), DT_STRUCT, ts, id + 1);
    for (auto& f : k.own) emit_field(st, w, k.id, f.tname, f.name, f.kind == STR ? 8 : f.size, f.kind == STR ? DT_STRING : f.kind == INT ? DT_INT : DT_UINT, ts, id + 2);
}
inline void emit_event(Stream& st, Writer& w, const Ev& e)
{
    Item it; it.type = e.k < 0 ? Item::BASE : Item::INSTANCE; it.begin = w.o.size(); it.ev = e; it.ts = e.ts; it.id = e.id; it.a = e.klass_id;
    w.head(e.klass_id, e.ts, e.id);
    if (e.k >= 0)
    {
        auto ch = chain(st.klasses, e.k);
        for (size_t l = 0; l < ch.size(); l++)
            for (size_t i = 0; i < st.klasses[(size_t)ch[l]].own.size(); i++)
            {
                auto& f = st.klasses[(size_t)ch[l]].own[i];
                if (f.kind == STR) w.s(e.levels[l][i].s); else w.i(e.levels[l][i].u, f.size);
            }
    }
    it.end = w.o.size(); st.items.push_back(it);
}
inline Ev gen_ev(Tape& t, const Stream& st, int k)
{
    Ev e; e.k = k; e.ts = t.u64any(); e.id = t.u64any(); e.klass_id = k < 0 ? (uint32_t)ID_EVENT : st.klasses[(size_t)k].id;
    if (k >= 0)
        for (int l : chain(st.klasses, k))
        {
            std::vector<Val> vs;
            for (auto& f : st.klasses[(size_t)l].own) { Val v; if (f.kind == STR) v.s = gen_text(t); else v.u = mask(t.u64any(), f.size); vs.push_back(v); }
            e.levels.push_back(vs);
        }
    return e;
}
// classes have pairwise distinct names and field names that are unique along the inheritance chain
inline std::vector<Klass> gen_klasses(Tape& t, size_t maxk)
{
    std::vector<Klass> ks; std::set<std::string> names = {"HT_Event", "HT_EndiannessInfoEvent", "HT_EventKlassInfoEvent", "HT_EventKlassFieldInfoEvent"}; std::set<uint32_t> ids = {0, 1, 2, 3, UINT32_MAX};
    size_t n = 1 + t.draw(maxk - 1);
    for (size_t i = 0; i < n; i++)
    {
        Klass k;
        k.id = t.chance(1, 5) ? (uint32_t)t.u64any() : 4 + (uint32_t)i;
        while (ids.count(k.id)) k.id++;
        ids.insert(k.id);
        do k.name = gen_ident(t) + (names.count("x") ? "" : ""); while (0);
        while (names.count(k.name)) k.name += fmt("%zu", i);
        names.insert(k.name);
        if (!ks.empty() && t.chance(1, 2)) k.base = (int)t.draw(ks.size() - 1);
        std::set<std::string> fn = {"base", "timestamp", "id", "klass_id"};
        for (int b : chain(ks, k.base)) for (auto& f : ks[(size_t)b].own) fn.insert(f.name);
        size_t nf = 1 + t.draw(5);
        for (size_t j = 0; j < nf; j++)
        {
            Field f; f.name = gen_ident(t); while (fn.count(f.name)) f.name += fmt("_%zu", j); fn.insert(f.name);
            f.kind = (Kind)t.weighted({2, 3, 2}); f.size = 1u << t.draw(3);
            if (f.kind == STR) { f.size = 8; f.tname = "const char*"; } else f.tname = fmt("%sint%u_t", f.kind == UINT ? "u" : "", f.size * 8);
            if (t.chance(1, 6)) f.tname = gen_ident(t);
            k.own.push_back(f);
        }
        ks.push_back(k);
    }
    return ks;
}
// A well-formed stream. Class descriptions come before instances, interleaved with instances of classes already described.
inline Stream gen_stream(Tape& t, bool big, size_t maxk, size_t maxev)
{
    Stream st; st.big = big; st.klasses = gen_klasses(t, maxk);
    Writer w; w.big = big;
    emit_endian(st, w);
    bool meta = t.coin();       // also describe the well-known classes, as the library does
    if (meta)
    {
        emit_info(st, w, ID_ENDIAN, "HT_EndiannessInfoEvent", 2, 1, 1);
        emit_field(st, w, ID_ENDIAN, "HT_Event", "base", 24, DT_STRUCT, 1, 1); emit_field(st, w, ID_ENDIAN, "uint8_t", "endianness", 1, DT_UINT, 1, 1);
        emit_info(st, w, ID_EVENT, "HT_Event", 3, 1, 1);
        emit_field(st, w, ID_EVENT, "HT_EventKlass*", "klass", 8, DT_POINTER, 1, 1);
    }
    size_t described = 0, evs = t.count(maxev);
    bool up_front = t.coin();
    if (up_front) for (; described < st.klasses.size(); described++) emit_klass(st, w, st.klasses[described], t);
    for (size_t i = 0; i < evs; i++)
    {
        if (!described || (described < st.klasses.size() && t.chance(1, 3))) { emit_klass(st, w, st.klasses[described], t); described++; }
        int k = t.chance(1, 10) ? -1 : (int)t.draw(described - 1);
        emit_event(st, w, gen_ev(t, st, k));
    }
    st.bytes = w.o;
    return st;
}

// ---- expected view --------------------------------------------------------------------------------------------
inline hp::FieldTypeId tid(const Field& f)
{
    if (f.kind == STR) return hp::FieldTypeId::STRING;
    switch (f.size) { case 1: return f.kind == UINT ? hp::FieldTypeId::UINT8 : hp::FieldTypeId::INT8; case 2: return f.kind == UINT ? hp::FieldTypeId::UINT16 : hp::FieldTypeId::INT16;
                      case 4: return f.kind == UINT ? hp::FieldTypeId::UINT32 : hp::FieldTypeId::INT32; default: return f.kind == UINT ? hp::FieldTypeId::UINT64 : hp::FieldTypeId::INT64; }
}
inline std::string cmp_int(const hp::Event& e, const std::string& name, hp::FieldTypeId want, uint64_t u)
{
    if (!e.has_value(name)) return "field '" + name + "' is missing";
    auto& rv = e.get_raw_value(name);
    if (!rv.field || rv.field->get_type_id() != want) return fmt("field '%s' has type id %d, expected %d", name.c_str(), rv.field ? (int)rv.field->get_type_id() : -1, (int)want);
    uint64_t g = 0; unsigned n = 8;
    switch (want)
    {
    case hp::FieldTypeId::UINT8: g = e.get_value<uint8_t>(name); n = 1; break;   case hp::FieldTypeId::INT8: g = (uint64_t)e.get_value<int8_t>(name); n = 1; break;
    case hp::FieldTypeId::UINT16: g = e.get_value<uint16_t>(name); n = 2; break; case hp::FieldTypeId::INT16: g = (uint64_t)e.get_value<int16_t>(name); n = 2; break;
    case hp::FieldTypeId::UINT32: g = e.get_value<uint32_t>(name); n = 4; break; case hp::FieldTypeId::INT32: g = (uint64_t)e.get_value<int32_t>(name); n = 4; break;
    case hp::FieldTypeId::UINT64: g = e.get_value<uint64_t>(name); break;        default: g = (uint64_t)e.get_value<int64_t>(name); break;
    }
    if (n == 4 && want == hp::FieldTypeId::UINT32 && e.get_value_or_default<uint32_t>(name, (uint32_t)~u) != (uint32_t)g) return "field '" + name + "' is there, but get_value_or_default() doesn't return it";
    if (n == 8 && want == hp::FieldTypeId::UINT64 && e.get_value_or_default<uint64_t>(name, ~u) != g) return "field '" + name + "' is there, but get_value_or_default() doesn't return it";
    if (e.has_value(name + "?") || e.get_value_or_default<uint64_t>(name + "?", u ^ 5) != (u ^ 5)) return "field '" + name + "?' isn't there, but get_value_or_default() doesn't return the default";
    if (mask(g, n) != mask(u, n)) return fmt("field '%s' is %llx, expected %llx", name.c_str(), (unsigned long long)mask(g, n), (unsigned long long)mask(u, n));
    return "";
}
inline std::string cmp_str(const hp::Event& e, const std::string& name, const std::string& s)
{
    if (!e.has_value(name)) return "field '" + name + "' is missing";
    auto& rv = e.get_raw_value(name);
    if (!rv.field || rv.field->get_type_id() != hp::FieldTypeId::STRING) return "field '" + name + "' is not a string";
    const char* g = e.get_value<char*>(name);
    if (!g || s != g) return fmt("string field '%s' differs (%zu bytes, expected %zu)", name.c_str(), g ? strlen(g) : 0, s.size());
    return "";
}
inline std::string cmp_head(const hp::Event& e, uint32_t kid, uint64_t ts, uint64_t id)
{
    std::string r = cmp_int(e, "klass_id", hp::FieldTypeId::UINT32, kid);
    if (r.empty()) r = cmp_int(e, "timestamp", hp::FieldTypeId::UINT64, ts);
    if (r.empty()) r = cmp_int(e, "id", hp::FieldTypeId::UINT64, id);
    return r;
}
inline std::string cmp_level(const hp::Event& e, const Klass& k, const std::vector<Val>& v)
{
    std::string r;
    for (size_t i = 0; i < k.own.size() && r.empty(); i++)
    {
        auto& f = k.own[i];
        r = f.kind == STR ? cmp_str(e, f.name, v[i].s) : cmp_int(e, f.name, tid(f), v[i].u);
        if (r.empty() && e.get_raw_value(f.name).field->get_type_name() != f.tname) r = "field '" + f.name + "' has type name '" + e.get_raw_value(f.name).field->get_type_name() + "', expected '" + f.tname + "'";
    }
    return r;
}
// compares a delivered event with the item it should be; empty string: equal
inline std::string cmp(const Stream& st, const Item& it, const hp::Event& e, bool flat)
{
    if (!e.get_klass()) return "event without class";
    std::string r;
    if (it.type == Item::ENDIAN)
    {
        if (e.get_klass()->get_id() != ID_ENDIAN) return fmt("class id %u, expected the byte order event", e.get_klass()->get_id());
        return cmp_int(e, "endianness", hp::FieldTypeId::UINT8, it.b);
    }
    if (it.type == Item::INFO)
    {
        if (e.get_klass()->get_id() != ID_INFO) return fmt("class id %u, expected a class description", e.get_klass()->get_id());
        r = cmp_int(e, "info_klass_id", hp::FieldTypeId::UINT32, it.a);
        if (r.empty()) r = cmp_str(e, "event_klass_name", it.s1);
        if (r.empty()) r = cmp_int(e, "field_count", hp::FieldTypeId::UINT8, it.b);
        return r;
    }
    if (it.type == Item::FIELD)
    {
        if (e.get_klass()->get_id() != ID_FIELD) return fmt("class id %u, expected a field description", e.get_klass()->get_id());
        r = cmp_int(e, "info_klass_id", hp::FieldTypeId::UINT32, it.a);
        if (r.empty()) r = cmp_str(e, "field_type", it.s1);
        if (r.empty()) r = cmp_str(e, "field_name", it.s2);
        if (r.empty()) r = cmp_int(e, "size", hp::FieldTypeId::UINT64, it.n);
        if (r.empty()) r = cmp_int(e, "data_type", hp::FieldTypeId::UINT8, it.b);
        return r;
    }
    if (e.get_klass()->get_id() != it.a) return fmt("class id %u, expected %u", e.get_klass()->get_id(), it.a);
    if (it.type == Item::BASE) { r = cmp_head(e, ID_EVENT, it.ts, it.id); if (r.empty() && e.get_timestamp() != it.ts) r = "get_timestamp() differs"; return r; }
    auto ch = chain(st.klasses, it.ev.k);
    if (e.get_klass()->get_name() != st.klasses[(size_t)it.ev.k].name) return "class name '" + e.get_klass()->get_name() + "', expected '" + st.klasses[(size_t)it.ev.k].name + "'";
    if (flat)
    {
        r = cmp_head(e, it.a, it.ts, it.id);
        if (r.empty() && e.get_timestamp() != it.ts) r = "get_timestamp() differs";
        size_t n = 3;
        for (size_t l = 0; l < ch.size() && r.empty(); l++) { r = cmp_level(e, st.klasses[(size_t)ch[l]], it.ev.levels[l]); n += st.klasses[(size_t)ch[l]].own.size(); }
        if (r.empty() && e.get_values().size() != n) r = fmt("flat event has %zu values, expected %zu", e.get_values().size(), n);
        return r;
    }
    const hp::Event* cur = &e;
    for (size_t l = ch.size(); l-- > 0;)
    {
        const Klass& k = st.klasses[(size_t)ch[l]];
        if (!cur->get_klass() || cur->get_klass()->get_name() != k.name) return "nested class is not '" + k.name + "'";
        r = cmp_level(*cur, k, it.ev.levels[l]); if (!r.empty()) return r;
        if (cur->get_values().size() != k.own.size() + 1) return fmt("tree event level '%s' has %zu values, expected %zu", k.name.c_str(), cur->get_values().size(), k.own.size() + 1);
        if (!cur->has_value("base") || cur->get_raw_value("base").field->get_type_id() != hp::FieldTypeId::STRUCT) return "tree event without base";
        cur = cur->get_value<hp::Event*>("base");
        if (!cur) return "tree event with null base";
    }
    r = cmp_head(*cur, it.a, it.ts, it.id);
    if (r.empty() && cur->get_timestamp() != it.ts) r = "get_timestamp() of the base event differs";
    return r;
}

// in-memory source; all-or-nothing block reads
class MemStream : public hp::Stream
{
public:
    MemStream(std::string b) : _b(std::move(b)) {}
    int read_byte() override { return _p < _b.size() ? (unsigned char)_b[_p++] : -1; }
    bool read_data(char* buf, size_t n) override
    {
        size_t m = std::min(n, _b.size() - _p); memcpy(buf, _b.data() + _p, m); _p += m; return m == n;
    }
    bool is_continuous() override { return false; }
private:
    std::string _b; size_t _p = 0;
};

} // namespace wire
#endif
