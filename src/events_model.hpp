// Event classes used by the harnesses, an independent description of them (offsets via offsetof, never via the
// library's own reflection tables), and an independent encoder of the wire format (docs/design/htdump_format.md).
#ifndef VERIF_EVENTS_MODEL_HPP
#define VERIF_EVENTS_MODEL_HPP
#include "pbt.hpp"
#include <deque>
#include <memory>
#include <set>
#include <hawktracer/core_events.h>
#include <hawktracer/timeline.h>
#include <hawktracer/event_macros_impl.h>

HT_DECLARE_EVENT_KLASS(KU8, HT_Event, (INTEGER, uint8_t, a))
HT_DECLARE_EVENT_KLASS(KInts, HT_Event,
    (INTEGER, uint8_t, iu8), (INTEGER, int8_t, ii8), (INTEGER, uint16_t, iu16), (INTEGER, int16_t, ii16),
    (INTEGER, uint32_t, iu32), (INTEGER, int32_t, ii32), (INTEGER, uint64_t, iu64), (INTEGER, int64_t, ii64))
HT_DECLARE_EVENT_KLASS(KStr, HT_Event, (STRING, const char*, text))
HT_DECLARE_EVENT_KLASS(KMix, HT_Event,
    (INTEGER, uint8_t, m1), (STRING, const char*, s1), (INTEGER, int16_t, m2), (STRING, const char*, s2), (INTEGER, uint64_t, m3))
HT_DECLARE_EVENT_KLASS(KDer1, KInts, (INTEGER, int32_t, d1), (STRING, const char*, ds1))
HT_DECLARE_EVENT_KLASS(KDer2, KDer1, (INTEGER, uint16_t, e1), (STRING, const char*, es1), (INTEGER, int64_t, e2))
HT_DECLARE_EVENT_KLASS(KDer3, KDer2, (STRING, const char*, fs1), (INTEGER, uint8_t, f1))
HT_DECLARE_EVENT_KLASS(KDer4, KDer3, (INTEGER, int8_t, g1))
HT_DECLARE_EVENT_KLASS(KCall, HT_CallstackBaseEvent, (STRING, const char*, label), (INTEGER, int32_t, info))
HT_DECLARE_EVENT_KLASS(KCall2, HT_CallstackIntEvent, (INTEGER, uint8_t, extra), (STRING, const char*, comment))
HT_DECLARE_EVENT_KLASS(KWide, HT_Event,
    (INTEGER, uint64_t, w0), (INTEGER, uint8_t, w1), (INTEGER, int64_t, w2), (INTEGER, int16_t, w3),
    (INTEGER, uint32_t, w4), (INTEGER, int8_t, w5), (INTEGER, uint16_t, w6), (INTEGER, int32_t, w7),
    (INTEGER, uint64_t, w8), (INTEGER, uint64_t, w9), (INTEGER, uint64_t, w10), (INTEGER, uint64_t, w11),
    (INTEGER, uint64_t, w12), (INTEGER, uint64_t, w13), (INTEGER, uint64_t, w14), (INTEGER, uint64_t, w15),
    (INTEGER, uint64_t, w16), (INTEGER, uint64_t, w17), (INTEGER, uint64_t, w18), (INTEGER, uint64_t, w19),
    (INTEGER, uint64_t, w20), (INTEGER, uint8_t, w21), (STRING, const char*, w22), (INTEGER, uint8_t, w23))
HT_DECLARE_EVENT_KLASS(KWide2, KWide,
    (INTEGER, uint64_t, x0), (INTEGER, uint8_t, x1), (INTEGER, int64_t, x2), (STRING, const char*, x3),
    (INTEGER, uint32_t, x4), (INTEGER, int8_t, x5), (INTEGER, uint16_t, x6), (INTEGER, int32_t, x7),
    (INTEGER, uint64_t, x8), (INTEGER, uint64_t, x9), (INTEGER, uint64_t, x10), (INTEGER, uint64_t, x11))
// not understood by the parser library (documented as unsupported), but part of the wire format
HT_DECLARE_EVENT_KLASS(KPtrDbl, HT_Event, (POINTER, void*, p1), (DOUBLE, double, db1), (INTEGER, uint8_t, p2), (DOUBLE, double, db2))

namespace model {

using pbt::Tape;
using pbt::fmt;

enum Kind { INT, UINT, STR, RAW };   // RAW: pointer / double, compared as bytes

struct Field { std::string name, ctype; Kind kind; size_t size, off; };
struct Klass
{
    std::string name; HT_EventKlass* (*get)(); HT_EventKlassId (*reg)(); size_t size;
    int base;                        // index into klasses(), -1: HT_Event
    std::string base_name;
    std::vector<Field> own;          // without "base"
    bool parseable;
};

template<typename T> Kind kind_of() { return T(-1) < T(1) ? INT : UINT; }

#define MF_(K, f) Field{#f, model_ctype<decltype(K::f)>(), kind_of<decltype(K::f)>(), sizeof(K::f), offsetof(K, f)}
#define MS_(K, f) Field{#f, "const char*", STR, sizeof(char*), offsetof(K, f)}
#define MR_(K, f, ct) Field{#f, ct, RAW, sizeof(K::f), offsetof(K, f)}
#define MK_(K, base, bname, parse, ...) Klass{#K, ht_##K##_get_event_klass_instance, ht_##K##_register_event_klass, sizeof(K), base, bname, {__VA_ARGS__}, parse}
template<typename T> inline const char* model_ctype();
template<> inline const char* model_ctype<uint8_t>() { return "uint8_t"; }
template<> inline const char* model_ctype<int8_t>() { return "int8_t"; }
template<> inline const char* model_ctype<uint16_t>() { return "uint16_t"; }
template<> inline const char* model_ctype<int16_t>() { return "int16_t"; }
template<> inline const char* model_ctype<uint32_t>() { return "uint32_t"; }
template<> inline const char* model_ctype<int32_t>() { return "int32_t"; }
template<> inline const char* model_ctype<uint64_t>() { return "uint64_t"; }
template<> inline const char* model_ctype<int64_t>() { return "int64_t"; }

#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Winvalid-offsetof"
enum { I_KU8, I_KInts, I_KStr, I_KMix, I_KDer1, I_KDer2, I_KDer3, I_KDer4, I_CSBase, I_CSInt, I_CSStr, I_KCall, I_KCall2, I_KWide, I_KWide2, I_Map, I_KPtrDbl, I_Event, I_COUNT };

inline const std::vector<Klass>& klasses()
{
    static const std::vector<Klass> v = {
        MK_(KU8, -1, "HT_Event", true, MF_(KU8, a)),
        MK_(KInts, -1, "HT_Event", true, MF_(KInts, iu8), MF_(KInts, ii8), MF_(KInts, iu16), MF_(KInts, ii16), MF_(KInts, iu32), MF_(KInts, ii32), MF_(KInts, iu64), MF_(KInts, ii64)),
        MK_(KStr, -1, "HT_Event", true, MS_(KStr, text)),
        MK_(KMix, -1, "HT_Event", true, MF_(KMix, m1), MS_(KMix, s1), MF_(KMix, m2), MS_(KMix, s2), MF_(KMix, m3)),
        MK_(KDer1, I_KInts, "KInts", true, MF_(KDer1, d1), MS_(KDer1, ds1)),
        MK_(KDer2, I_KDer1, "KDer1", true, MF_(KDer2, e1), MS_(KDer2, es1), MF_(KDer2, e2)),
        MK_(KDer3, I_KDer2, "KDer2", true, MS_(KDer3, fs1), MF_(KDer3, f1)),
        MK_(KDer4, I_KDer3, "KDer3", true, MF_(KDer4, g1)),
        MK_(HT_CallstackBaseEvent, -1, "HT_Event", true, MF_(HT_CallstackBaseEvent, duration), MF_(HT_CallstackBaseEvent, thread_id)),
        MK_(HT_CallstackIntEvent, I_CSBase, "HT_CallstackBaseEvent", true, MF_(HT_CallstackIntEvent, label)),
        MK_(HT_CallstackStringEvent, I_CSBase, "HT_CallstackBaseEvent", true, MS_(HT_CallstackStringEvent, label)),
        MK_(KCall, I_CSBase, "HT_CallstackBaseEvent", true, MS_(KCall, label), MF_(KCall, info)),
        MK_(KCall2, I_CSInt, "HT_CallstackIntEvent", true, MF_(KCall2, extra), MS_(KCall2, comment)),
        MK_(KWide, -1, "HT_Event", true, MF_(KWide, w0), MF_(KWide, w1), MF_(KWide, w2), MF_(KWide, w3), MF_(KWide, w4), MF_(KWide, w5), MF_(KWide, w6), MF_(KWide, w7),
            MF_(KWide, w8), MF_(KWide, w9), MF_(KWide, w10), MF_(KWide, w11), MF_(KWide, w12), MF_(KWide, w13), MF_(KWide, w14), MF_(KWide, w15),
            MF_(KWide, w16), MF_(KWide, w17), MF_(KWide, w18), MF_(KWide, w19), MF_(KWide, w20), MF_(KWide, w21), MS_(KWide, w22), MF_(KWide, w23)),
        MK_(KWide2, I_KWide, "KWide", true, MF_(KWide2, x0), MF_(KWide2, x1), MF_(KWide2, x2), MS_(KWide2, x3), MF_(KWide2, x4), MF_(KWide2, x5), MF_(KWide2, x6), MF_(KWide2, x7),
            MF_(KWide2, x8), MF_(KWide2, x9), MF_(KWide2, x10), MF_(KWide2, x11)),
        MK_(HT_StringMappingEvent, -1, "HT_Event", true, MF_(HT_StringMappingEvent, identifier), MS_(HT_StringMappingEvent, label)),
        MK_(KPtrDbl, -1, "HT_Event", false, MR_(KPtrDbl, p1, "void*"), MR_(KPtrDbl, db1, "double"), MF_(KPtrDbl, p2), MR_(KPtrDbl, db2, "double")),
        Klass{"HT_Event", ht_HT_Event_get_event_klass_instance, ht_HT_Event_register_event_klass, sizeof(HT_Event), -1, "", {}, true},
    };
    return v;
}
#pragma clang diagnostic pop

// all non-base fields, outermost base first
inline std::vector<const Field*> all_fields(int k)
{
    std::vector<const Field*> v;
    const Klass& kl = klasses()[(size_t)k];
    if (kl.base >= 0) v = all_fields(kl.base);
    for (auto& f : kl.own) v.push_back(&f);
    return v;
}

struct Val { uint64_t u = 0; std::string s; };

struct Ev
{
    int k = 0;
    uint64_t ts = 0, id = 0;
    std::vector<Val> vals;           // parallel to all_fields(k)
    size_t strings_total() const { size_t n = 0; for (auto& v : vals) n += v.s.size(); return n; }
    std::string str() const
    {
        std::string o = klasses()[(size_t)k].name + fmt("{ts=%llu id=%llu", (unsigned long long)ts, (unsigned long long)id);
        auto f = all_fields(k);
        for (size_t i = 0; i < f.size() && i < 8; i++)
            o += f[i]->kind == STR ? fmt(" %s=str[%zu]", f[i]->name.c_str(), vals[i].s.size()) : fmt(" %s=%llx", f[i]->name.c_str(), (unsigned long long)vals[i].u);
        return o + "}";
    }
};

// printable-ish strings with all byte values but NUL; lengths biased to buffer-doubling boundaries
inline std::string gen_string(Tape& t, size_t maxlen = 300)
{
    size_t n;
    switch (t.weighted({5, 3, 2, 1}))
    {
    case 0: n = t.draw(std::min<size_t>(8, maxlen)); break;
    case 1: n = t.draw(std::min<size_t>(40, maxlen)); break;
    case 2: { size_t b[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}; n = std::min(b[t.draw(11)], maxlen); break; }
    default: n = t.draw(maxlen); break;
    }
    std::string s;
    unsigned style = (unsigned)t.weighted({4, 2, 2});
    if (n > 24)   // long strings: one seed, expanded deterministically
    {
        uint64_t x = t.draw(255);
        for (size_t i = 0; i < n; i++) { unsigned c = style == 0 ? 'a' + (unsigned)((x + i) % 26) : style == 1 ? 0x20 + (unsigned)((x * 7 + i) % 95) : 1 + (unsigned)((x + i * 31) % 255); s += (char)c; }
        return s;
    }
    for (size_t i = 0; i < n; i++)
    {
        unsigned c = style == 0 ? 'a' + (unsigned)t.draw(25) : style == 1 ? 0x20 + (unsigned)t.draw(94) : 1 + (unsigned)t.draw(254);
        s += (char)c;
    }
    return s;
}

inline uint64_t mask_size(uint64_t u, size_t size) { return size >= 8 ? u : u & ((1ULL << (8 * size)) - 1); }

inline Ev gen_event(Tape& t, int k, size_t maxstr = 300)
{
    Ev e; e.k = k;
    e.ts = t.u64any(); e.id = t.u64any();
    auto f = all_fields(k);
    bool wide = f.size() > 10;
    uint64_t wseed = wide ? t.draw(UINT32_MAX) : 0;
    for (auto* x : f)
    {
        Val v;
        if (x->kind == STR) v.s = gen_string(t, maxstr);
        else if (wide) { wseed = wseed * 6364136223846793005ULL + 1442695040888963407ULL; v.u = mask_size(wseed >> 7, x->size); }
        else v.u = mask_size(t.u64any(), x->size);
        e.vals.push_back(std::move(v));
    }
    return e;
}

// in-memory C struct of an event; strings point into owned storage
struct Inst
{
    std::vector<uint64_t> mem;
    std::deque<std::string> strs;
    HT_Event* ev() { return (HT_Event*)mem.data(); }
    void scribble() { memset(mem.data(), 0xDD, mem.size() * 8); for (auto& s : strs) for (auto& c : s) c = '#'; }
};
inline void fill(Inst& in, const Ev& e)
{
    const Klass& kl = klasses()[(size_t)e.k];
    in.mem.assign((kl.size + 7) / 8, 0xA5A5A5A5A5A5A5A5ULL);
    char* p = (char*)in.mem.data();
    HT_Event* b = in.ev();
    b->klass = kl.get(); b->timestamp = e.ts; b->id = e.id;
    auto f = all_fields(e.k);
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i]->kind == STR)
        {
            in.strs.push_back(e.vals[i].s);
            const char* c = in.strs.back().c_str();
            memcpy(p + f[i]->off, &c, sizeof c);
        }
        else memcpy(p + f[i]->off, &e.vals[i].u, f[i]->size);   // little endian host
    }
}
inline void put_int(std::string& o, uint64_t v, size_t n, bool big)
{
    for (size_t i = 0; i < n; i++) o += (char)(v >> (8 * (big ? n - 1 - i : i)));
}
inline std::string encode_with_id(const Ev& e, uint32_t klass_id, bool big = false)
{
    std::string o;
    put_int(o, klass_id, 4, big); put_int(o, e.ts, 8, big); put_int(o, e.id, 8, big);
    auto f = all_fields(e.k);
    for (size_t i = 0; i < f.size(); i++)
    {
        if (f[i]->kind == STR) { o += e.vals[i].s; o += '\0'; }
        else put_int(o, e.vals[i].u, f[i]->size, big);
    }
    return o;
}
inline std::string encode(const Ev& e) { return encode_with_id(e, klasses()[(size_t)e.k].get()->klass_id); }
// independent decoder; returns the number of bytes used, 0 if the data does not hold a whole known event
// the id of a class that is not registered (any more) means nothing: harnesses that initialize the library repeatedly name the
// classes of the current session
inline const std::set<int>*& session_klasses() { static const std::set<int>* s = nullptr; return s; }
inline size_t decode(const unsigned char* d, size_t n, Ev& e)
{
    if (n < 20) return 0;
    uint32_t kid; memcpy(&kid, d, 4); memcpy(&e.ts, d + 4, 8); memcpy(&e.id, d + 12, 8);
    e.k = -1; e.vals.clear();
    for (size_t i = 0; i < klasses().size(); i++) if (klasses()[i].get()->klass_id == kid && (!session_klasses() || session_klasses()->count((int)i))) e.k = (int)i;
    if (e.k < 0) return 0;
    size_t o = 20;
    for (auto* f : all_fields(e.k))
    {
        Val v;
        if (f->kind == STR) { const void* z = memchr(d + o, 0, n - o); if (!z) return 0; v.s.assign((const char*)d + o, (const char*)z); o += v.s.size() + 1; }
        else { if (o + f->size > n) return 0; memcpy(&v.u, d + o, f->size); o += f->size; }
        e.vals.push_back(v);
    }
    return o;
}
inline size_t wire_size(const Ev& e) { return encode_with_id(e, 0).size(); }

inline void register_all() { for (auto& k : klasses()) k.reg(); }

inline std::string hexdump(const std::string& s, size_t max = 96)
{
    std::string o; for (size_t i = 0; i < s.size() && i < max; i++) o += fmt("%02x", (unsigned char)s[i]);
    if (s.size() > max) o += "...";
    return o;
}
inline std::string diff_at(const std::string& a, const std::string& b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return fmt("sizes %zu vs %zu, first difference at byte %zu: got %s want %s", a.size(), b.size(), i,
               hexdump(a.substr(std::min(i, a.size())), 24).c_str(), hexdump(b.substr(std::min(i, b.size())), 24).c_str());
}

} // namespace model
#endif
