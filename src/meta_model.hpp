// Independent reader of the metadata at the start of a stream (docs/design/htdump_format.md).
#ifndef VERIF_META_MODEL_HPP
#define VERIF_META_MODEL_HPP
#include "pbt.hpp"
#include <hawktracer/core_events.h>

namespace meta {
using pbt::fmt;
struct M
{
    char kind = 0;                                  // E endianness, K class, F field, S system info
    uint64_t ts = 0, id = 0; uint32_t kid = 0;
    std::string name, type; uint64_t size = 0; unsigned count = 0, dtype = 0, v[3] = {0, 0, 0};
    bool same(const M& o) const { return kind == o.kind && kid == o.kid && name == o.name && type == o.type && size == o.size && count == o.count && dtype == o.dtype && !memcmp(v, o.v, sizeof v); }
    std::string str() const { return kind == 'K' ? fmt("class %u '%s' with %u fields", kid, name.substr(0, 60).c_str(), count) : kind == 'F' ? fmt("field '%s' '%s' size %llu kind %u of class %u", name.substr(0, 60).c_str(), type.substr(0, 60).c_str(), (unsigned long long)size, dtype, kid)
        : kind == 'E' ? fmt("byte order %u", v[0]) : fmt("system info %u.%u.%u", v[0], v[1], v[2]); }
};
inline uint64_t le(const unsigned char* d, size_t n) { uint64_t x = 0; memcpy(&x, d, n); return x; }

// reads one serialized metadata event; 0: not a (whole) metadata event
inline size_t read(const unsigned char* d, size_t n, M& m)
{
    if (n < 20) return 0;
    uint32_t k = (uint32_t)le(d, 4); m = M(); m.ts = le(d + 4, 8); m.id = le(d + 12, 8);
    size_t o = 20;
    auto str = [&](std::string& s) { const void* z = o <= n ? memchr(d + o, 0, n - o) : nullptr; if (!z) return false; s.assign((const char*)d + o, (const char*)z); o += s.size() + 1; return true; };
    if (k == ht_HT_EndiannessInfoEvent_get_event_klass_instance()->klass_id) { if (o + 1 > n) return 0; m.kind = 'E'; m.v[0] = d[o]; return o + 1; }
    if (k == ht_HT_EventKlassInfoEvent_get_event_klass_instance()->klass_id)
    {
        if (o + 4 > n) return 0; m.kind = 'K'; m.kid = (uint32_t)le(d + o, 4); o += 4;
        if (!str(m.name) || o + 1 > n) return 0; m.count = d[o]; return o + 1;
    }
    if (k == ht_HT_EventKlassFieldInfoEvent_get_event_klass_instance()->klass_id)
    {
        if (o + 4 > n) return 0; m.kind = 'F'; m.kid = (uint32_t)le(d + o, 4); o += 4;
        if (!str(m.type) || !str(m.name) || o + 9 > n) return 0; m.size = le(d + o, 8); m.dtype = d[o + 8]; return o + 9;
    }
    if (k == ht_HT_SystemInfoEvent_get_event_klass_instance()->klass_id) { if (o + 3 > n) return 0; m.kind = 'S'; for (int i = 0; i < 3; i++) m.v[i] = d[o + (size_t)i]; return o + 3; }
    return 0;
}
// reads one raw (in-memory) metadata event
inline size_t read_raw(const unsigned char* d, size_t n, M& m)
{
    if (n < sizeof(HT_Event)) return 0;
    HT_Event b; memcpy(&b, d, sizeof b); m = M(); m.ts = b.timestamp; m.id = b.id;
    if (b.klass == ht_HT_EndiannessInfoEvent_get_event_klass_instance()) { HT_EndiannessInfoEvent e; if (n < sizeof e) return 0; memcpy(&e, d, sizeof e); m.kind = 'E'; m.v[0] = e.endianness; return sizeof e; }
    if (b.klass == ht_HT_EventKlassInfoEvent_get_event_klass_instance()) { HT_EventKlassInfoEvent e; if (n < sizeof e) return 0; memcpy(&e, d, sizeof e); m.kind = 'K'; m.kid = e.info_klass_id; m.name = e.event_klass_name; m.count = e.field_count; return sizeof e; }
    if (b.klass == ht_HT_EventKlassFieldInfoEvent_get_event_klass_instance()) { HT_EventKlassFieldInfoEvent e; if (n < sizeof e) return 0; memcpy(&e, d, sizeof e); m.kind = 'F'; m.kid = e.info_klass_id; m.name = e.field_name; m.type = e.field_type; m.size = e.size; m.dtype = e.data_type; return sizeof e; }
    if (b.klass == ht_HT_SystemInfoEvent_get_event_klass_instance()) { HT_SystemInfoEvent e; if (n < sizeof e) return 0; memcpy(&e, d, sizeof e); m.kind = 'S'; m.v[0] = e.version_major; m.v[1] = e.version_minor; m.v[2] = e.version_patch; return sizeof e; }
    return 0;
}
// all metadata events at the start of a serialized stream
inline size_t read_all(const std::string& s, std::vector<M>& out)
{
    size_t o = 0; M m;
    while (size_t k = read((const unsigned char*)s.data() + o, s.size() - o, m)) { out.push_back(m); o += k; }
    return o;
}
// byte-wise the same metadata apart from the timestamps and ids of its events; "" if so
inline std::string same(const std::vector<M>& a, const std::vector<M>& b)
{
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
    {
        if (i >= a.size()) return fmt("metadata ends after %zu events, expected %s", i, b[i].str().c_str());
        if (i >= b.size()) return fmt("metadata continues after %zu events with %s", i, a[i].str().c_str());
        if (!a[i].same(b[i])) return fmt("metadata event %zu is %s, expected %s", i, a[i].str().c_str(), b[i].str().c_str());
    }
    return "";
}
} // namespace meta
#endif
