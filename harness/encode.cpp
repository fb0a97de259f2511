// C02: instances of 18 declared classes: size and bytes against the independent encoder, in an exactly sized buffer.
#include "events_model.hpp"
#include <hawktracer/init.h>
using namespace model;
using pbt::Case; using pbt::fail;
static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    size_t n = 2 + t.count(30), strs = 0;
    for (size_t i = 0; i < n; i++)
    {
        Ev e = gen_event(t, (int)t.draw(I_COUNT - 1), t.chance(1, 10) ? 20000 : 400);
        Inst in; fill(in, e);
        auto f = all_fields(e.k);
        for (size_t j = 0; j < f.size(); j++) if (f[j]->kind == STR) { strs++; if (t.chance(1, 10)) { e.vals[j].s.clear(); memset((char*)in.mem.data() + f[j]->off, 0, sizeof(char*)); c.label("missing-string"); } }
        const Klass& k = klasses()[(size_t)e.k];
        std::string want = encode(e);
        size_t sz = k.get()->get_size(in.ev());
        PBT_CHECK(sz == want.size(), "size", "%s: size reported %zu, expected %zu", e.str().c_str(), sz, want.size());
        unsigned char* b = (unsigned char*)malloc(sz);
        size_t w = k.get()->serialize(in.ev(), b);
        PBT_CHECK(w == sz, "size", "%s: %zu bytes written, size reported %zu", e.str().c_str(), w, sz);
        std::string got((char*)b, sz); free(b);
        PBT_CHECK(got == want, "bytes", "%s: %s", e.str().c_str(), diff_at(got, want).c_str());
        c.note(e.str());
        // reflection
        MKCREFLECT_TypeInfo* ti = k.get()->type_info;
        PBT_CHECK(ti && ti->name == k.name && ti->size == k.size, "reflection", "class %s: wrong name or size", k.name.c_str());
        if (k.name == "HT_Event" || k.name[0] != 'K') continue;
        PBT_CHECK(ti->fields_count == k.own.size() + 1, "reflection", "class %s: %zu fields, declared %zu", k.name.c_str(), ti->fields_count, k.own.size() + 1);
        PBT_CHECK(std::string(ti->fields[0].field_type) == k.base_name && std::string(ti->fields[0].field_name) == "base" && ti->fields[0].data_type == MKCREFLECT_TYPES_STRUCT && ti->fields[0].offset == 0, "reflection", "class %s: base is described wrongly", k.name.c_str());
        for (size_t j = 0; j < k.own.size(); j++)
        {
            auto& x = ti->fields[j + 1]; auto& y = k.own[j];
            int kind = y.kind == STR ? MKCREFLECT_TYPES_STRING : y.kind == RAW ? (y.ctype == "double" ? MKCREFLECT_TYPES_DOUBLE : MKCREFLECT_TYPES_POINTER) : MKCREFLECT_TYPES_INTEGER;
            PBT_CHECK(y.name == x.field_name && y.ctype == x.field_type && x.size == y.size && x.offset == y.off && (int)x.data_type == kind && (kind != MKCREFLECT_TYPES_INTEGER || (x.is_signed != 0) == (y.kind == INT)), "reflection",
                      "class %s field %s: described as %s %s size %zu offset %zu signed %d kind %d", k.name.c_str(), y.name.c_str(), x.field_type, x.field_name, x.size, x.offset, x.is_signed, (int)x.data_type);
        }
    }
    ht_deinit();
    c.nontrivial = n >= 3 && strs >= 1;
}
pbt::Harness& pbt::harness() { static Harness h{"encode", run, {}, 30, false}; return h; }
