/* C side of the span harness: scoped tracepoints of the C language, left in every way C knows. */
#include <pthread.h>
#include <hawktracer/tracepoint.h>
#include <hawktracer/global_timeline.h>

typedef void (*body_fn)(void*);
#define EXITS(TP) \
    int once; \
    for (once = 1; once; once = 0) \
    { \
        TP; \
        body(ud); \
        if (how == 1) return; \
        if (how == 2) break; \
        if (how == 3) continue; \
        if (how == 4) goto out; \
        if (how == 5) { switch (how) { case 5: return; default: break; } } \
    } \
out:;

void c_scoped_int(HT_Timeline* t, uint64_t label, int how, body_fn body, void* ud) { EXITS(HT_TP_SCOPED_INT(t, label)) }
void c_scoped_string(HT_Timeline* t, const char* label, int how, body_fn body, void* ud) { EXITS(HT_TRACE(t, label)) }
void c_scoped_dynamic(HT_Timeline* t, const char* label, int how, body_fn body, void* ud) { EXITS(HT_TRACE_OPT_DYNAMIC(t, label)) }
void c_scoped_function(HT_Timeline* t, int how, body_fn body, void* ud) { EXITS(HT_TRACE_FUNCTION(t)) }
void c_scoped_static_1(HT_Timeline* t, int how, body_fn body, void* ud) { EXITS(HT_TRACE_OPT_STATIC(t, "c static one")) }
void c_scoped_static_2(HT_Timeline* t, int how, body_fn body, void* ud) { EXITS(HT_TRACE_OPT_STATIC(t, "c static two")) }
void c_scoped_static_3(HT_Timeline* t, int how, body_fn body, void* ud) { EXITS(HT_TP_STRACEPOINT(t, "")) }
