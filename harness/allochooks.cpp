// C23: the interposed malloc, calloc, realloc and free against the C library's rules, and the calls of the hooks against a trace.
#include "pbt.hpp"
#include <hawktracer/alloc_hooks.h>
#include <malloc.h>
#include <pthread.h>
#include <atomic>
#include <memory>
#include <thread>
using pbt::Case; using pbt::fail; using pbt::fmt;

// calls which the compiler can not see through
static void* (*volatile v_malloc)(size_t) = malloc;
static void* (*volatile v_calloc)(size_t, size_t) = calloc;
static void* (*volatile v_realloc)(void*, size_t) = realloc;
static void (*volatile v_free)(void*) = free;
static char* (*volatile v_strdup)(const char*) = strdup;

enum Kind { MALLOC, CALLOC, REALLOC, FREE };
struct Rec { Kind k; bool post; void* ret; void* ptr; size_t num, size; void* ud; int set; int depth; };
struct Trace { Rec r[64]; unsigned n; int depth; };
static thread_local Trace g_tr;
static int g_uds[4];

enum Script { PLAIN, SKIPS, NESTED };
static Script g_script[8];     // per kind and pre/post
static bool g_touch;           // look at the block inside the hook

static void hook(Kind k, bool post, void* ret, void* ptr, size_t num, size_t size, void* ud, int set)
{
    Trace& t = g_tr;
    if (t.n < 64) t.r[t.n++] = Rec{k, post, ret, ptr, num, size, ud, set, t.depth};
    // the block which is about to be released is still there; the one just allocated is usable
    if (g_touch && ptr && !post) { size_t n = malloc_usable_size(ptr); volatile unsigned char* p = (unsigned char*)ptr; for (size_t i = 0; i < n; i += 97) (void)p[i]; }
    if (g_touch && ret && post && k != CALLOC && k != REALLOC) { volatile unsigned char* p = (unsigned char*)ret; for (size_t i = 0; i < size; i += 97) p[i] = 0x5a; }
    if (t.depth) return;
    switch (g_script[k * 2 + post])
    {
    case PLAIN: break;
    case SKIPS:
    {
        unsigned n = t.n;
        void* a = ht_alloc_hooks_malloc_skip_hook(40); void* b = ht_alloc_hooks_calloc_skip_hook(3, 7);
        if (!a || !b) abort();
        for (int i = 0; i < 21; i++) if (((char*)b)[i]) pbt::fail("skip-calloc", "memory from the skip version of calloc is not zero");
        memset(a, 3, 40); a = ht_alloc_hooks_realloc_skip_hook(a, 4000); if (((char*)a)[39] != 3) pbt::fail("skip-realloc", "the skip version of realloc lost data");
        ht_alloc_hooks_free_skip_hook(a); ht_alloc_hooks_free_skip_hook(b);
        if (t.n != n) pbt::fail("skip-hooked", "a skip function called a hook");
        break;
    }
    case NESTED: t.depth++; { void* p = v_malloc(33); v_free(p); } t.depth--; break;
    }
}
template<int S, bool P> static void h_malloc(void* r, size_t s, void* ud) { hook(MALLOC, P, r, nullptr, 0, s, ud, S); }
template<int S, bool P> static void h_calloc(void* r, size_t n, size_t s, void* ud) { hook(CALLOC, P, r, nullptr, n, s, ud, S); }
template<int S, bool P> static void h_realloc(void* r, void* p, size_t s, void* ud) { hook(REALLOC, P, r, p, 0, s, ud, S); }
template<int S, bool P> static void h_free(void* p, void* ud) { hook(FREE, P, nullptr, p, 0, 0, ud, S); }
template<int S> static void reg(unsigned m, void* ud)
{
    ht_alloc_hooks_register_hooks(m & 1 ? h_malloc<S, false> : nullptr, m & 2 ? h_malloc<S, true> : nullptr, m & 4 ? h_calloc<S, false> : nullptr, m & 8 ? h_calloc<S, true> : nullptr,
                                  m & 16 ? h_realloc<S, false> : nullptr, m & 32 ? h_realloc<S, true> : nullptr, m & 64 ? h_free<S, false> : nullptr, m & 128 ? h_free<S, true> : nullptr, ud);
}
struct Cfg { unsigned mask = 0; int set = 0; void* ud = nullptr; };
static void install(const Cfg& c) { if (c.set) reg<1>(c.mask, c.ud); else reg<0>(c.mask, c.ud); }

struct Op { int what; size_t a, b, slot; };
struct Block { unsigned char* p = nullptr; size_t n = 0; unsigned char tag = 0; };
static size_t gen_size(pbt::Tape& t)
{
    switch (t.weighted({5, 3, 2, 2, 1}))
    {
    case 0: return t.draw(200);
    case 1: return t.scaled(5000);
    case 2: return t.pick<size_t>({0, 1, 7, 8, 9, 24, 25, 1023, 1024, 1025, 4096, 65536, 131071, 131072, 200000});
    case 3: return t.scaled(3u << 20);
    default: return SIZE_MAX - t.scaled(1ULL << 62);       // can not be satisfied
    }
}
static std::vector<Op> gen_ops(pbt::Tape& t, size_t max)
{
    std::vector<Op> o; size_t n = t.count(max);
    for (size_t i = 0; i < n; i++)
    {
        Op x; x.what = (int)t.weighted({5, 3, 5, 5, 1, 1, 1, 1}); x.slot = t.draw(7); x.a = gen_size(t); x.b = gen_size(t);
        if (x.what == 1) { if (t.chance(1, 4)) { x.a = t.pick<size_t>({1ULL << 32, 1ULL << 33, SIZE_MAX / 2, (SIZE_MAX / 3) + 1, SIZE_MAX}); x.b = t.pick<size_t>({1ULL << 32, 2, 3, 4, 1}); if (x.a * (unsigned __int128)x.b <= 1ULL << 40) x.b = SIZE_MAX; } else { x.a = t.draw(40); x.b = t.scaled(4000); } }
        if (x.what >= 4) x.a = 1 + t.draw(300);
        o.push_back(x);
    }
    return o;
}
static const char* names[] = {"malloc", "calloc", "realloc", "free", "strdup", "new", "aligned_alloc", "realloc(NULL)"};
static void fill(Block& b, unsigned char tag) { b.tag = tag; if (b.p) for (size_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(tag + i * 7); }
static void verify(const Block& b, size_t n, const char* what) { for (size_t i = 0; i < n; i++) if (b.p[i] != (unsigned char)(b.tag + i * 7)) fail("content", fmt("%s: byte %zu of a block of %zu bytes changed", what, i, b.n)); }

// one call: no allocation may happen between arming and disarming, except the call itself
static void step(const Op& op, Block* slots, const Cfg& cfg, unsigned char tag, bool check_trace, bool count_use)
{
    Block& b = slots[op.slot]; Trace& t = g_tr; t.n = 0; t.depth = 0;
    Rec want{}; bool none = false; void* ret = nullptr; int en = 0;
    Block old = b; size_t keep = 0;
    int what = op.what;
    if (what != 3 && what != 2 && b.p) { what = 3; }                 // slot taken: release it
    if (old.p) verify(old, old.n, "before");
    auto in_use = [] { auto m = mallinfo2(); return (double)m.uordblks + (double)m.hblkhd; };
    double used = count_use ? in_use() : 0;
    switch (what)
    {
    case 0: errno = 0; ret = v_malloc(op.a); en = errno; want = Rec{MALLOC, false, nullptr, nullptr, 0, op.a}; b.p = (unsigned char*)ret; b.n = op.a; break;
    case 1: errno = 0; ret = v_calloc(op.a, op.b); en = errno; want = Rec{CALLOC, false, nullptr, nullptr, op.a, op.b}; b.p = (unsigned char*)ret; b.n = op.a * op.b; break;
    case 2: case 7:
        errno = 0; ret = v_realloc(b.p, op.a); en = errno; want = Rec{REALLOC, false, nullptr, old.p, 0, op.a};
        if (op.a == 0 && old.p) { if (ret) fail("realloc-zero", "realloc(ptr, 0) returned a block, the C library releases it"); b = Block(); }
        else if (ret) { keep = std::min(old.n, op.a); b.p = (unsigned char*)ret; b.n = op.a; }
        break;
    case 3: v_free(b.p); want = Rec{FREE, false, nullptr, old.p, 0, 0}; b = Block(); break;
    case 4: { char s[304]; memset(s, 'x', sizeof s); s[op.a] = 0; ret = v_strdup(s); want = Rec{MALLOC, false, nullptr, nullptr, 0, op.a + 1}; b.p = (unsigned char*)ret; b.n = op.a + 1; if (strcmp((char*)ret, s)) fail("strdup", "wrong copy"); break; }
    case 5: ret = ::operator new(op.a); want = Rec{MALLOC, false, nullptr, nullptr, 0, op.a}; b.p = (unsigned char*)ret; b.n = op.a; break;
    default: ret = aligned_alloc(64, (op.a + 63) / 64 * 64); none = true; b.p = (unsigned char*)ret; b.n = op.a; break;
    }
    Trace got = t;    // a copy: what follows may allocate
    // what is not needed any more goes back to the C library (small blocks stay in its caches)
    if (count_use && old.p && old.n >= 20000 && (what == 3 || (what == 2 && (ret || !op.a))))
    {
        double now = in_use(), want_less = (double)old.n - (double)b.n - 8192 - (b.n >= 100000 ? 8192 : 0);
        if (now > used - want_less) fail("leak", fmt("%s of a block of %zu bytes (new size %zu) changes the memory in use by %.0f bytes", names[what], old.n, b.n, now - used));
    }
    // the memory
    unsigned __int128 asked = what == 1 ? (unsigned __int128)op.a * op.b : (unsigned __int128)op.a;
    bool impossible = asked > (1ULL << 46) && what < 4;
    if (what == 7) impossible = asked > (1ULL << 46);
    if (what == 3) impossible = false;
    if (what != 3)
    {
        bool freed = what == 2 && op.a == 0 && old.p;
        if (impossible) { if (ret || en != ENOMEM) fail("huge", fmt("%s of an impossible size returns %p, errno %d", names[what], ret, en)); }
        else if (!freed && !ret) { if (en == ENOMEM && asked > (64u << 20)) return; fail("no-memory", fmt("%s(%zu, %zu) failed, errno %d", names[what], op.a, op.b, en)); }
        if (ret)
        {
            if ((uintptr_t)ret % 16) fail("alignment", fmt("%s returned %p", names[what], ret));
            if (malloc_usable_size(ret) < b.n) fail("too-small", fmt("%s of %zu bytes has %zu usable bytes", names[what], b.n, malloc_usable_size(ret)));
            for (int i = 0; i < 8; i++) if (&slots[i] != &b && slots[i].p && slots[i].p < b.p + b.n && b.p < slots[i].p + slots[i].n) fail("overlap", "two live blocks overlap");
            if (what == 1) for (size_t i = 0; i < b.n; i++) if (b.p[i]) fail("calloc-zero", fmt("byte %zu from calloc is %d", i, b.p[i]));
            if (keep) { Block x{b.p, keep, old.tag}; verify(x, keep, "realloc"); }
        }
        else if (what == 2 && old.p && op.a) verify(old, old.n, "failed realloc");     // the old block is untouched
        if (!ret && what != 2) b = Block();
        if (what == 7 && !ret) b = Block();
    }
    if (b.p && ret) fill(b, tag);
    // the hooks
    if (!check_trace) return;
    std::vector<Rec> exp; static const int bit[] = {0, 2, 4, 6};
    auto nested = [&](const Rec& r) {
        if (g_script[r.k * 2 + r.post] != NESTED) return;
        for (int k = 0; k < 4; k++) if (cfg.mask & (k < 2 ? 1u << k : 64u << (k - 2))) exp.push_back(Rec{k < 2 ? MALLOC : FREE, k % 2 == 1, nullptr, nullptr, 0, k < 2 ? (size_t)33 : 0, cfg.ud, cfg.set, 1});
    };
    if (!none)
        for (int post = 0; post < 2; post++)
            if (cfg.mask & (1u << (bit[want.k] + post))) { Rec r = want; r.post = post; r.ret = post ? ret : nullptr; r.ud = cfg.ud; r.set = cfg.set; r.depth = 0; exp.push_back(r); nested(r); }
    auto show = [](const Rec& r) { static const char* k[] = {"malloc", "calloc", "realloc", "free"}; return fmt("%s-%s(ret %p, ptr %p, num %zu, size %zu, user data %p, set %d)", r.post ? "post" : "pre", k[r.k], r.ret, r.ptr, r.num, r.size, r.ud, r.set); };
    for (size_t i = 0; i < std::max<size_t>(exp.size(), got.n); i++)
    {
        if (i >= got.n) fail("hook-missing", fmt("%s(%zu, %zu): hook %zu was not called: %s", names[what], op.a, op.b, i, show(exp[i]).c_str()));
        if (i >= exp.size()) fail("hook-extra", fmt("%s(%zu, %zu): unexpected call of %s", names[what], op.a, op.b, show(got.r[i]).c_str()));
        Rec& g = got.r[i]; Rec& e = exp[i];
        bool same = g.k == e.k && g.post == e.post && g.num == e.num && g.size == e.size && g.ud == e.ud && g.set == e.set && g.depth == e.depth;
        if (e.depth == 0) same = same && g.ret == e.ret && g.ptr == e.ptr;      // pointers of the nested calls are not known
        else if (!e.post && e.k == MALLOC) same = same && !g.ret;
        if (!same) fail("hook-arguments", fmt("%s(%zu, %zu): hook %zu is %s, expected %s", names[what], op.a, op.b, i, show(g).c_str(), show(e).c_str()));
    }
}
static Cfg gen_cfg(pbt::Tape& t) { Cfg c; c.mask = t.chance(1, 3) ? 255 : t.chance(1, 6) ? 0 : (unsigned)t.draw(255); c.set = (int)t.draw(1); size_t u = t.draw(4); c.ud = u == 4 ? nullptr : &g_uds[u]; return c; }

static void run(Case& c)
{
    pbt::Tape& t = c.t;
    for (auto& s : g_script) s = (Script)t.weighted({4, 1, 1});
    g_touch = t.coin();
    bool conc = t.chance(1, 3);
    size_t calls = 0; unsigned used = 0;
    if (!conc)
    {
        Block slots[8]; size_t phases = 1 + t.count(6);
        for (size_t ph = 0; ph < phases; ph++)
        {
            Cfg cfg = gen_cfg(t); auto ops = gen_ops(t, 30); used |= cfg.mask;
            c.note(fmt("hooks %02x set %d user data %p", cfg.mask, cfg.set, cfg.ud));
            for (auto& o : ops) c.note(fmt("  %s slot %zu (%zu, %zu)", names[o.what], o.slot, o.a, o.b));
            for (size_t i = 0; i < ops.size(); i++)
            {
                install(cfg);
                // (the bookkeeping of step() itself happens before or after the call)
                step(ops[i], slots, cfg, (unsigned char)(ph * 31 + i), true, true);
                if (t.chance(1, 8)) reg<0>(0, nullptr);
            }
            calls += ops.size();
        }
        reg<0>(0, nullptr);
        for (auto& b : slots) if (b.p) { verify(b, b.n, "end"); v_free(b.p); }
    }
    else
    {
        Cfg cfg = gen_cfg(t); size_t n = 2 + t.draw(2); std::vector<std::vector<Op>> ops; used = cfg.mask;
        for (size_t i = 0; i < n; i++) { ops.push_back(gen_ops(t, 60)); calls += ops.back().size(); }
        pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, (unsigned)n + 1);
        std::vector<std::thread> th;
        for (size_t i = 0; i < n; i++)
            th.emplace_back([&, i] {
                Block slots[8]; pthread_barrier_wait(&bar);
                for (size_t k = 0; k < ops[i].size(); k++) step(ops[i][k], slots, cfg, (unsigned char)(i * 60 + k), true, false);
                pthread_barrier_wait(&bar);
                for (auto& b : slots) if (b.p) { verify(b, b.n, "end"); v_free(b.p); }
            });
        install(cfg); pthread_barrier_wait(&bar); pthread_barrier_wait(&bar);
        for (auto& x : th) x.join();
        reg<0>(0, nullptr); pthread_barrier_destroy(&bar);
        c.note(fmt("%zu threads, %zu calls, hooks %02x", n, calls, cfg.mask));
    }
    c.nontrivial = calls >= 3 && used; c.label(conc ? "threads" : "history");
    { std::string s; for (int i = 0; i < 8; i++) if (g_script[i] == NESTED) s = "nested-calls"; if (!s.empty()) c.label(s); }
}
pbt::Harness& pbt::harness() { static Harness h{"allochooks", run, {}, 30, true}; return h; }
