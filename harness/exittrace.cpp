// C11 / C25: tracing through the global timeline while a thread (or the process) exits: destructors of thread-local objects
// (constructed before or after the first use of the timeline), of static objects, of POSIX thread keys, and exit handlers.
#include "events_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/thread.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <mutex>
#include <set>
#include <thread>
#include <pthread.h>
using namespace model;
using pbt::Case; using pbt::fail;

#ifndef CXX_LIBRARY
#define CXX_LIBRARY 1          // C++: thread-local objects; C: thread keys and an exit handler
#endif

#ifdef NOTHREADS                // a library without thread support: one global timeline, used by the process's only thread
static const bool no_threads = true;
#else
static const bool no_threads = false;
#endif

// what is traced, in the order a thread does it; the listener writes what it receives in the same form
enum { EVENT, SPAN, DYN, STATIC, NESTED, NTRACE };
struct Trace { int kind; uint64_t arg; };
struct Who { int thread = -1; std::vector<std::string> want; std::set<std::string> labels; };
static std::vector<std::vector<Trace>> g_scripts;      // what object / key / handler k traces
static std::mutex g_mtx;
static std::map<int, std::vector<std::string>> g_got;
static int g_pipe = -1;                                // the exiting process reports here
static std::string g_obs;
static const char* g_static[] = {"first", "second", "third"};

static void put(const std::string& s)
{
    if (g_pipe >= 0) { std::string l = s + "\n"; if (write(g_pipe, l.data(), l.size()) < 0) _exit(99); }
}
static thread_local Who* t_who = nullptr;              // trivially destructible: usable until the very end
static void cb(TEventPtr data, size_t size, HT_Boolean serialized, void*)
{
    std::lock_guard<std::mutex> l(g_mtx);
    size_t o = 0;
    int me = t_who ? t_who->thread : -1;
    while (o < size)
    {
        Ev e; size_t n = decode(data + o, size - o, e);
        if (!n) { put("G torn"); g_got[me].push_back("torn event"); return; }
        std::string s = e.k == I_KInts ? fmt("event %llu", (unsigned long long)e.vals[6].u) : e.k == I_CSInt ? fmt("span %llu", (unsigned long long)e.vals[2].u) :
            e.k == I_CSStr ? "span " + e.vals[2].s : e.k == I_Map ? "label " + e.vals[1].s : e.str();
        g_got[me].push_back(s); put("G " + s);
        o += n;
    }
}
static void want(const std::string& s) { t_who->want.push_back(s); put("W " + s); }
static void trace(const Trace& t)
{
    HT_Timeline* tl = ht_global_timeline_get();
    switch (t.kind)
    {
    case EVENT: { HT_DECL_EVENT(KInts, ev); memset((char*)&ev + sizeof(HT_Event), 0, sizeof ev - sizeof(HT_Event)); ev.iu64 = t.arg; HT_EVENT(&ev)->id = 0; HT_EVENT(&ev)->timestamp = 0; want(fmt("event %llu", (unsigned long long)t.arg)); ht_timeline_push_event(tl, HT_EVENT(&ev)); break; }
    case SPAN: ht_feature_callstack_start_int(tl, t.arg); want(fmt("span %llu", (unsigned long long)t.arg)); ht_feature_callstack_stop(ht_global_timeline_get()); break;
    case DYN: case STATIC:
    {
        std::string s = t.kind == DYN ? fmt("dyn%llu", (unsigned long long)t.arg % 3) : g_static[t.arg % 3];
        want("label? " + s);       // announced at least once: a timeline created while exiting doesn't know what has been announced
        if (t.kind == DYN) ht_feature_cached_string_add_mapping_dynamic(tl, s.c_str()); else ht_feature_cached_string_add_mapping(tl, g_static[t.arg % 3]);
        break;
    }
    case NESTED:
    {
        ht_feature_callstack_start_int(tl, t.arg);
        { HT_G_TRACE("inner"); want("span inner"); }
        want(fmt("span %llu", (unsigned long long)t.arg)); ht_feature_callstack_stop(ht_global_timeline_get()); break;
    }
    }
}
static void play(size_t k) { for (auto& t : g_scripts[k]) trace(t); }

template<int N> struct Obj { size_t script = 0; void set(size_t s) { script = s; } ~Obj() { if (t_who) play(script); } };
template<int N> static void use_obj(size_t script) { static thread_local Obj<N> o; o.set(script); }

struct KeyData { size_t script; int again; pthread_key_t key; };
static void key_dtor(void* p) { KeyData* d = (KeyData*)p; if (t_who) play(d->script); if (d->again-- > 0) pthread_setspecific(d->key, d); else delete d; }

struct Op { int kind; Trace t; size_t script; int n; };
static pthread_key_t g_keys[2];
static size_t g_atexit[2];

static void do_op(const Op& o)
{
    switch (o.kind)
    {
    case 0: trace(o.t); break;
    case 1: switch (o.n) { case 0: use_obj<0>(o.script); break; case 1: use_obj<1>(o.script); break; case 2: use_obj<2>(o.script); break; default: use_obj<3>(o.script); } break;
    case 2: if (!pthread_getspecific(g_keys[o.n & 1])) { KeyData* d = new KeyData{o.script, o.n >> 1, g_keys[o.n & 1]}; pthread_setspecific(g_keys[o.n & 1], d); } break;
    case 3: { g_atexit[o.n & 1] = o.script; atexit(o.n & 1 ? (void (*)())[] { if (t_who) play(g_atexit[1]); } : (void (*)())[] { if (t_who) play(g_atexit[0]); }); break; }
    default: ht_timeline_flush(ht_global_timeline_get());
    }
}
// the stream of one thread: everything in order and nothing twice; announcements of labels that have been announced before may be there or not
static void check(const std::string& who, const std::vector<std::string>& want, const std::vector<std::string>& got)
{
    size_t i = 0; std::set<std::string> known;
    for (auto& w : want)
    {
        bool lab = w.compare(0, 7, "label? ") == 0; std::string s = lab ? "label " + w.substr(7) : w;
        if (i < got.size() && got[i] == s) { i++; if (lab) known.insert(s); continue; }
        if (lab && known.count(s)) continue;
        fail("not-delivered", fmt("%s: received %zu events, then %s instead of '%s'", who.c_str(), i, i < got.size() ? ("'" + got[i] + "'").c_str() : "nothing", s.c_str()));
    }
    if (i != got.size()) fail("extra-events", fmt("%s: received '%s' after everything it traced", who.c_str(), got[i].c_str()));
}

static void run(Case& c)
{
    auto& t = c.t;
    std::string size = fmt("%zu", t.coin() ? (size_t)t.draw(300) : t.pick<size_t>({0, 64, 1024}));
    char a0[] = "prog", a1[] = "--ht-global-timeline-buffer-size"; char* argv[] = {a0, a1, &size[0], nullptr};
    ht_init(3, argv);
    register_all();
    HT_Timeline* group = ht_timeline_create(0, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", nullptr);
    ht_timeline_register_listener(group, cb, nullptr);
    bool early_keys = t.coin();
    uint64_t serial = 0;
    auto gen_trace = [&] { Trace x; x.kind = (int)t.draw(NTRACE - 1); x.arg = x.kind == DYN || x.kind == STATIC ? t.draw(2) : ++serial; return x; };
    size_t nt = 1 + t.draw(2); bool process = no_threads || t.chance(1, 4); size_t exits = 0, uses = 0;
    std::vector<std::vector<Op>> prog(process ? 1 : nt);
    for (size_t i = 0; i < prog.size(); i++)
    {
        size_t n = 1 + t.draw(7);
        for (size_t k = 0; k < n; k++)
        {
            Op o{}; o.kind = (int)t.weighted({4, 5, 2, (unsigned)(process ? 2 : 0), 1});
            if (o.kind == 0) { o.t = gen_trace(); uses++; }
            else if (o.kind <= 3)
            {
                o.n = (int)t.draw(o.kind == 2 ? 5 : 3); o.script = g_scripts.size(); g_scripts.emplace_back(); exits++;
                size_t m = (o.kind == 1) + t.draw(2); for (size_t z = 0; z < m; z++) g_scripts.back().push_back(gen_trace());
            }
            prog[i].push_back(o);
            static const char* names[] = {"trace", "thread-local object", "thread key", "exit handler", "flush"};
            c.note(fmt("%s %zu: %s %s", process ? "process" : "thread", i, names[o.kind], o.kind == 0 ? fmt("%d/%llu", o.t.kind, (unsigned long long)o.t.arg).c_str() : o.kind <= 3 ? fmt("%d, tracing %zu things at the end", o.n, g_scripts[o.script].size()).c_str() : ""));
        }
    }
    if (!early_keys && !no_threads) { std::thread([&] { Who w; w.thread = 99; t_who = &w; ht_global_timeline_get(); t_who = nullptr; }).join(); }   // the library creates its key first
    for (auto& k : g_keys) pthread_key_create(&k, key_dtor);
    if (process)
    {
        int p[2]; if (pipe(p)) fail("harness", "pipe");
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]); g_pipe = p[1];
            static Who w; w.thread = 0; t_who = &w;
            for (auto& o : prog[0]) do_op(o);
            exit(0);
        }
        close(p[1]);
        std::string s; char b[4096]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, (size_t)n);
        close(p[0]);
        int st = 0; waitpid(pid, &st, 0);
        if (st) fail("exit-crashed", fmt("a process that traces while it exits ends with status %d, signal %d", WEXITSTATUS(st), WIFSIGNALED(st) ? WTERMSIG(st) : 0));
        std::vector<std::string> wa, go; size_t o = 0;
        while (o < s.size()) { size_t e = s.find('\n', o); (s[o] == 'W' ? wa : go).push_back(s.substr(o + 2, e - o - 2)); o = e + 1; }
        check("exiting process", wa, go);
        c.label("process");
    }
    else
    {
        std::deque<Who> who(nt); std::vector<std::thread> ts;
        for (size_t i = 0; i < nt; i++) { who[i].thread = (int)i; ts.emplace_back([&, i] { t_who = &who[i]; for (auto& o : prog[i]) do_op(o); }); }
        for (auto& x : ts) x.join();
        for (size_t i = 0; i < nt; i++) check(fmt("thread %zu", i), who[i].want, g_got[(int)i]);
        PBT_CHECK(!g_got.count(-1), "foreign-thread", "events delivered on a thread that did not trace them");
        c.label("threads");
    }
    ht_timeline_destroy(group);
    ht_deinit();
    c.nontrivial = exits >= 1 && uses >= 1;
}
pbt::Harness& pbt::harness() { static Harness h{"exittrace", run, {}, 30, false}; return h; }
