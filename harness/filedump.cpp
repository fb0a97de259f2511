// C13: the file dump listener writes exactly what it was given.  -DCONC: concurrent callbacks / flush / stop under
// generated schedules.
#ifdef CONC
#include "sched.hpp"
#endif
#include "events_model.hpp"
#include "meta_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <dirent.h>
using namespace model;
using pbt::Case; using pbt::fail;

struct Chunk { std::vector<Ev> ev; std::deque<Inst> in; std::string enc; std::vector<uint64_t> raw; bool ser = true; uint64_t begin = 0, end = 0; };
static void gen_chunk(pbt::Tape& t, Chunk& k, size_t maxev, bool small, uint64_t id0)
{
    size_t n = 1 + t.draw(maxev - 1); k.ser = !t.chance(1, 3);
    for (size_t i = 0; i < n; i++)
    {
        Ev e = gen_event(t, (int)t.draw(I_COUNT - 1), small ? 20 : 300);
        e.id = id0 + i;
        k.enc += encode(e); k.in.emplace_back(); fill(k.in.back(), e); k.ev.push_back(e);
        size_t sz = klasses()[(size_t)e.k].size / 8, o = k.raw.size(); k.raw.resize(o + sz); memcpy(k.raw.data() + o, k.in.back().mem.data(), sz * 8);
    }
}
static void deliver(HT_FileDumpListener* l, Chunk& k)
{
    if (k.ser) { std::vector<unsigned char> b(k.enc.begin(), k.enc.end()); ht_file_dump_listener_callback(b.data(), b.size(), HT_TRUE, l); memset(b.data(), 0x5A, b.size()); }
    else ht_file_dump_listener_callback((TEventPtr)k.raw.data(), k.raw.size() * 8, HT_FALSE, l);
}
static std::string content(const std::string& p) { return pbt::slurp(p, 1 << 30); }
static void collect(TEventPtr d, size_t n, HT_Boolean, void* ud) { ((std::string*)ud)->append((const char*)d, n); }
static size_t open_fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
// splits file content into metadata and events, checks the metadata
static size_t check_meta(const std::string& c)
{
    std::string ref; ht_timeline_listener_push_metadata(collect, &ref, HT_TRUE);
    std::vector<meta::M> a, b; size_t o = meta::read_all(c, a); meta::read_all(ref, b);
    std::string r = meta::same(a, b);
    PBT_CHECK(r.empty(), "metadata", "the file does not start with the metadata: %s", r.c_str());
    return o;
}

#ifndef CONC
static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    std::string dir = fmt("%s/fd.%d", pbt::g_scratch, (int)getpid()); mkdir(dir.c_str(), 0700);
    std::string path = dir + "/out.htdump";
    HT_ErrorCode err = HT_ERR_OK; size_t fds0 = open_fds();
    if (t.chance(1, 8))   // unwritable paths
    {
        std::string bad = t.pick<std::string>({dir, dir + "/no/such/dir/file", std::string(5000, 'x'), dir + "/" + std::string(300, 'y'), ""});
        HT_Timeline* tl = ht_timeline_create(64, HT_FALSE, HT_TRUE, nullptr, &err);
        err = HT_ERR_OK;
        HT_FileDumpListener* l = t.coin() ? ht_file_dump_listener_create(bad.c_str(), t.draw(4096), &err) : ht_file_dump_listener_register(tl, bad.c_str(), t.draw(4096), &err);
        PBT_CHECK(!l && err != HT_ERR_OK, "bad-path-accepted", "a listener was created for an unwritable path (error %d)", (int)err);
        PBT_CHECK(!ht_file_dump_listener_create(bad.c_str(), 10, nullptr), "bad-path-accepted", "a listener was created for an unwritable path");
        HT_TIMELINE_PUSH_EVENT(tl, KU8, 1); ht_timeline_destroy(tl);
        PBT_CHECK(open_fds() == fds0, "fd-leak", "a failed creation leaves a file open");
        c.label("unwritable-path"); ht_deinit(); rmdir(dir.c_str()); return;
    }
    int fault = (int)t.weighted({6, 1, 1});   // 0 none, 1 full device, 2 file size limit
    size_t lbuf; switch (t.weighted({3, 2, 2})) { case 0: lbuf = t.draw(200); break; case 1: lbuf = t.pick<size_t>({0, 1, 2, 20, 64, 1024, 4096, 65536}); break; default: lbuf = t.draw(5000); }
    rlim_t limit = 0;
    if (fault == 2) { signal(SIGXFSZ, SIG_IGN); limit = t.draw(20000); struct rlimit r = {limit, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r); }
    if (t.coin()) { FILE* f = fopen(path.c_str(), "wb"); if (f) { std::string junk(3000, 'J'); fwrite(junk.data(), 1, junk.size(), f); fclose(f); } }   // an older file is replaced
    HT_FileDumpListener* l = ht_file_dump_listener_create(fault == 1 ? "/dev/full" : path.c_str(), lbuf, &err);
    PBT_CHECK(l && err == HT_ERR_OK, "create-failed", "listener creation failed with %d", (int)err);
    c.note(fmt("buffer %zu, fault %d limit %llu", lbuf, fault, (unsigned long long)limit));
    std::string expect; bool stopped = false, synced = false; bool freed = false; size_t meta_all = 0, meta_len = SIZE_MAX, nchunks = 0, flushes = 0, afters = 0;
    std::string frozen; std::deque<Chunk> chunks; std::vector<std::string> snaps; std::vector<size_t> snap_expect;
    size_t n = 1 + t.count(60); bool small = t.coin(); uint64_t id = 1;
    auto snap = [&] { if (fault == 1) return; std::string s = content(path); PBT_CHECK(fault != 2 || freed || s.size() <= limit, "limit", "file larger than the limit"); snaps.push_back(s); snap_expect.push_back(expect.size()); };
    auto full = [&](const char* why) {
        if (fault) { if (fault == 2) snap(); return; }
        std::string s = content(path);
        if (meta_len == SIZE_MAX) meta_len = check_meta(s);
        PBT_CHECK(s.size() == meta_len + expect.size() && s.compare(meta_len, std::string::npos, expect) == 0, "file-differs", "after %s: %s", why, diff_at(s.substr(std::min(s.size(), meta_len)), expect).c_str());
        synced = true;
    };
    for (size_t i = 0; i < n; i++)
        switch (t.weighted({12, 2, 2, 1, 2, fault == 2 ? 2u : 0u}))
        {
        case 5:   // space is freed; what was lost meanwhile must not leave a hole in the file
            if (!freed && expect.size() > limit && t.coin()) { struct rlimit r = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r); freed = true; c.note("space freed"); c.label("space-freed"); }
            break;
        case 0:
        {
            chunks.emplace_back(); Chunk& k = chunks.back(); gen_chunk(t, k, small ? 6 : 20, small, id); id += 100;
            c.note(fmt("deliver %zu events, %zu bytes, %s%s", k.ev.size(), k.enc.size(), k.ser ? "serialized" : "raw", stopped ? " (stopped)" : ""));
            deliver(l, k); nchunks++;
            if (!stopped) expect += k.enc; else afters++;
            if (stopped && fault != 1) PBT_CHECK(content(path) == frozen, "written-after-stop", "events delivered after stop changed the file");
            break;
        }
        case 1:
        {
            HT_ErrorCode e = ht_file_dump_listener_flush(l, HT_TRUE); flushes++; c.note("flush stream");
            if (fault == 2 && !stopped) { std::string ref; ht_timeline_listener_push_metadata(collect, &ref, HT_TRUE); meta_all = ref.size(); }
            if (!fault || (fault == 2 && !stopped && !freed && meta_all + expect.size() <= limit)) PBT_CHECK(e == HT_ERR_OK, "flush-error", "flushing failed with %d", (int)e);
            // success means that nothing has been lost
            if (fault == 1 && !stopped) PBT_CHECK(e != HT_ERR_OK, "loss-unreported", "flushing to a full device succeeded");
            if (fault == 2 && !stopped && e == HT_ERR_OK) { size_t z = content(path).size(); PBT_CHECK(z == meta_all + expect.size(), "loss-unreported", "flushing succeeded but the file has %zu of %zu bytes", z, meta_all + expect.size()); c.label("flush-ok-under-limit"); }
            if (!stopped) full("flush");
            break;
        }
        case 2: PBT_CHECK(ht_file_dump_listener_flush(l, HT_FALSE) == HT_ERR_OK, "flush-error", "flushing without stream failed"); snap(); c.note("flush buffer"); break;
        case 3: if (t.chance(1, 3)) { ht_file_dump_listener_stop(l); if (!stopped) { full("stop"); if (fault != 1) frozen = content(path); } stopped = true; c.note("stop"); } break;
        default: snap();
        }
    bool was_stopped = stopped;
    if (!stopped && t.coin()) { ht_file_dump_listener_stop(l); full("stop"); stopped = true; }
    ht_file_dump_listener_destroy(l);
    ht_file_dump_listener_destroy(nullptr);
    if (fault != 1 && was_stopped) PBT_CHECK(content(path) == frozen, "written-after-stop", "destroying a stopped listener changed the file");
    full("destroy");
    PBT_CHECK(open_fds() == fds0, "fd-leak", "%zu descriptors open before, %zu after", fds0, open_fds());
    // every earlier snapshot is a prefix of the final content, and never longer than what had been delivered
    if (fault != 1)
    {
        std::string fin = content(path);
        size_t ml = meta_len;
        for (size_t i = 0; i < snaps.size(); i++)
        {
            PBT_CHECK(fin.compare(0, snaps[i].size(), snaps[i]) == 0, "not-a-prefix", "the file at an earlier moment (%zu bytes) is not a prefix of the final one: %s", snaps[i].size(), diff_at(snaps[i], fin).c_str());
            if (ml != SIZE_MAX) PBT_CHECK(snaps[i].size() <= ml + snap_expect[i], "early-bytes", "the file holds more than what had been delivered");
        }
        if (fault == 2)
        {
            std::string ref; ht_timeline_listener_push_metadata(collect, &ref, HT_TRUE);
            if (fin.size() > ref.size()) { std::string ev = fin.substr(ref.size()); PBT_CHECK(expect.compare(0, ev.size(), ev) == 0, "file-differs", "under a size limit the file is not a prefix: %s", diff_at(ev, expect).c_str()); }
        }
    }
    unlink(path.c_str()); rmdir(dir.c_str());
    if (fault) c.label(fault == 1 ? "full-device" : "size-limit");
    if (afters) c.label("events-after-stop");
    if (snaps.size()) c.label("snapshots");
    ht_deinit();
    c.nontrivial = nchunks >= 2 && expect.size() > lbuf && (flushes || stopped);
}
pbt::Harness& pbt::harness() { static Harness h{"filedump", run, {}, 30, false}; return h; }
#else
static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    std::string path = fmt("%s/cfd.%d.htdump", pbt::g_scratch, (int)getpid());
    size_t lbuf = t.coin() ? t.draw(200) : t.pick<size_t>({0, 1, 20, 64, 1024});
    HT_ErrorCode err; HT_FileDumpListener* l = ht_file_dump_listener_create(path.c_str(), lbuf, &err);
    PBT_CHECK(l, "create-failed", "listener creation failed");
    size_t nt = 2 + t.draw(1);
    struct Op { int kind; size_t arg; };
    std::vector<std::vector<Op>> ops(nt); std::vector<std::deque<Chunk>> ch(nt);
    uint64_t tick = 0, stop_begin = UINT64_MAX, stop_end = UINT64_MAX; size_t delivered = 0;
    bool stops = t.coin();
    for (size_t i = 0; i < nt; i++)
    {
        size_t n = 1 + t.draw(5);
        for (size_t k = 0; k < n; k++)
            switch (t.weighted({6, 2, 1}))
            {
            case 0: ch[i].emplace_back(); gen_chunk(t, ch[i].back(), 3, true, ((uint64_t)i << 40) | ((uint64_t)ch[i].size() << 8)); ops[i].push_back({0, ch[i].size() - 1}); delivered++; c.note(fmt("thread %zu: deliver %zu bytes %s", i, ch[i].back().enc.size(), ch[i].back().ser ? "" : "raw")); break;
            case 1: ops[i].push_back({1, t.draw(1)}); c.note(fmt("thread %zu: flush", i)); break;
            default: if (stops) { ops[i].push_back({2, 0}); c.note(fmt("thread %zu: stop", i)); }
            }
    }
    uint64_t preempt = t.draw(30);
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < nt; i++)
        bodies.push_back([&, i] {
            for (auto& op : ops[i])
            {
                sched::point();
                if (op.kind == 0) { Chunk& k = ch[i][op.arg]; k.begin = ++tick; deliver(l, k); k.end = ++tick; }
                else if (op.kind == 1) PBT_CHECK(ht_file_dump_listener_flush(l, op.arg != 0) == HT_ERR_OK, "flush-error", "flushing failed");
                else { stop_begin = std::min(stop_begin, ++tick); ht_file_dump_listener_stop(l); stop_end = std::min(stop_end, ++tick); }
            }
        });
    sched::run(t, bodies, preempt);
    c.note(fmt("%llu switches", (unsigned long long)sched::g_switches));
    ht_file_dump_listener_destroy(l);
    std::string s = content(path); size_t o = check_meta(s);
    std::vector<std::vector<Ev*>> all(nt); std::vector<size_t> next(nt, 0); std::vector<std::vector<Chunk*>> of(nt);
    for (size_t i = 0; i < nt; i++) for (auto& k : ch[i]) for (auto& e : k.ev) { all[i].push_back(&e); of[i].push_back(&k); }
    while (o < s.size())
    {
        PBT_CHECK(o + 20 <= s.size(), "torn-event", "the file ends inside an event");
        uint64_t id; memcpy(&id, s.data() + o + 12, 8); size_t ti = (size_t)(id >> 40);
        PBT_CHECK(ti < nt && next[ti] < all[ti].size(), "torn-event", "unexpected data at offset %zu of %zu (id %llx)", o, s.size(), (unsigned long long)id);
        while (next[ti] < all[ti].size() && all[ti][next[ti]]->id != id)
        {
            PBT_CHECK(of[ti][next[ti]]->end > stop_begin, "lost-event", "an event of thread %zu delivered before stop is missing or out of order", ti);
            next[ti]++;
        }
        PBT_CHECK(next[ti] < all[ti].size(), "duplicate-or-reordered", "event %llx of thread %zu appears twice or out of order", (unsigned long long)id, ti);
        std::string e = encode(*all[ti][next[ti]]);
        PBT_CHECK(s.compare(o, e.size(), e) == 0, "torn-event", "event %llx of thread %zu is damaged: %s", (unsigned long long)id, ti, diff_at(s.substr(o, e.size()), e).c_str());
        PBT_CHECK(of[ti][next[ti]]->begin < stop_end, "written-after-stop", "an event delivered after stop is in the file");
        o += e.size(); next[ti]++;
    }
    for (size_t i = 0; i < nt; i++) for (; next[i] < all[i].size(); next[i]++)
        PBT_CHECK(of[i][next[i]]->end > stop_begin, "lost-event", "an event of thread %zu delivered before stop is missing", i);
    unlink(path.c_str());
    ht_deinit();
    if (stop_begin != UINT64_MAX) c.label("stopped-concurrently");
    c.nontrivial = delivered >= 2 && sched::g_switches > nt;
}
pbt::Harness& pbt::harness() { static Harness h{"conc_filedump", run, {}, 30, false}; return h; }
#endif
