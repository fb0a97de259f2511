// C05: a reader used by several threads: class queries, waiting and stopping while a generated stream is read.
#include "wire_model.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <mutex>
#include <condition_variable>
using namespace wire;
using pbt::Case; using pbt::fail;
typedef std::chrono::steady_clock Clk;

// hands out the bytes in chunks, with pauses between them; continuous: waits for stop() once there is no more
class SlowStream : public hp::Stream
{
public:
    SlowStream(const std::string& b, std::vector<std::pair<size_t, unsigned>> pauses, bool cont, bool starts) : _b(b), _pauses(std::move(pauses)), _cont(cont), _starts(starts) {}
    bool start() override { std::lock_guard<std::mutex> l(_m); _p = _i = 0; _stopped = false; return _starts; }
    void stop() override { std::lock_guard<std::mutex> l(_m); _stopped = true; _cv.notify_all(); }
    bool is_continuous() override { return _cont; }
    int read_byte() override { return avail(1) ? (unsigned char)_b[_p++] : -1; }
    bool read_data(char* buf, size_t n) override
    {
        if (!avail(n)) return false;
        memcpy(buf, _b.data() + _p, n); _p += n; return true;
    }
private:
    bool avail(size_t n)
    {
        while (_i < _pauses.size() && _pauses[_i].first < _p + n)
        {
            unsigned us = _pauses[_i++].second;
            if (!us) std::this_thread::yield();
            else if (_cont) { std::unique_lock<std::mutex> l(_m); _cv.wait_for(l, std::chrono::microseconds(us), [this] { return _stopped; }); }
            else usleep(us);
        }
        std::unique_lock<std::mutex> l(_m);
        if (_cont && _stopped) return false;
        if (_b.size() - _p >= n) return true;
        if (_cont) _cv.wait(l, [this] { return _stopped; });
        return false;
    }
    const std::string& _b; size_t _p = 0, _i = 0; std::vector<std::pair<size_t, unsigned>> _pauses; bool _cont, _starts;
    std::mutex _m; std::condition_variable _cv; bool _stopped = false;
};

struct Err
{
    std::mutex m; std::string key, msg;
    void set(const char* k, const std::string& s) { std::lock_guard<std::mutex> l(m); if (key.empty()) { key = k; msg = s; } }
};

// what a querying thread sees of the classes only grows, towards the description in the stream
struct Watcher
{
    const Stream& st; const hp::KlassRegister& reg; Err& err; std::map<size_t, size_t> seen;
    std::map<uint32_t, std::vector<std::string>> want;
    Watcher(const Stream& s, const hp::KlassRegister& r, Err& e) : st(s), reg(r), err(e)
    {
        for (auto& k : st.klasses) { auto& w = want[k.id]; w.push_back("base"); for (auto& f : k.own) w.push_back(f.name); }
    }
    void look(size_t ki, unsigned how)
    {
        const Klass& k = st.klasses[ki];
        bool before = reg.klass_exists(k.id);
        std::shared_ptr<const hp::EventKlass> kl;
        switch (how % 4)
        {
        case 0: kl = reg.get_klass(k.id); break;
        case 1: kl = reg.get_klass(k.name); break;
        case 2: { auto m = reg.get_klasses(); auto it = m.find(k.id); if (it != m.end()) kl = it->second; if (m.size() > st.klasses.size() + 4 || m.size() < 4) err.set("classes", fmt("%zu classes registered, the stream has %zu", m.size(), st.klasses.size())); break; }
        default: { auto id = reg.get_klass_id(k.name); if (id != HT_INVALID_KLASS_ID) { if (id != k.id) err.set("classes", fmt("class %s has id %u, expected %u", k.name.c_str(), id, k.id)); kl = reg.get_klass(id); } }
        }
        if (!kl) { if (before || seen.count(ki)) err.set("class-gone", fmt("class %s was registered but is not found (query %u)", k.name.c_str(), how % 4)); return; }
        if (kl->get_id() != k.id || kl->get_name() != k.name) { err.set("classes", fmt("query for class %s (%u) gives %s (%u)", k.name.c_str(), k.id, kl->get_name().c_str(), kl->get_id())); return; }
        auto fs = kl->get_fields(); auto& w = want[k.id];
        if (fs.size() > w.size() || fs.size() < seen[ki]) { err.set("fields", fmt("class %s has %zu fields (%zu seen before, %zu described)", k.name.c_str(), fs.size(), seen[ki], w.size())); return; }
        for (size_t i = 0; i < fs.size(); i++) if (fs[i]->get_name() != w[i]) { err.set("fields", fmt("field %zu of class %s is %s, expected %s", i, k.name.c_str(), fs[i]->get_name().c_str(), w[i].c_str())); return; }
        seen[ki] = fs.size();
        if (fs.empty()) return;
        size_t fi = how / 4 % fs.size(); auto f = kl->get_field(w[fi].c_str(), how & 1);
        if (!f || f->get_name() != w[fi]) err.set("fields", fmt("field %s of class %s is not found", w[fi].c_str(), k.name.c_str()));
        if (how & 1) { auto ts = kl->get_field("timestamp", true); if (!ts || ts->get_type_id() != hp::FieldTypeId::UINT64) err.set("fields", fmt("class %s has no timestamp", k.name.c_str())); }
    }
};

static void run(Case& c)
{
    auto& t = c.t;
    bool flat = t.coin();
    Stream st = gen_stream(t, t.chance(1, 4), 6, 24);
    bool cont = t.coin();
    std::vector<std::pair<size_t, unsigned>> pauses; size_t np = t.draw(8);
    for (size_t i = 0; i < np; i++) pauses.push_back({t.draw(st.bytes.size()), (unsigned)t.pick<uint64_t>({0, 1, 50, 300, 1500})});
    std::sort(pauses.begin(), pauses.end());
    bool starts = !t.chance(1, 20);
    enum Stop { NONE, MAIN, CALLBACK, DTOR, ENDED }; Stop stop = (Stop)t.weighted({3, 4, 3, 2, 2});
    if (cont && stop == NONE) stop = ENDED;                        // stopped after the last event arrived
    size_t stop_at = t.draw(st.items.size() - 1); unsigned stop_us = (unsigned)t.pick<uint64_t>({0, 0, 20, 200, 1000, 3000});
    bool stop_again = t.coin(), keep = t.coin(), early = t.coin(); unsigned again = stop == NONE && starts ? (unsigned)t.weighted({4, 1, 1}) : 0;   // read once more, 1: without stop()
    struct Q { std::vector<std::pair<size_t, unsigned>> ops; unsigned pause; bool wait; };
    std::vector<Q> qs; size_t nq = t.draw(3);
    for (size_t i = 0; i < nq; i++)
    {
        Q q; size_t n = 1 + t.draw(12); q.wait = t.chance(1, 3); q.pause = (unsigned)t.pick<uint64_t>({0, 0, 30, 300});
        for (size_t j = 0; j < n; j++) q.ops.push_back({t.draw(st.klasses.size() - 1), (unsigned)t.draw(63)});
        qs.push_back(q);
    }
    static const char* sn[] = {"no stop", "stop by the main thread", "stop by a callback", "destroyed while reading", "stop after the last event"};
    c.note(fmt("%zu classes, %zu items, %zu bytes, %s, %zu pauses, %zu querying threads, %s (event %zu, %u us)", st.klasses.size(), st.items.size(), st.bytes.size(), cont ? "continuous" : "finite", np, nq, sn[stop], stop_at, stop_us));
    c.label(sn[stop]); c.label(cont ? "continuous" : "finite");

    Err err; size_t n = 0; std::atomic<size_t> published{0}; std::atomic<bool> ended{false}, stopped{false};
    std::vector<hp::Event> kept; std::vector<size_t> kept_i; std::mutex km;
    hp::KlassRegister reg;
    std::vector<std::thread> th;
    {
        std::unique_ptr<hp::ProtocolReader> rd(new hp::ProtocolReader(&reg, std::unique_ptr<hp::Stream>(new SlowStream(st.bytes, pauses, cont, starts)), flat));
        hp::ProtocolReader* r = rd.get();
        Watcher cbw(st, reg, err);
        rd->register_events_listener([&](const hp::Event& e) {
            if (stopped) err.set("late-event", fmt("event %zu is delivered after stop() returned", n));
            if (n >= st.items.size()) { err.set("extra-events", "more events than the stream has"); return; }
            auto& it = st.items[n];
            std::string m = cmp(st, it, e, flat); if (!m.empty()) err.set("event-differs", fmt("event %zu of %zu: %s", n, st.items.size(), m.c_str()));
            if (it.type == Item::INSTANCE) { cbw.look((size_t)it.ev.k, (unsigned)n); if (cbw.seen[(size_t)it.ev.k] != st.klasses[(size_t)it.ev.k].own.size() + 1) err.set("fields", "a class has not all its fields when its instance is delivered"); }
            if (keep && n % 3 == 0) { std::lock_guard<std::mutex> l(km); kept.push_back(e); kept_i.push_back(n); }
            if (stop == CALLBACK && n == stop_at) r->stop();
            n++; published = n;
        });
        auto work = [&](const Q& q) {
            Watcher w(st, reg, err);
            for (size_t pass = 0; pass < 40; pass++)
            {
                bool last = ended;
                for (auto& o : q.ops) w.look(o.first, o.second);
                if (keep)
                {
                    hp::Event copy(reg.get_klass((HT_EventKlassId)ID_EVENT)); size_t ci = SIZE_MAX;
                    { std::lock_guard<std::mutex> l(km); if (!kept.empty()) { ci = pass % kept.size(); copy = kept[ci]; ci = kept_i[ci]; } }
                    if (ci != SIZE_MAX) { std::string m = cmp(st, st.items[ci], copy, flat); if (!m.empty()) err.set("event-differs", fmt("copy of event %zu: %s", ci, m.c_str())); }
                }
                if (last) break;
                if (q.pause) usleep(q.pause);
            }
            if (q.wait) { r->wait_for_complete(); if (!r->eos()) err.set("not-eos", "wait_for_complete() returned but eos() is false"); }
        };
        // threads that wait may not outlive the reader
        if (early) for (auto& q : qs) if (!q.wait) th.emplace_back(work, std::cref(q));
        bool ok = rd->start();
        PBT_CHECK(ok == starts, "start-failed", "start() returned %d, the source's start %d", ok, starts);
        std::vector<std::thread> waiters;
        for (auto& q : qs) if (q.wait) waiters.emplace_back(work, std::cref(q)); else if (!early) th.emplace_back(work, std::cref(q));
        if (!ok) { rd->wait_for_complete(); PBT_CHECK(rd->eos(), "not-eos", "eos() is false though the reader never started"); rd->stop(); }
        else switch (stop)
        {
        case NONE: rd->wait_for_complete(); if (!rd->eos()) err.set("not-eos", "wait_for_complete() returned but eos() is false"); if (n != st.items.size()) err.set("events-missing", fmt("reading completed with %zu of %zu events", n, st.items.size()));
            if (again)
            {
                if (again == 2) rd->stop();
                for (auto& x : waiters) x.join();                      // start() mustn't be called while others wait for the end
                waiters.clear(); n = 0; c.label("read again");
                if (!rd->start()) err.set("start-failed", "the reader did not start again");
                else { rd->wait_for_complete(); if (!rd->eos()) err.set("not-eos", "wait_for_complete() returned but eos() is false"); if (n != st.items.size()) err.set("events-missing", fmt("reading again completed with %zu of %zu events", n, st.items.size())); }
            }
            break;
        case MAIN: if (stop_us) usleep(stop_us); rd->stop(); stopped = true; if (!rd->eos()) err.set("not-eos", "stopped but eos() is false"); break;
        case ENDED: { auto t0 = Clk::now(); while (published < st.items.size() && Clk::now() - t0 < std::chrono::seconds(20)) usleep(100); if (published < st.items.size()) err.set("events-missing", fmt("%zu of %zu events arrive before the source waits for more", published.load(), st.items.size())); rd->stop(); stopped = true; break; }
        case CALLBACK: if (stop_us & 1) usleep(stop_us); rd->wait_for_complete(); break;
        case DTOR: if (stop_us) usleep(stop_us); break;
        }
        if (stop_again) { rd->stop(); rd->wait_for_complete(); if (!rd->eos()) err.set("not-eos", "stopped but eos() is false"); }
        ended = true;
        if (stop == DTOR && !stop_again && !waiters.empty()) rd->stop();   // threads that wait need an end; a continuous source has none
        for (auto& x : waiters) x.join();
        rd.reset();
        stopped = true;
    }
    for (auto& x : th) x.join();
    if (!err.key.empty()) fail(err.key, err.msg);
    size_t expect = !starts ? 0 : stop == CALLBACK && !(stop_again) ? stop_at + 1 : SIZE_MAX;
    if (expect != SIZE_MAX) PBT_CHECK(n == expect, "stop-late", "%zu events were delivered, %s", n, starts ? fmt("the callback stopped reading at number %zu", stop_at + 1).c_str() : "the source did not start");
    if (starts && (stop == NONE || stop == ENDED)) PBT_CHECK(n == st.items.size(), "events-missing", "%zu of %zu events were delivered", n, st.items.size());
    for (size_t i = 0; i < kept.size(); i++) { std::string m = cmp(st, st.items[kept_i[i]], kept[i], flat); PBT_CHECK(m.empty(), "event-differs", "copy of event %zu, after reading: %s", kept_i[i], m.c_str()); }
    kept_i.clear();
    c.nontrivial = starts && n >= 2 && nq;
}
pbt::Harness& pbt::harness() { static Harness h{"parser_threads", run, {}, 30, false}; return h; }
