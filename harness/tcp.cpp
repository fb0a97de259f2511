// C14: every client of a TCP listener receives the metadata and then the complete live stream, whatever other
// clients do; stopping is idempotent and releases everything.
#include "events_model.hpp"
#include "meta_model.hpp"
#include <hawktracer/init.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <thread>
#include <mutex>
#include <atomic>
#include <memory>
#include <condition_variable>
using namespace model;
using pbt::Case;

// send() as POSIX allows it to behave: in generated cases it is interrupted or takes only part of the data
static std::atomic<unsigned> g_send_mode(0), g_send_n(0);
extern "C" ssize_t send(int fd, const void* b, size_t n, int flags)
{
    unsigned mode = g_send_mode, i = g_send_n++;
    if (mode)
    {
        unsigned h = (i * 2654435761u) ^ (mode * 40503u); h ^= h >> 13;
        if (h % 5 == 0) { errno = EINTR; return -1; }
        if (h % 5 < 3 && n > 1) n = 1 + (h / 7) % (n - 1);
    }
    return sendto(fd, b, n, flags, nullptr, 0);
}

// accept() may fail without the listener being to blame, and creating the listener may fail at any of its steps
static std::atomic<unsigned> g_accept_mode(0), g_accept_n(0);
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l)
{
    static const int errs[] = {EINTR, ECONNABORTED, EMFILE, EAGAIN, ENOBUFS, EPROTO};
    unsigned mode = g_accept_mode, i = g_accept_n++;
    if (mode && i % (1 + mode % 4) != 0) { errno = errs[(mode / 4 + i) % 6]; return -1; }
    return accept4(fd, a, l, 0);
}
enum { F_NONE, F_SOCKET, F_SETSOCKOPT, F_BIND, F_LISTEN, F_THREAD };
static int g_fault = F_NONE; static bool g_fault_hit;   // set while the main thread creates a listener
static bool faulty(int f, int err) { if (g_fault != f) return false; g_fault_hit = true; errno = err; return true; }
extern "C" int socket(int d, int ty, int p) noexcept { if (faulty(F_SOCKET, EMFILE)) return -1; return (int)syscall(SYS_socket, d, ty, p); }
extern "C" int setsockopt(int s, int lv, int o, const void* v, socklen_t l) noexcept { if (faulty(F_SETSOCKOPT, ENOPROTOOPT)) return -1; return (int)syscall(SYS_setsockopt, s, lv, o, v, l); }
extern "C" int bind(int s, const struct sockaddr* a, socklen_t l) noexcept { if (faulty(F_BIND, EACCES)) return -1; return (int)syscall(SYS_bind, s, a, l); }
extern "C" int listen(int s, int n) noexcept { if (faulty(F_LISTEN, EADDRINUSE)) return -1; return (int)syscall(SYS_listen, s, n); }
extern "C" int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*f)(void*), void* u) noexcept { if (faulty(F_THREAD, EAGAIN)) return EAGAIN; return __interceptor_pthread_create(th, a, f, u); }

static void collect(TEventPtr d, size_t n, HT_Boolean, void* ud) { ((std::string*)ud)->append((const char*)d, n); }
static size_t open_fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }

// a port nobody else uses: outside the ephemeral range, and reserved among concurrent cases by an abstract socket
static int reserve_port(int& lock_fd)
{
    for (int i = 0; i < 2000; i++)
    {
        int port = 10000 + (int)(((unsigned)getpid() * 7919u + (unsigned)i * 104729u) % 20000u);
        lock_fd = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un u{}; u.sun_family = AF_UNIX; int n = snprintf(u.sun_path + 1, 80, "htverif.port.%d", port);
        if (bind(lock_fd, (sockaddr*)&u, (socklen_t)(sizeof(sa_family_t) + 1 + (size_t)n)) != 0) { close(lock_fd); continue; }
        int s = socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); a.sin_port = htons((uint16_t)port);
        bool ok = bind(s, (sockaddr*)&a, sizeof a) == 0 && listen(s, 1) == 0; close(s);
        if (ok) return port;
        close(lock_fd);
    }
    pbt::broken("no free port");
}

enum { SRC = 3, CBSRC = 2 };   // event sources: main thread, second thread, client-connected callback
struct Known { std::string bytes; };
static std::mutex g_km; static std::vector<std::string> g_known[SRC];    // encoded events by source and index
static std::atomic<size_t> g_started[SRC];                                // events whose delivery has begun
static uint64_t mk_id(size_t src, size_t idx) { return ((uint64_t)(src + 1) << 48) | idx; }

struct Client
{
    int fd = -1; int port = 0; size_t slow = 0; size_t metalen = 0;
    std::thread th; std::mutex m; std::condition_variable cv; std::string data; bool eof = false, metadone = false, gone = false, halfclosed = false;
    size_t started_at[SRC] = {0, 0, 0};
    void reader()
    {
        std::vector<char> b(slow ? 64 + slow : 65536);
        for (;;)
        {
            ssize_t n = recv(fd, b.data(), b.size(), 0);
            std::lock_guard<std::mutex> g(m);
            if (n <= 0) { eof = true; cv.notify_all(); return; }
            data.append(b.data(), (size_t)n);
            if (!metadone && data.size() >= metalen) { metadone = true; for (int s = 0; s < SRC; s++) started_at[s] = g_started[s]; cv.notify_all(); }
            if (slow && slow % 3 == 0) usleep(200);
        }
    }
    bool wait(bool Client::*what) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::seconds(15), [&] { return this->*what || (eof && what != &Client::eof); }) && this->*what; }
};

struct Chunk { std::deque<Inst> in; std::string enc; std::vector<uint64_t> raw; bool ser = true; size_t n = 0; };
static void add_event(Chunk& k, Ev e, size_t src, size_t idx)
{
    e.id = mk_id(src, idx); std::string b = encode(e);
    { std::lock_guard<std::mutex> g(g_km); if (g_known[src].size() != idx) abort(); g_known[src].push_back(b); }
    k.enc += b; k.in.emplace_back(); fill(k.in.back(), e);
    size_t sz = klasses()[(size_t)e.k].size / 8, o = k.raw.size(); k.raw.resize(o + sz); memcpy(k.raw.data() + o, k.in.back().mem.data(), sz * 8);
    k.n++;
}
static void gen_chunk(pbt::Tape& t, Chunk& k, size_t src, size_t& idx, bool big)
{
    k.ser = !t.chance(1, 3);
    if (big && t.chance(1, 4))   // many bytes at once
    {
        size_t n = 50 + t.draw(400); Ev e = gen_event(t, (int)t.draw(I_COUNT - 1), 200);
        for (size_t i = 0; i < n; i++) add_event(k, e, src, idx++);
        return;
    }
    size_t n = 1 + t.draw(9);
    for (size_t i = 0; i < n; i++) add_event(k, gen_event(t, (int)t.draw(I_COUNT - 1), big ? 300 : 20), src, idx++);
}
static void deliver(HT_TCPListener* l, Chunk& k, size_t src)
{
    g_started[src] += k.n;
    if (k.ser) { std::vector<unsigned char> b(k.enc.begin(), k.enc.end()); ht_tcp_listener_callback(b.data(), b.size(), HT_TRUE, l); memset(b.data(), 0x5A, b.size()); }
    else ht_tcp_listener_callback((TEventPtr)k.raw.data(), k.raw.size() * 8, HT_FALSE, l);
}

struct Cb { HT_TCPListener* l = nullptr; std::mutex m; std::vector<int> ports; bool push = false; size_t idx = 0; std::vector<int> ev_port; };
static void on_connected(int fd, void* ud)
{
    Cb* cb = (Cb*)ud; sockaddr_in a{}; socklen_t n = sizeof a;
    int port = getpeername(fd, (sockaddr*)&a, &n) == 0 ? ntohs(a.sin_port) : -1;
    std::lock_guard<std::mutex> g(cb->m);
    struct Done { Cb* cb; int port; ~Done() { cb->ports.push_back(port); } } done{cb, port};
    if (!cb->push) return;
    Chunk k; k.ser = cb->idx % 2 == 0;
    Ev e; e.k = I_KU8; e.ts = (uint64_t)port; e.vals.resize(1); e.vals[0].u = cb->idx & 255;
    add_event(k, e, CBSRC, cb->idx++);
    deliver(cb->l, k, CBSRC);
}

static int connect_to(int port, int rcvbuf, int& local)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) return -1;
    if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t)port);
    if (connect(fd, (sockaddr*)&a, sizeof a) != 0) { close(fd); return -1; }
    socklen_t n = sizeof a; getsockname(fd, (sockaddr*)&a, &n); local = ntohs(a.sin_port);
    return fd;
}

// the data after the metadata: whole events, each as delivered, contiguous per source; to the end if `complete`
static void check_stream(Client& c, size_t who, bool complete, const std::string& ref, const size_t* total)
{
    std::string d = c.data;
    if (d.size() < c.metalen && !complete) { return; }
    std::vector<meta::M> a, b; size_t o = meta::read_all(d, a); meta::read_all(ref, b);
    std::string r = meta::same(a, b);
    PBT_CHECK(r.empty(), "metadata", "client %zu: %s", who, r.c_str());
    size_t next[SRC]; bool seen[SRC] = {false, false, false};
    while (o < d.size())
    {
        Ev e; size_t n = decode((const unsigned char*)d.data() + o, d.size() - o, e);
        size_t src = SIZE_MAX, idx = 0;
        if (d.size() - o >= 20) { uint64_t id; memcpy(&id, d.data() + o + 12, 8); src = (size_t)(id >> 48) - 1; idx = id & 0xffffffffffffULL; }
        std::lock_guard<std::mutex> g(g_km);
        bool known = src < SRC && idx < g_known[src].size();
        if (!n)
        {
            bool partial = d.size() - o < 20 || (known && d.compare(o, std::string::npos, g_known[src][idx], 0, d.size() - o) == 0 && d.size() - o < g_known[src][idx].size());
            PBT_CHECK(partial && !complete, "torn", "client %zu: %zu bytes at %zu of %zu are not an event%s", who, d.size() - o, o, d.size(), partial ? " (cut off)" : "");
            break;
        }
        PBT_CHECK(known, "unknown-event", "client %zu: event at %zu has unknown id %llx", who, o, (unsigned long long)e.id);
        PBT_CHECK(d.compare(o, n, g_known[src][idx]) == 0, "event-differs", "client %zu: event %zu of source %zu differs: %s", who, idx, src, diff_at(d.substr(o, n), g_known[src][idx]).c_str());
        if (!seen[src]) { PBT_CHECK(idx <= c.started_at[src], "events-missing", "client %zu: the first event of source %zu is %zu, but only %zu had been delivered when the client had its metadata", who, src, idx, c.started_at[src]); seen[src] = true; }
        else PBT_CHECK(idx == next[src], "not-contiguous", "client %zu: event %zu of source %zu follows %zu", who, idx, src, next[src] - 1);
        next[src] = idx + 1; o += n;
    }
    if (complete)
        for (size_t s = 0; s < SRC; s++)
            PBT_CHECK(seen[s] ? next[s] >= total[s] : c.started_at[s] >= total[s], "events-missing", "client %zu: received events of source %zu up to %zu, delivered were %zu (at its metadata: %zu)", who, s, seen[s] ? next[s] : 0, total[s], c.started_at[s]);
}

static void run(Case& c)
{
    auto& t = c.t;
    ht_init(0, nullptr); register_all();
    for (auto& x : g_started) x = 0;
    std::string ref; ht_timeline_listener_push_metadata(collect, &ref, HT_TRUE);
    int lock_fd, port = reserve_port(lock_fd);
    size_t fds0 = open_fds();
    size_t lbuf; switch (t.weighted({3, 2, 2})) { case 0: lbuf = t.draw(200); break; case 1: lbuf = t.pick<size_t>({0, 1, 2, 20, 64, 1024, 4096, 65536}); break; default: lbuf = t.draw(5000); }
    bool via_timeline = t.chance(1, 3), big = t.coin(), use_cb = t.coin();
    if (t.coin()) g_send_mode = 1 + (unsigned)t.draw(1000);
    if (t.chance(1, 3)) g_accept_mode = 1 + (unsigned)t.draw(1000);
    HT_ErrorCode err = HT_ERR_OK; HT_Timeline* tl = nullptr; HT_TCPListener* l;
    if (t.chance(1, 4))   // creation failing at one of its steps: an error, and nothing stays behind
    {
        int f = 1 + (int)t.draw(4); const char* names[] = {"", "socket", "socket option", "bind", "listen", "thread"};
        HT_ErrorCode e2 = HT_ERR_OK;
        g_fault = f; g_fault_hit = false;
        HT_TCPListener* l2 = ht_tcp_listener_create(port, lbuf, &e2);
        g_fault = F_NONE;
        if (g_fault_hit)
        {
            c.note(fmt("creation without %s", names[f])); c.label(fmt("fault:%s", names[f]));
            PBT_CHECK(f == F_SETSOCKOPT || (!l2 && e2 != HT_ERR_OK), "fault-ignored", "creating a listener returned %s and error %d although its %s failed", l2 ? "a listener" : "none", (int)e2, names[f]);
        }
        if (l2) ht_tcp_listener_destroy(l2);
        PBT_CHECK(open_fds() == fds0, "fd-leak", "%zu descriptors open before a failed creation, %zu after", fds0, open_fds());
    }
    if (via_timeline) { tl = ht_timeline_create(t.scaled(2000), t.coin(), t.coin(), nullptr, nullptr); l = ht_tcp_listener_register(tl, port, lbuf, &err); }
    else l = ht_tcp_listener_create(port, lbuf, &err);
    PBT_CHECK(l && err == HT_ERR_OK, "create-failed", "listener creation failed with %d", (int)err);
    Cb cb; cb.l = l; cb.push = use_cb && t.coin();
    if (use_cb) ht_tcp_listener_set_on_client_connected_callback(l, on_connected, &cb);
    c.note(fmt("buffer %zu, %s, callback %d%s", lbuf, via_timeline ? "through a timeline" : "direct", use_cb, cb.push ? " pushing" : "") + (g_send_mode ? ", partial sends" : "") + (g_accept_mode ? ", failing accepts" : ""));

    // work of a second thread, prepared up front
    std::deque<Chunk> mine, theirs; size_t idx[SRC] = {0, 0, 0};
    if (!via_timeline && t.chance(1, 3)) { size_t n = 1 + t.count(30); for (size_t i = 0; i < n; i++) { theirs.emplace_back(); gen_chunk(t, theirs.back(), 1, idx[1], big); } }
    std::thread second([&] { for (auto& k : theirs) deliver(l, k, 1); });

    std::vector<std::unique_ptr<Client>> cl; size_t delivered = 0, vanished = 0; bool second_listener = false; std::vector<int> all_ports;
    size_t n = 1 + t.count(40);
    for (size_t i = 0; i < n; i++)
        switch (t.weighted({8, 4, 2, 2, 1, 1}))
        {
        case 0:   // deliver
        {
            mine.emplace_back(); Chunk& k = mine.back();
            gen_chunk(t, k, 0, idx[0], big); delivered += k.n;
            c.note(fmt("deliver %zu events, %zu bytes, %s", k.n, k.enc.size(), k.ser ? "serialized" : "raw"));
            if (via_timeline) { for (auto& in : k.in) { g_started[0]++; ht_timeline_push_event(tl, in.ev()); } if (t.coin()) ht_timeline_flush(tl); }
            else deliver(l, k, 0);
            break;
        }
        case 1:   // connect
        case 2:
        {
            if (cl.size() >= 20) break;
            bool wait = t.coin(), slow = t.chance(1, 4);
            std::unique_ptr<Client> k(new Client); k->metalen = ref.size(); k->slow = slow ? 1 + t.draw(200) : 0;
            k->fd = connect_to(port, slow ? 2048 : 0, k->port);
            PBT_CHECK(k->fd >= 0, "connect-failed", "client %zu could not connect: %s", cl.size(), strerror(errno));
            all_ports.push_back(k->port);
            Client* q = k.get(); k->th = std::thread([q] { q->reader(); });
            c.note(fmt("client %zu connects%s%s", cl.size(), slow ? ", reads slowly" : "", wait ? ", waits for its metadata" : ""));
            if (wait) PBT_CHECK(k->wait(&Client::metadone), "no-metadata", "client %zu: no metadata (%zu of %zu bytes%s)", cl.size(), k->data.size(), ref.size(), k->eof ? ", connection closed" : "");
            cl.push_back(std::move(k));
            break;
        }
        case 3:   // a client vanishes
        {
            if (cl.empty()) break;
            size_t w = t.draw(cl.size() - 1); Client& k = *cl[w]; int how = (int)t.draw(2);
            if (k.gone) break;
            c.note(fmt("client %zu %s", w, how == 0 ? "closes" : how == 1 ? "resets" : "half-closes"));
            if (how == 2) { ::shutdown(k.fd, SHUT_WR); k.halfclosed = true; break; }
            k.gone = true; vanished++;
            ::shutdown(k.fd, SHUT_RD);   // wakes the reader
            k.th.join();
            if (how == 1) { linger lg{1, 0}; setsockopt(k.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
            ::close(k.fd); k.fd = -1;
            break;
        }
        case 4:   // port in use
        {
            if (second_listener) break; second_listener = true;
            size_t before = open_fds(); HT_ErrorCode e2 = HT_ERR_OK;
            HT_TCPListener* l2 = ht_tcp_listener_create(port, t.draw(300), &e2);
            PBT_CHECK(!l2 && e2 != HT_ERR_OK, "port-shared", "a second listener got a port in use (error %d)", (int)e2);
            (void)before; c.note("second listener on the port rejected");
            break;
        }
        default:  // connect and vanish at once
        {
            int local, fd = connect_to(port, 0, local);
            PBT_CHECK(fd >= 0, "connect-failed", "could not connect: %s", strerror(errno));
            all_ports.push_back(local);
            if (t.coin()) { linger lg{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
            ::close(fd); vanished++; c.note("a client connects and vanishes");
        }
        }
    second.join();
    bool settle = t.chance(3, 4);   // otherwise stop while clients may still be waiting for acceptance
    if (settle)
        for (size_t w = 0; w < cl.size(); w++)
            if (!cl[w]->gone) PBT_CHECK(cl[w]->wait(&Client::metadone), "no-metadata", "client %zu: no metadata (%zu of %zu bytes)", w, cl[w]->data.size(), ref.size());
    if (settle && use_cb)
    {
        auto calls = [&](int port) { std::lock_guard<std::mutex> g(cb.m); return (size_t)std::count(cb.ports.begin(), cb.ports.end(), port); };
        for (size_t w = 0; w < cl.size(); w++)
        {
            if (cl[w]->gone) continue;
            for (int z = 0; z < 10000 && !calls(cl[w]->port); z++) usleep(1000);
            size_t m = calls(cl[w]->port), conns = (size_t)std::count(all_ports.begin(), all_ports.end(), cl[w]->port);
            PBT_CHECK(m >= 1 && m <= conns, "callback", "the client-connected callback ran %zu times for client %zu", m, w);
        }
    }
    if (tl) ht_timeline_flush(tl);
    // stop (possibly several times, possibly from two threads, possibly only by destroying)
    int stops = (int)t.draw(2); bool two = t.chance(1, 5);
    c.note(fmt("%d stops%s%s", stops, two ? " and one in another thread" : "", settle ? "" : ", without waiting"));
    size_t total[SRC]; { std::lock_guard<std::mutex> g0(cb.m), g(g_km); for (int s = 0; s < SRC; s++) total[s] = g_known[s].size(); }
    if (two) { std::thread x([&] { ht_tcp_listener_stop(l); }); ht_tcp_listener_stop(l); x.join(); }
    for (int i = 0; i < stops; i++) ht_tcp_listener_stop(l);
    bool stopped = two || stops;
    if (stopped)   // ignored
    {
        Chunk k; size_t x = 0; Ev e = gen_event(t, 0); e.id = mk_id(6, x); k.enc = encode(e); deliver(l, k, 0); c.label("deliver-after-stop");
        int local, fd = connect_to(port, 0, local);
        PBT_CHECK(fd < 0, "port-open", "a client could connect after the listener was stopped");
    }
    if (tl) ht_timeline_destroy(tl); else ht_tcp_listener_destroy(l);
    for (size_t w = 0; w < cl.size(); w++)
        if (!cl[w]->gone) PBT_CHECK(cl[w]->wait(&Client::eof), "not-closed", "client %zu: connection still open after the listener was destroyed", w);
    const std::string* longest = nullptr; size_t checked = 0; std::vector<std::string> tails;
    for (size_t w = 0; w < cl.size(); w++)
    {
        Client& k = *cl[w];
        if (k.th.joinable()) k.th.join();
        if (k.fd >= 0) close(k.fd);
        bool complete = !k.gone && settle;
        check_stream(k, w, complete, ref, total);
        if (complete)
        {
            checked++; tails.push_back(k.data.substr(k.metalen));
            if (cb.push) { bool own = false; for (size_t z = 0; z < g_known[CBSRC].size(); z++) { uint64_t ts; memcpy(&ts, g_known[CBSRC][z].data() + 4, 8); if (ts == (uint64_t)k.port && k.data.find(g_known[CBSRC][z]) != std::string::npos) own = true; } PBT_CHECK(own, "callback-event", "client %zu did not receive the event pushed in its client-connected callback", w); }
        }
    }
    for (auto& s : tails) if (!longest || s.size() > longest->size()) longest = &s;
    for (auto& s : tails) PBT_CHECK(longest->compare(longest->size() - s.size(), std::string::npos, s) == 0, "clients-disagree", "two clients received events in different order");
    PBT_CHECK(open_fds() == fds0, "fd-leak", "%zu descriptors open before, %zu after", fds0, open_fds());
    // the port is free again
    if (t.chance(1, 2))
    {
        HT_TCPListener* l3 = ht_tcp_listener_create(port, 100, &err);
        PBT_CHECK(l3 && err == HT_ERR_OK, "port-not-released", "the port cannot be used again (error %d)", (int)err);
        ht_tcp_listener_destroy(l3);
    }
    c.label(fmt("clients:%s", cl.size() > 3 ? ">3" : fmt("%zu", cl.size()).c_str())); if (vanished) c.label("vanished"); if (!theirs.empty()) c.label("two-threads");
    c.nontrivial = checked >= 1 && delivered >= 3;
    ht_deinit();
}
namespace pbt { Harness& harness() { static Harness h{"tcp", run, {}, 60, true}; return h; } }
