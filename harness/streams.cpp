// C15: file and TCP streams hand over exactly their source's bytes, then end; stopping unblocks.
#include "pbt.hpp"
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <hawktracer/parser/event.hpp>
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <hawktracer/client_utils/stream_factory.hpp>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <thread>
#include <atomic>
#include <memory>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
using pbt::Case; using pbt::fail; using pbt::fmt;
namespace hp = HawkTracer::parser;

struct Server
{
    int lfd = -1; uint16_t port = 0; int cfd = -1;
    explicit Server(bool late = false)   // late: listens later
    {
        lfd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0;
        socklen_t l = sizeof a;
        if (lfd < 0 || bind(lfd, (sockaddr*)&a, sizeof a) || (!late && listen(lfd, 4)) || getsockname(lfd, (sockaddr*)&a, &l)) pbt::broken("no loopback");
        port = ntohs(a.sin_port);
    }
    void accept1() { cfd = ::accept(lfd, nullptr, nullptr); int one = 1; setsockopt(cfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
    void send_all(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = ::send(cfd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (n <= 0) return; o += (size_t)n; } }
    void hangup(bool reset) { if (cfd < 0) return; if (reset) { linger l{1, 0}; setsockopt(cfd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(cfd); cfd = -1; }
};
struct Act { size_t n; };  // 0: single byte, otherwise block of n

static std::string gen_bytes(pbt::Tape& t, size_t max)
{
    std::string s; size_t n = t.count(max);
    while (s.size() < n)
        switch (t.weighted({3, 1, 1}))
        {
        case 0: s += (char)t.draw(255); break;
        case 1: s.append(1 + t.draw(40), (char)t.pick<uint64_t>({0, 255, 128, 127, 10, 26, 13})); break;
        default: { size_t m = t.scaled(4000); uint64_t x = t.draw(UINT64_MAX); for (size_t i = 0; i < m; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; s += (char)(x >> 56); } }
        }
    return s;
}
// reads everything with a generated mix of reads; the end must come exactly at the end
static void read_and_check(Case& c, hp::Stream& s, const std::string& src, const std::vector<size_t>& reads, const char* what)
{
    size_t o = 0, i = 0; std::string buf;
    while (true)
    {
        size_t n = reads[i++ % reads.size()];
        if (n == 0)
        {
            int b = s.read_byte();
            if (o < src.size())
            {
                PBT_CHECK(b >= 0, "early-end", "%s: read_byte reports the end (%d) at byte %zu of %zu (next byte %02x)", what, b, o, src.size(), (unsigned char)src[o]);
                PBT_CHECK(b == (unsigned char)src[o], "wrong-byte", "%s: byte %zu is %02x, read_byte returned %d", what, o, (unsigned char)src[o], b);
                o++;
            }
            else { PBT_CHECK(b < 0, "data-past-end", "%s: read_byte returned %d after all %zu bytes", what, b, src.size()); break; }
        }
        else
        {
            buf.assign(n + 8, '\x5a');
            bool ok = s.read_data(&buf[0], n);
            if (src.size() - o >= n)
            {
                PBT_CHECK(ok, "early-end", "%s: reading %zu bytes at %zu of %zu failed", what, n, o, src.size());
                PBT_CHECK(buf.compare(0, n, src, o, n) == 0, "wrong-bytes", "%s: %zu bytes at %zu differ from the source", what, n, o);
                PBT_CHECK(buf.compare(n, 8, std::string(8, '\x5a')) == 0, "overrun", "%s: read of %zu bytes wrote beyond the buffer", what, n);
                o += n;
            }
            else { PBT_CHECK(!ok, "false-success", "%s: reading %zu bytes at %zu of %zu succeeded", what, n, o, src.size()); break; }
        }
    }
    // the end is final
    for (int z = 0; z < 2; z++) { PBT_CHECK(s.read_byte() < 0, "data-past-end", "%s: a byte after the end", what); char b[4]; PBT_CHECK(!s.read_data(b, 2), "false-success", "%s: block read after the end succeeded", what); }
    (void)c;
}
static std::vector<size_t> gen_reads(pbt::Tape& t)
{
    std::vector<size_t> v; size_t n = 1 + t.draw(12);
    for (size_t i = 0; i < n; i++) v.push_back(t.weighted({2, 3}) == 0 ? 0 : (t.chance(1, 5) ? 1 + t.draw(5000) : 1 + t.draw(40)));
    return v;
}
static size_t open_fds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

// a stream without a source has no bytes
static void no_bytes(hp::Stream& s, const char* what)
{
    char b[4];
    PBT_CHECK(s.read_byte() < 0, "data-past-end", "%s has a byte", what);
    PBT_CHECK(!s.read_data(b, 2), "false-success", "a block read from %s succeeded", what);
}
// a file whose bytes arrive in chunks: a named pipe
static void run_fifo(Case& c, const std::string& src, const std::vector<size_t>& reads)
{
    auto& t = c.t; std::string path = fmt("%s/fifo.%d", pbt::g_scratch, (int)getpid());
    unlink(path.c_str()); if (mkfifo(path.c_str(), 0600)) pbt::broken("mkfifo");
    std::vector<std::pair<size_t, unsigned>> chunks; size_t o = 0;
    while (o < src.size() && chunks.size() < 60) { size_t n = std::min(src.size() - o, (size_t)(t.chance(1, 3) ? 1 + t.draw(3) : 1 + t.draw(2100))); chunks.push_back({n, (unsigned)(t.chance(1, 4) ? t.draw(800) : 0)}); o += n; }
    if (o < src.size()) chunks.push_back({src.size() - o, 0});
    c.note(fmt("named pipe, %zu bytes in %zu chunks", src.size(), chunks.size()));
    std::atomic<bool> quit{false}; signal(SIGPIPE, SIG_IGN);
    std::thread w([&] {
        int fd; while ((fd = open(path.c_str(), O_WRONLY | O_NONBLOCK)) < 0) { if (quit) return; usleep(20); }
        fcntl(fd, F_SETFL, 0); size_t p = 0;
        for (auto& ch : chunks) { size_t e = p + ch.first; while (p < e) { ssize_t n = write(fd, src.data() + p, e - p); if (n <= 0) { close(fd); return; } p += (size_t)n; } if (ch.second) usleep(ch.second); }
        close(fd);
    });
    {
        hp::FileStream s(path);
        bool ok = s.start(); quit = true;
        PBT_CHECK(ok, "start-failed", "file stream of a named pipe did not start");
        read_and_check(c, s, src, reads, "named pipe");
    }
    w.join(); unlink(path.c_str());
    c.nontrivial = src.size() >= 2; c.label("fifo");
}
static void run_file(Case& c)
{
    auto& t = c.t; std::string src = gen_bytes(t, 6000); auto reads = gen_reads(t);
    if (t.chance(1, 4)) return run_fifo(c, src, reads);
    std::string path = fmt("%s/src.%d", pbt::g_scratch, (int)getpid());
    FILE* f = fopen(path.c_str(), "wb"); if (!f) pbt::broken("scratch"); fwrite(src.data(), 1, src.size(), f); fclose(f);
    c.note(fmt("file of %zu bytes, %zu kinds of reads", src.size(), reads.size()));
    size_t fds = open_fds();
    {
        std::unique_ptr<hp::Stream> s;
        if (t.coin()) s.reset(new hp::FileStream(path)); else { s = HawkTracer::ClientUtils::make_stream_from_string(path); PBT_CHECK(s != nullptr, "no-stream", "no stream for an existing file"); }
        PBT_CHECK(!s->is_continuous(), "continuous", "a file stream reports to be continuous");
        size_t rounds = 1 + t.draw(2);
        for (size_t r = 0; r < rounds; r++)
        {
            PBT_CHECK(s->start(), "start-failed", "file stream did not start");
            if (t.chance(1, 5))   // started again in the middle: from the beginning
            {
                size_t k = t.draw(40); for (size_t z = 0; z < k; z++) s->read_byte();
                if (t.coin()) { s->stop(); no_bytes(*s, "a stopped file stream"); }
                PBT_CHECK(s->start(), "start-failed", "file stream did not start again");
            }
            read_and_check(c, *s, src, reads, "file");
            if (t.coin()) s->stop();
            s->stop();
        }
    }
    PBT_CHECK(open_fds() == fds, "fd-leak", "descriptors before %zu, after %zu", fds, open_fds());
    unlink(path.c_str());
    hp::FileStream missing(path + ".missing");
    if (t.coin()) no_bytes(missing, "a file stream not started");
    PBT_CHECK(!missing.start(), "missing-started", "a file stream of a missing file started");
    no_bytes(missing, "a file stream of a missing file"); missing.stop();
    if (t.chance(1, 4))
    {
        std::string dir = path + ".d"; mkdir(dir.c_str(), 0700);
        hp::KlassRegister reg; std::unique_ptr<hp::Stream> s(new hp::FileStream(dir));
        hp::ProtocolReader rd(&reg, std::move(s), true); size_t n = 0; rd.register_events_listener([&](const hp::Event&) { n++; });
        if (rd.start()) { rd.wait_for_complete(); rd.stop(); }
        rmdir(dir.c_str());
        PBT_CHECK(n == 0, "events-from-nothing", "%zu events read from a directory", n);
    }
    c.nontrivial = src.size() >= 2; c.label("file");
}

// signals which interrupt whatever the stream's own thread waits in
static void on_signal(int) {}
struct Signals
{
    bool on; sigset_t set; std::thread th; std::atomic<bool> quit{false};
    explicit Signals(bool o) : on(o)
    {
        sigemptyset(&set); sigaddset(&set, SIGUSR2);
        if (!on) return;
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR2, &sa, nullptr);
        pthread_sigmask(SIG_BLOCK, &set, nullptr);   // only threads created in open()..shut() take them
    }
    void open() { if (on) pthread_sigmask(SIG_UNBLOCK, &set, nullptr); }
    void shut() { if (on) pthread_sigmask(SIG_BLOCK, &set, nullptr); }
    void go() { if (on && !th.joinable()) th = std::thread([this] { while (!quit) { kill(getpid(), SIGUSR2); usleep(100); } }); }
    ~Signals() { quit = true; if (th.joinable()) th.join(); }
};

static void run_tcp(Case& c)
{
    auto& t = c.t; std::string first = gen_bytes(t, 6000); auto reads = gen_reads(t);
    std::string second(first.rbegin(), first.rend());
    std::vector<std::pair<size_t, unsigned>> chunks; size_t o = 0;
    while (o < first.size()) { size_t n = t.chance(1, 4) ? 1 + t.draw(3) : 1 + t.draw(2100); n = std::min(n, first.size() - o); chunks.push_back({n, (unsigned)(t.chance(1, 6) ? t.draw(1500) : 0)}); o += n; if (chunks.size() > 60) { if (o < first.size()) chunks.push_back({first.size() - o, 0}); break; } }
    bool reader = t.chance(1, 3), interrupted = t.chance(1, 3);
    size_t rounds = 1 + t.draw(1);
    unsigned pause = (unsigned)t.draw(2000); bool early = t.chance(1, 4), wait = t.coin(), late = wait && t.chance(1, 4);
    c.note(fmt("tcp, %zu bytes in %zu chunks%s%s", first.size(), chunks.size(), interrupted ? ", signals" : "", late ? ", server comes late" : ""));
    size_t fds = open_fds();
    Signals sig(interrupted);
    {
        Server sv(late);
        HawkTracer::ClientUtils::TCPClientStream s("127.0.0.1", sv.port, wait);
        for (size_t r = 0; r < rounds; r++)
        {
            const std::string& src = r ? second : first;
            // to the end / stopped by another thread while waiting for bytes / left in the middle
            size_t how = t.weighted({4, 3, 2});
            c.note(how == 0 ? "read to the end" : how == 1 ? "server silent at the end, stopped" : "left in the middle");
            std::atomic<bool> go_close{false};
            std::thread th([&] {
                if (late && !r) { usleep(pause * 5); if (listen(sv.lfd, 4)) pbt::broken("listen"); }
                sv.accept1(); size_t p = 0;
                for (auto& ch : chunks) { sv.send_all(src.substr(p, ch.first)); p += ch.first; if (ch.second) usleep(ch.second); }
                if (how != 1) { shutdown(sv.cfd, SHUT_WR); }
                while (!go_close) usleep(50);
                sv.hangup(false);
            });
            sig.open();
            bool ok = s.start();
            sig.shut(); sig.go();
            PBT_CHECK(ok, "start-failed", "TCP stream did not connect to a listening server");
            PBT_CHECK(s.is_continuous(), "not-continuous", "a TCP stream must report to be continuous");
            if (how == 0) read_and_check(c, s, src, reads, "tcp");
            else if (how == 1)
            {
                std::thread rd([&] {
                    std::string got; int b;
                    while ((b = s.read_byte()) >= 0) got += (char)b;
                    PBT_CHECK(src.compare(0, got.size(), got) == 0, "wrong-byte", "bytes read before the stop are not a prefix of the source");
                });
                if (!early) usleep(pause);
                s.stop();        // must unblock the reader although the server says nothing
                rd.join();
                PBT_CHECK(!s.is_connected(), "still-connected", "stream reports to be connected after stop");
            }
            else
            {
                size_t k = t.draw(300);
                for (size_t z = 0; z < k && z < src.size(); z++) { int b = s.read_byte(); PBT_CHECK(b == (unsigned char)src[z], "wrong-byte", "tcp: byte %zu is %02x, read_byte returned %d", z, (unsigned char)src[z], b); }
                if (!early) usleep(pause);
                if (t.coin()) s.stop();
            }
            go_close = true; th.join();
            if (t.coin()) s.stop();
        }
        close(sv.lfd);
    }
    const std::string& src = first;
    if (reader)
    {
        Server sv; hp::KlassRegister reg;
        std::thread th([&] { sv.accept1(); });
        {
            std::unique_ptr<hp::Stream> s(new HawkTracer::ClientUtils::TCPClientStream("127.0.0.1", sv.port));
            hp::ProtocolReader rd(&reg, std::move(s), true);
            PBT_CHECK(rd.start(), "start-failed", "reader did not start");
            if (!early) usleep(pause);
            rd.stop();
            PBT_CHECK(rd.eos(), "not-eos", "reader stopped but not at its end");
        }
        th.join(); sv.hangup(false); close(sv.lfd);
    }
    { Server sv(true); uint16_t p = sv.port; struct Close { int fd; ~Close() { close(fd); } } cl{sv.lfd}; HawkTracer::ClientUtils::TCPClientStream s("127.0.0.1", p, false); PBT_CHECK(!s.start() && !s.is_connected(), "missing-started", "a TCP stream connected to a closed port"); }
    PBT_CHECK(open_fds() == fds, "fd-leak", "descriptors before %zu, after %zu", fds, open_fds());
    c.nontrivial = src.size() >= 2; c.label(interrupted ? "tcp-signals" : "tcp"); if (rounds > 1) c.label("tcp-restart");
}
static void run(Case& c) { if (c.t.chance(3, 5)) run_tcp(c); else run_file(c); }
pbt::Harness& pbt::harness() { static Harness h{"streams", run, {}, 20, true}; return h; }
