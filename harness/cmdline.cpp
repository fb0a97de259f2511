// C21: the client's option parser, the stream factory and the library's own arguments, against models.
#include "pbt.hpp"
#include "events_model.hpp"
#include <hawktracer.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/init.h>
#include <hawktracer/registry.h>
#include <atomic>
#include <hawktracer/client_utils/command_line_parser.hpp>
#include <hawktracer/client_utils/stream_factory.hpp>
#include <internal/global_timeline.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <iostream>
#include <sstream>
#include <fstream>
#include <memory>
#include <thread>
#include <set>
using pbt::Case; using pbt::fail; using pbt::fmt;
using HawkTracer::ClientUtils::CommandLineParser;
using HawkTracer::ClientUtils::make_stream_from_string;

// keeps the case's own output away from the report
struct Mute { std::streambuf* a; std::streambuf* b; std::ostringstream x; Mute() { a = std::cerr.rdbuf(x.rdbuf()); b = std::cout.rdbuf(x.rdbuf()); } ~Mute() { std::cerr.rdbuf(a); std::cout.rdbuf(b); } };

// an argument vector in writable memory with guard for modification
struct Args
{
    std::vector<std::string> s; std::vector<std::unique_ptr<char[]>> mem; std::vector<char*> p, before;
    explicit Args(const std::vector<std::string>& v) : s(v)
    {
        for (auto& x : s) { mem.emplace_back(new char[x.size() + 1]); memcpy(mem.back().get(), x.c_str(), x.size() + 1); p.push_back(mem.back().get()); }
        p.push_back(nullptr); before = p;
    }
    int n() const { return (int)s.size(); }
    void unchanged() const
    {
        PBT_CHECK(p == before, "argv-changed", "the argument vector was reordered");
        for (size_t i = 0; i < s.size(); i++) PBT_CHECK(s[i] == p[i], "argv-changed", "argument %zu was changed", i);
    }
};
static std::string show(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += " [" + x + "]"; return o; }

// ---- option parser of the client -----------------------------------------------------------------------------------
struct Opt { std::string name; bool flag, mandatory; std::string help; };
static std::string gen_name(Case& c)
{
    pbt::Tape& t = c.t; std::string s; size_t n = 1 + t.draw(t.chance(1, 6) ? 40 : 3);
    const char* al = t.chance(1, 4) ? "ab-=:/." : "abc";
    for (size_t i = 0; i < n; i++) s += al[t.draw(strlen(al) - 1)];
    return s;
}
static void run_parser(Case& c)
{
    pbt::Tape& t = c.t; Mute mute;
    std::string prefix = t.pick<std::string>({"--", "-", "/", "ht:", "a", "---"});
    CommandLineParser p(prefix, "app");
    std::map<std::string, Opt> model; std::vector<std::string> names;
    size_t n = t.draw(6);
    for (size_t i = 0; i < n; i++)
    {
        Opt o; o.name = !names.empty() && t.chance(1, 5) ? t.pick(names) : gen_name(c);
        if (!names.empty() && t.chance(1, 6)) o.name = t.pick(names) + t.pick<std::string>({"a", "-", "=x"});   // one is a prefix of another
        if (t.chance(1, 12)) o.name.clear();   // can never be given
        o.flag = t.coin(); o.mandatory = t.chance(1, 3);
        size_t h = t.draw(3); o.help = h == 0 ? "" : h == 1 ? "help" : "Text of option number " + std::to_string(i);
        p.register_option(o.name, CommandLineParser::OptionInfo(o.flag, o.mandatory, o.help));
        c.note(fmt("register %s%s%s", o.name.c_str(), o.flag ? " flag" : "", o.mandatory ? " mandatory" : ""));
        names.push_back(o.name);
        if (!(o.flag && o.mandatory)) model.insert({o.name, o});   // a mandatory flag makes no sense and is refused
    }
    // the help
    {
        std::ostringstream out; p.print_help(out);
        std::istringstream in(out.str()); std::string l; std::set<std::string> seen;
        while (std::getline(in, l))
            for (auto& m : model)
            {
                if (m.first.empty()) { seen.insert(""); continue; }
                std::istringstream w(l); std::string first, second; w >> first; w >> second;
                if (first != prefix + m.first || l[0] != ' ') continue;
                PBT_CHECK(seen.insert(m.first).second, "help-twice", "the help lists option %s twice", m.first.c_str());
                PBT_CHECK((second == "<VALUE>") == !m.second.flag, "help-value", "the help of option %s: %s", m.first.c_str(), l.c_str());
                PBT_CHECK((l.find("[MANDATORY]") != std::string::npos) == m.second.mandatory, "help-mandatory", "the help of option %s: %s", m.first.c_str(), l.c_str());
                PBT_CHECK(l.find(m.second.help, first.size()) != std::string::npos, "help-text", "the help of option %s lacks its text: %s", m.first.c_str(), l.c_str());
            }
        PBT_CHECK(seen.size() == model.size(), "help-missing", "the help lists %zu of %zu options", seen.size(), model.size());
    }
    std::map<std::string, std::string> set; bool poisoned = false;
    size_t rounds = 1 + (t.chance(1, 4) ? 1 : 0), used = 0; bool any_fail = false, any_ok = false;
    for (size_t r = 0; r < rounds && !poisoned; r++)
    {
        std::vector<std::string> a{t.pick<std::string>({"app", "--x", ""})};
        std::vector<std::string> need; for (auto& m : model) if (m.second.mandatory) need.push_back(m.first);
        if (t.chance(1, 5) && !need.empty()) need.pop_back();
        std::vector<std::string> todo; size_t k = t.draw(5);
        for (size_t i = 0; i < k && !model.empty(); i++) { auto it = model.begin(); std::advance(it, t.draw(model.size() - 1)); todo.push_back(it->first); }
        for (auto& x : need) todo.insert(todo.begin() + t.draw(todo.size()), x);
        for (auto& o : todo)
        {
            a.push_back(prefix + o);
            if (!model[o].flag) switch (t.weighted({4, 1, 1, 1, 1}))
            {
            case 0: a.push_back(gen_name(c)); break;
            case 1: a.push_back(prefix + (names.empty() ? "a" : t.pick(names))); break;    // a value that looks like an option
            case 2: a.push_back(""); break;
            case 3: a.push_back("a b\t\"\\\x80\xff%s"); break;
            default: a.push_back(std::string(t.draw(3000), 'v')); break;
            }
            used++;
        }
        if (t.chance(1, 3))   // one mistake (or what looks like one)
        {
            size_t at = 1 + t.draw(a.size() - 1);
            switch (t.draw(6))
            {
            case 6: { std::string q = prefix, o = model.empty() ? "a" : t.coin() ? model.begin()->first : model.rbegin()->first; q[t.draw(q.size() - 1)] = t.pick<char>({'-', '/', 'x', ':'}); a.insert(a.begin() + at, q + o); break; }   // damaged prefix
            case 0: a.insert(a.begin() + at, prefix + gen_name(c)); break;
            case 1: a.insert(a.begin() + at, gen_name(c)); break;
            case 2: a.insert(a.begin() + at, prefix); break;
            case 3: if (a.size() > 1) a.pop_back(); break;
            case 4: a.insert(a.begin() + at, ""); break;
            default: if (!a[at - 1].empty()) a.insert(a.begin() + at, a[at - 1].substr(0, a[at - 1].size() - 1)); break;
            }
        }
        // the model
        bool ok = true;
        for (size_t i = 1; i < a.size() && ok; i++)
        {
            if (a[i].size() <= prefix.size() || a[i].compare(0, prefix.size(), prefix)) { ok = false; break; }
            std::string o = a[i].substr(prefix.size()); auto it = model.find(o);
            if (it == model.end()) { ok = false; break; }
            if (it->second.flag) { set.insert({o, ""}); continue; }
            if (i + 1 == a.size()) { ok = false; break; }
            set.insert({o, a[++i]});      // the first one counts
        }
        for (auto& m : model) if (ok && m.second.mandatory && !set.count(m.first)) ok = false;
        c.note("parse" + show(a));
        Args args(a);
        bool got = p.parse(args.n(), args.p.data());
        args.unchanged();
        PBT_CHECK(got == ok, ok ? "parse-refused" : "parse-accepted", "parse(%s) is %s", show(a).c_str(), got ? "true" : "false");
        if (!ok) { poisoned = true; any_fail = true; continue; }    // what a failed parse leaves behind is not described
        any_ok = true;
        std::vector<std::string> ask = names; ask.push_back("zz"); ask.push_back("");
        for (auto& o : ask)
        {
            auto it = set.find(o);
            PBT_CHECK(p.has_value(o) == (it != set.end()), "has-value", "has_value(%s) is wrong", o.c_str());
            std::string v = p.get_value(o, "dflt");
            PBT_CHECK(v == (it != set.end() ? it->second : "dflt"), "get-value", "get_value(%s) is '%s'", o.c_str(), v.substr(0, 200).c_str());
        }
    }
    c.nontrivial = model.size() >= 2 && used >= 2;
    if (any_fail) c.label("parse-failed"); if (any_ok) c.label("parse-ok");
}

// ---- stream factory ------------------------------------------------------------------------------------------------
struct Srv
{
    int fd = -1;
    bool open(const std::string& ip, uint16_t port)
    {
        fd = socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr(ip.c_str()); a.sin_port = htons(port);
        return !bind(fd, (sockaddr*)&a, sizeof a) && !listen(fd, 4);
    }
    uint16_t port() { sockaddr_in a{}; socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); return ntohs(a.sin_port); }
    int accept1() { pollfd p{fd, POLLIN, 0}; return poll(&p, 1, 10000) == 1 ? ::accept(fd, nullptr, nullptr) : -1; }
    ~Srv() { if (fd >= 0) close(fd); }
};
static void check_tcp(Case& c, const std::string& src, Srv& sv, const char* what)
{
    auto s = make_stream_from_string(src);
    PBT_CHECK(s != nullptr, "address-refused", "source '%s' was refused", src.c_str());
    PBT_CHECK(s->is_continuous(), "address-not-tcp", "source '%s' is not a TCP stream", src.c_str());
    std::string msg = "hello"; int got = -1;
    std::thread th([&] { got = sv.accept1(); if (got >= 0) { (void)!send(got, msg.data(), msg.size(), MSG_NOSIGNAL); shutdown(got, SHUT_WR); } });
    // the stream waits for its server: if it goes somewhere else, the accept times out and this fails
    std::atomic<bool> started{false};
    std::thread st([&] { if (s->start()) started = true; });
    th.join();
    PBT_CHECK(got >= 0, "wrong-address", "source '%s' (%s) did not connect to the server it names", src.c_str(), what);
    st.join();
    char b[5]; PBT_CHECK(started && s->read_data(b, 5) && !memcmp(b, "hello", 5), "wrong-address", "source '%s' did not deliver what the server sent", src.c_str());
    s->stop(); close(got);
}
static void run_factory(Case& c)
{
    pbt::Tape& t = c.t; Mute mute;
    std::string dir = pbt::g_scratch; dir += fmt("/src%d", (int)getpid());
    if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) pbt::broken("no scratch directory");
    auto loop = [&] { return fmt("127.%u.%u.%u", (unsigned)(1 + t.draw(253)), (unsigned)t.draw(255), (unsigned)(1 + t.draw(253))); };
    auto quad = [&] { std::string s; for (int i = 0; i < 4; i++) s += fmt("%s%u", i ? "." : "", (unsigned)(t.coin() ? t.pick<unsigned>({0, 1, 9, 10, 99, 100, 127, 199, 200, 254, 255}) : t.draw(255))); return s; };
    size_t n = 1 + t.draw(5);
    for (size_t i = 0; i < n; i++)
        switch (t.weighted({3, 3, 4, 4, 2}))
        {
        case 0:   // a file, whatever it is called
        {
            std::string name;
            switch (t.draw(3)) { case 0: name = "f" + std::to_string(i); break; case 1: name = quad(); break; case 2: name = quad() + ":" + std::to_string(t.draw(70000)); break; default: name = "a b\xff:%s.1.2.3.4"; }
            std::string content; size_t m = t.draw(300); for (size_t k = 0; k < m; k++) content += (char)t.draw(255);
            { std::ofstream f(name, std::ios::binary); f << content; }
            std::string path = t.coin() ? name : t.coin() ? "./" + name : dir + "/" + name;
            c.note("file " + path);
            auto s = make_stream_from_string(path);
            PBT_CHECK(s && !s->is_continuous(), "file-refused", "existing file '%s' is not opened as a file", path.c_str());
            PBT_CHECK(s->start(), "file-start", "file stream '%s' did not start", path.c_str());
            for (size_t k = 0; k < content.size(); k++) { int b = s->read_byte(); PBT_CHECK(b == (unsigned char)content[k], "file-bytes", "byte %zu of '%s' is %d", k, path.c_str(), b); }
            PBT_CHECK(s->read_byte() < 0, "file-bytes", "more bytes than the file has");
            s->stop(); s.reset(); unlink(name.c_str()); c.label("file"); break;
        }
        case 1:   // an address that is accepted and reaches its server
        {
            std::string ip = loop(); bool dflt = t.chance(1, 3); Srv sv;
            if (!sv.open(ip, dflt ? 8765 : 0)) { c.label("busy"); break; }
            std::string src = dflt ? t.coin() ? ip : ip + ":" + t.pick<std::string>({"x", "port", "http"}) : ip + ":" + std::to_string(sv.port());
            c.note("address " + src);
            check_tcp(c, src, sv, dflt ? "default port" : "given port"); c.label("connected"); break;
        }
        case 2:   // any valid address is accepted (not connected)
        {
            std::string src = quad(); if (t.coin()) src += ":" + std::to_string(t.coin() ? t.pick<unsigned>({1, 2, 79, 9999, 32767, 32768, 65534, 65535}) : 1 + t.draw(65534));
            c.note("valid " + src);
            auto s = make_stream_from_string(src);
            PBT_CHECK(s != nullptr && s->is_continuous(), "address-refused", "source '%s' was refused", src.c_str());
            c.label("valid"); break;
        }
        case 3:   // neither a file nor an address
        {
            std::string src; std::vector<std::string> o; for (int k = 0; k < 4; k++) o.push_back(std::to_string(t.draw(255)));
            std::string port = std::to_string(1 + t.draw(65534)); size_t bad = t.draw(9); bool noport = t.coin();
            switch (bad)
            {
            case 0: o[t.draw(3)] = std::to_string(256 + t.scaled(UINT64_MAX - 300)); break;
            case 1: port = std::to_string(65536 + t.scaled(UINT64_MAX - 70000)); noport = false; break;
            case 2: o.erase(o.begin() + t.draw(o.size() - 1)); break;
            case 3: o.push_back(std::to_string(t.draw(255))); break;
            case 4: o[t.draw(3)] = t.pick<std::string>({"", "x", "-1", "0x1f", "1-", "1x", "host"}); break;
            case 5: o[3] += t.pick<std::string>({"x", ".dump", "-", "."}); break;
            case 6: src = t.pick<std::string>({"", ":", "8765", ":8765", "localhost", "localhost:8765", "nofile.htdump", "./127.0.0.1", "[::1]:80", "/nonexistent/127.0.0.1", "x127.0.0.1"}); break;
            case 7: { size_t m = t.draw(12); const char* al = "abc :./-\xff"; for (size_t k = 0; k < m; k++) src += al[t.draw(strlen(al) - 1)]; src = "~" + src; break; }
            case 8: port = "-" + port; noport = false; break;
            default: o[t.draw(3)] = std::to_string((1ULL << 32) + t.draw(255)); break;
            }
            if (src.empty() && bad != 6) { for (size_t k = 0; k < o.size(); k++) src += (k ? "." : "") + o[k]; if (!noport) src += ":" + port; }
            c.note("invalid " + src);
            auto s = make_stream_from_string(src);
            PBT_CHECK(s == nullptr, "source-accepted", "source '%s' was accepted", src.c_str());
            c.label("invalid"); break;
        }
        default:  // missing files with ordinary names
        {
            std::string src = t.pick<std::string>({"trace.htdump", "./a/b", "10.dump", "1.2.3.x", "1.2.3"});
            c.note("missing " + src);
            PBT_CHECK(make_stream_from_string(src) == nullptr, "source-accepted", "missing file '%s' was accepted", src.c_str());
        }
        }
    c.nontrivial = n >= 2;
    (void)!chdir("/"); rmdir(dir.c_str());
}

// ---- the library's own arguments -----------------------------------------------------------------------------------
HT_DECLARE_EVENT_KLASS(CmdEvt, HT_Event, (INTEGER, uint64_t, a))
static const size_t EVSZ = 4 + 8 + 8 + 8;
struct Flushes { size_t first = 0; };
static void on_data(TEventPtr ev, size_t count, HT_Boolean ser, void* ud) { auto f = (Flushes*)ud; if (!f->first) f->first = count; }
static void run_lib(Case& c)
{
    pbt::Tape& t = c.t;
    const std::string SZ = "--ht-global-timeline-buffer-size";
    size_t expect = ht_global_timeline_get_buffer_size();     // 1024 unless set
    PBT_CHECK(expect == 1024, "default-size", "buffer size of the global timeline is %zu at start", expect);
    size_t rounds = 1 + (t.chance(1, 4) ? 1 : 0); unsigned valid = 0, invalid = 0; bool help = false;
    for (size_t r = 0; r < rounds; r++)
    {
        std::vector<std::string> a{t.pick<std::string>({"app", "", "--ht-help", SZ})};
        size_t n = t.draw(6);
        for (size_t i = 0; i < n; i++)
            switch (t.weighted({4, 3, 3, 1, 1}))
            {
            case 0: a.push_back(t.pick<std::string>({"--app-option", "value", "", "-", "--", "--ht", "--ht-", "--ht-global-timeline-buffer-siz", SZ + "x", SZ + "=5", "-ht-help", "--ht-helpx", "--HT-HELP", "12", "--ht-non-existing"})); break;
            case 1: a.push_back(SZ); a.push_back(std::to_string(t.chance(1, 4) ? t.u64any() : 80 + t.scaled(100000))); break;
            case 2: a.push_back(SZ); a.push_back(t.pick<std::string>({"", "x", "-1", "-", "12abc", "99999999999999999999", "18446744073709551616", "-18446744073709551615", "0x80", "1.5", "1e3", "12 ", "--ht-help", "--app-option", SZ, "abc99999999999999999999", "-99999999999999999999"})); break;
            case 3: a.push_back(SZ); break;   // swallows whatever comes next
            default: if (t.chance(1, 3)) a.push_back("--ht-help"); else a.push_back("x"); break;
            }
        bool want_help = false;
        for (size_t i = 1; i < a.size(); i++)
        {
            if (a[i] == "--ht-help") { want_help = true; break; }
            if (a[i] != SZ) continue;
            if (i + 1 >= a.size()) { invalid++; break; }
            const std::string& v = a[++i];
            bool num = !v.empty() && v.find_first_not_of("0123456789") == std::string::npos;
            errno = 0; unsigned long long x = num ? strtoull(v.c_str(), nullptr, 10) : 0; if (errno) num = false;
            if (num) { expect = (size_t)x; valid++; } else invalid++;
        }
        Args args(a); bool via_init = t.coin();
        c.note(fmt("%s", via_init ? "ht_init" : "ht_init, twice nested") + show(a));
        int pfd[2]; if (pipe(pfd)) pbt::broken("pipe");
        fflush(stdout); int old = dup(1); dup2(pfd[1], 1); close(pfd[1]);
        if (want_help)
        {
            pid_t pid = fork();
            if (pid == 0) { ht_init(args.n(), args.p.data()); fflush(stdout); _exit(77); }
            dup2(old, 1); int st; std::string out; char b[512]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) out.append(b, k);
            waitpid(pid, &st, 0);
            PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "help-exit", "the process ended with status %x after --ht-help", st);
            PBT_CHECK(out.find(SZ) != std::string::npos && out.find("--ht-help") != std::string::npos, "help-missing", "help of the library: %s", out.c_str());
            help = true; close(pfd[0]); close(old); break;
        }
        ht_init(args.n(), args.p.data());
        if (!via_init) { ht_init(0, nullptr); ht_deinit(); }
        fflush(stdout); dup2(old, 1); close(old);
        std::string out; char b[512]; ssize_t k; fcntl(pfd[0], F_SETFL, O_NONBLOCK); while ((k = read(pfd[0], b, sizeof b)) > 0) out.append(b, k); close(pfd[0]);
        args.unchanged();
        PBT_CHECK(ht_global_timeline_get_buffer_size() == expect, "buffer-size", "buffer size of the global timeline is %zu, expected %zu", ht_global_timeline_get_buffer_size(), expect);
        if (expect >= EVSZ && expect <= 200000)
        {
            ht_CmdEvt_register_event_klass();
            std::thread th([&] {
                HT_Timeline* tl = ht_global_timeline_get(); Flushes f;
                PBT_CHECK(tl && ht_timeline_register_listener(tl, on_data, &f) == HT_ERR_OK, "global", "no global timeline");
                size_t per = expect / EVSZ;
                for (size_t i = 0; i <= per && !f.first; i++) HT_TIMELINE_PUSH_EVENT(tl, CmdEvt, 1);
                PBT_CHECK(f.first == per * EVSZ, "buffer-used", "first flush of the global timeline has %zu bytes, buffer of %zu bytes was asked for", f.first, expect);
                ht_timeline_unregister_all_listeners(tl);
            });
            th.join(); c.label("observed");
        }
        ht_deinit();
    }
    c.nontrivial = valid + invalid >= 1; if (valid) c.label("valid-size"); if (invalid) c.label("invalid-size"); if (help) c.label("help");
}
static void run(Case& c) { switch (c.t.weighted({3, 2, 2})) { case 0: run_parser(c); break; case 1: run_factory(c); break; default: run_lib(c); } }
pbt::Harness& pbt::harness() { static Harness h{"cmdline", run, {}, 30, true}; return h; }
