// Small property-based testing engine: every random choice is a draw from a "tape" of integers.
//   generation : draws come from a PRNG seeded with (VERIF_SEED, case index) and are recorded
//   replay     : draws come from a recorded tape (clamped to the bound, 0 past the end)
//   shrinking  : deletes / zeroes / halves tape entries while the failure keeps its signature
// Every case runs in its own forked child, so a crash, a sanitizer report, a hang or leaked
// global state of one case is contained, is attributable, and can be replayed and shrunk.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>

namespace pbt {

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    va_list ap; va_start(ap, f);
    char* p = nullptr;
    int n = vasprintf(&p, f, ap);
    va_end(ap);
    std::string s = n >= 0 ? std::string(p, (size_t)n) : std::string();
    free(p);
    return s;
}

struct SharedTape { volatile uint64_t n; volatile uint64_t loglen; char log[8192]; uint64_t v[1 << 20]; };
static SharedTape* g_shared = nullptr;

static int g_report_fd = -1;
static bool g_verbose = false;
static const char* g_scratch = "/tmp";

struct Report { std::string key, msg; };

class Tape
{
public:
    // generation
    Tape(uint64_t seed) : _replay(false), _s(seed ^ 0x9E3779B97F4A7C15ULL) { if (g_shared) g_shared->n = 0; for (int i = 0; i < 4; i++) _next(); }
    Tape(std::vector<uint64_t> in) : _replay(true), _in(std::move(in)) { if (g_shared) g_shared->n = 0; }

    // value in [0, bound]; 0 is always the simplest
    uint64_t draw(uint64_t bound)
    {
        uint64_t v;
        if (_replay)
        {
            v = _pos < _in.size() ? _in[_pos++] : 0;
            if (v > bound) v = bound == UINT64_MAX ? v : v % (bound + 1);
        }
        else
        {
            v = _next();
            if (bound != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * ((unsigned __int128)bound + 1)) >> 64);
        }
        if (g_shared && g_shared->n < (1u << 20)) { g_shared->v[g_shared->n] = v; g_shared->n = g_shared->n + 1; }
        return v;
    }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }   // shrinks to false
    bool coin() { return draw(1) != 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
    // weighted alternative index; index 0 should be the simplest
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned t = 0; for (unsigned x : w) t += x;
        uint64_t r = draw(t - 1); size_t i = 0;
        for (unsigned x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    // integer with a bias towards small values and powers of two
    uint64_t scaled(uint64_t max)
    {
        unsigned bits = 0; while (bits < 64 && (max >> bits)) bits++;
        uint64_t b = draw(bits);
        uint64_t m = b >= 64 ? UINT64_MAX : ((1ULL << b) - 1);
        return draw(std::min(m, max));
    }
    uint64_t u64any()
    {
        switch (weighted({3, 2, 2, 1}))
        {
        case 0: return scaled(UINT64_MAX);
        case 1: return UINT64_MAX - scaled(65535);
        case 2: { uint64_t b = draw(63); return (1ULL << b) + draw(2) - 1; }
        default: return draw(UINT64_MAX);
        }
    }
    // number of elements of a collection: scaled by the case size (0..100)
    size_t count(size_t max) { size_t m = 1 + max * (size_t)(size + 1) / 101; if (m > max) m = max; return (size_t)draw(m); }
    // "one more element?" style loop helper: shrinks well because every element is delimited
    bool more(size_t have, size_t max, unsigned avg) { return have < max && draw(avg) != 0; }

    int size = 50;
    bool replaying() const { return _replay; }
private:
    uint64_t _next()
    {
        uint64_t z = (_s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    bool _replay;
    uint64_t _s = 0;
    std::vector<uint64_t> _in;
    size_t _pos = 0;
};

// Per-case context
struct Case
{
    Tape& t;
    bool nontrivial = false;
    std::map<std::string, unsigned> labels;
    std::string log;
    explicit Case(Tape& tt) : t(tt) {}
    void label(const std::string& s) { labels[s]++; }
    void note(const std::string& s)
    {
        if (log.size() < 16000) { log += s; log += '\n'; }
        if (g_shared)   // survives a crash of the case; keeps the newest lines
        {
            std::string l = s.substr(0, 300) + '\n';
            if (g_shared->loglen + l.size() > sizeof g_shared->log) { size_t h = g_shared->loglen / 2; memmove(g_shared->log, g_shared->log + h, g_shared->loglen - h); g_shared->loglen = g_shared->loglen - h; }
            memcpy(g_shared->log + g_shared->loglen, l.data(), l.size()); g_shared->loglen = g_shared->loglen + l.size();
        }
        if (g_verbose) fprintf(stderr, "| %s\n", s.c_str()); }
};

static Case* g_case = nullptr;

static void w_all(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) { if (n < 0 && errno == EINTR) continue; return; } o += (size_t)n; }
}
static std::string hexs(const std::string& s)
{
    static const char* d = "0123456789abcdef"; std::string o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
static std::string unhexs(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtoul(s.substr(i, 2).c_str(), nullptr, 16);
    return o;
}
static void send_report(const char* status, const std::string& key, const std::string& msg)
{
    std::string out = std::string("S ") + status + "\nK " + hexs(key) + "\nM " + hexs(msg) + "\n";
    if (g_case)
    {
        out += fmt("N %d\n", g_case->nontrivial ? 1 : 0);
        for (auto& l : g_case->labels) out += "L " + fmt("%u ", l.second) + hexs(l.first) + "\n";
        out += "G " + hexs(g_case->log.substr(0, 6000)) + "\n";
    }
    out += "E\n";
    w_all(g_report_fd, out);
}

// Report a violated property and end the case (usable from any thread).
[[noreturn]] static void fail(const std::string& key, const std::string& msg)
{
    if (g_verbose) fprintf(stderr, "FAIL [%s] %s\n", key.c_str(), msg.c_str());
    send_report("fail", key, msg);
    _exit(0);
}
[[noreturn]] static void discard(const std::string& why = "discard")
{
    send_report("discard", why, "");
    _exit(0);
}
// the harness itself is broken (environment problem): never reported as a violation
[[noreturn]] static void broken(const std::string& why)
{
    fprintf(stderr, "HARNESS BROKEN: %s\n", why.c_str());
    send_report("broken", why, "");
    _exit(0);
}
#define PBT_CHECK(cond, key, ...) do { if (!(cond)) ::pbt::fail(key, ::pbt::fmt(__VA_ARGS__)); } while (0)

// provided by each harness
struct Harness
{
    const char* name;
    void (*run)(Case&);
    std::map<std::string, void (*)(Case&)> probes;   // named fixed inputs (known findings)
    unsigned case_timeout_s = 30;
    bool nondeterministic = false;                   // real threads / sockets involved
};
Harness& harness();

struct Outcome
{
    std::string status = "crash";   // ok fail discard broken crash hang
    std::string key, msg, log;
    bool nontrivial = false;
    std::map<std::string, unsigned> labels;
    std::vector<uint64_t> tape;
    bool bad() const { return status == "fail" || status == "crash" || status == "hang"; }
    std::string signature() const { return status == "fail" ? "fail:" + key : (status == "crash" ? "crash:" + key : status); }
};

static std::string slurp(const std::string& path, size_t max = 200000)
{
    std::string s; FILE* f = fopen(path.c_str(), "rb"); if (!f) return s;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
    fclose(f); return s;
}

static std::string crash_kind(int st, const std::string& err)
{
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos)
    {
        p += strlen("ERROR: AddressSanitizer: ");
        size_t e = err.find_first_of(" \n", p);
        return "asan-" + err.substr(p, e - p);
    }
    if (err.find("WARNING: ThreadSanitizer: ") != std::string::npos) return "tsan";
    if ((p = err.find("runtime error: ")) != std::string::npos) return "ubsan-" + err.substr(p + 15, 40);
    if (err.find("terminate called") != std::string::npos) return "terminate";
    if (WIFSIGNALED(st)) return fmt("signal-%d", WTERMSIG(st));
    return fmt("exit-%d", WEXITSTATUS(st));
}

// Runs one case in a forked child.
static Outcome run_forked(const std::function<void(Case&)>& body, const std::function<Tape*()>& make, unsigned timeout_s, int size_override = -1)
{
    (void)size_override;
    Outcome o;
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); exit(3); }
    std::string errfile = fmt("%s/stderr.%d", g_scratch, (int)getpid());
    g_shared->n = 0; g_shared->loglen = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0)
    {
        close(pfd[0]);
        setpgid(0, 0);
        g_report_fd = pfd[1];
        if (!g_verbose)
        {
            int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (e >= 0) { dup2(e, 2); close(e); }
            int n = open("/dev/null", O_WRONLY);
            if (n >= 0) { dup2(n, 1); close(n); }
        }
        Tape* t = make();
        t->size = (int)t->draw(100);
        Case* c = new Case(*t);
        g_case = c;
        body(*c);
        send_report("ok", "", "");
        _exit(0);
    }
    setpgid(pid, pid);
    close(pfd[1]);
    std::string buf; bool eof = false, timed_out = false;
    auto t0 = std::chrono::steady_clock::now();
    while (!eof)
    {
        int left = (int)(timeout_s * 1000 - std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
        if (left <= 0) { timed_out = true; break; }
        struct pollfd p = {pfd[0], POLLIN, 0};
        int r = poll(&p, 1, left);
        if (r < 0 && errno == EINTR) continue;
        if (r == 0) { timed_out = true; break; }
        char b[65536]; ssize_t n = read(pfd[0], b, sizeof b);
        if (n <= 0) eof = true; else { buf.append(b, (size_t)n); if (buf.size() >= 2 && buf.compare(buf.size() - 2, 2, "E\n") == 0) eof = true; }
    }
    if (timed_out) kill(-pid, SIGKILL);
    close(pfd[0]);
    int st = 0;
    if (!timed_out && buf.size() >= 2 && buf.compare(buf.size() - 2, 2, "E\n") == 0)
    {
        // complete report: the child only has _exit left
        for (int i = 0; i < 200; i++) { if (waitpid(pid, &st, WNOHANG) == pid) { st = 0; goto reaped; } usleep(i < 100 ? 20 : 2000); }
        kill(pid, SIGKILL); waitpid(pid, &st, 0); st = 0;
    reaped:;
    }
    else waitpid(pid, &st, 0);
    kill(-pid, SIGKILL);   // stray grandchildren
    o.tape.assign((uint64_t*)g_shared->v, (uint64_t*)g_shared->v + g_shared->n);
    size_t pos = 0;
    while (pos < buf.size())
    {
        size_t e = buf.find('\n', pos); if (e == std::string::npos) break;
        std::string l = buf.substr(pos, e - pos); pos = e + 1;
        if (l.size() < 2) continue;
        std::string a = l.substr(2);
        switch (l[0])
        {
        case 'S': o.status = a; break;
        case 'K': o.key = unhexs(a); break;
        case 'M': o.msg = unhexs(a); break;
        case 'N': o.nontrivial = a == "1"; break;
        case 'G': o.log = unhexs(a); break;
        case 'L': { size_t sp = a.find(' '); o.labels[unhexs(a.substr(sp + 1))] += (unsigned)atoi(a.c_str()); break; }
        }
    }
    if (timed_out) { o.status = "hang"; o.key = "hang"; o.msg = fmt("case did not finish within %u s", timeout_s); }
    else if (o.status == "crash")
    {
        std::string err = slurp(errfile);
        o.key = crash_kind(st, err);
        o.msg = err.substr(0, 4000);
    }
    if (o.log.empty()) o.log.assign(g_shared->log, g_shared->loglen);
    return o;
}

static std::vector<uint64_t> read_tape(const char* path)
{
    std::vector<uint64_t> v; FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    char line[8192];
    while (fgets(line, sizeof line, f))
    {
        if (line[0] == '#') continue;
        char* p = line; char* e;
        while (1) { unsigned long long x = strtoull(p, &e, 10); if (e == p) break; v.push_back(x); p = e; }
    }
    fclose(f); return v;
}
static void write_tape(const char* path, const std::vector<uint64_t>& v, const std::string& header)
{
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    size_t p = 0;
    while (p < header.size()) { size_t e = header.find('\n', p); if (e == std::string::npos) e = header.size(); fprintf(f, "# %s\n", header.substr(p, e - p).c_str()); p = e + 1; }
    for (size_t i = 0; i < v.size(); i++) fprintf(f, "%llu%c", (unsigned long long)v[i], (i % 16 == 15) ? '\n' : ' ');
    fprintf(f, "\n"); fclose(f);
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}
static std::string joutcome(const Outcome& o)
{
    std::string s = "{\"status\":" + jstr(o.status) + ",\"signature\":" + jstr(o.signature()) + ",\"key\":" + jstr(o.key) + ",\"msg\":" + jstr(o.msg.substr(0, 3000)) +
                    ",\"nontrivial\":" + (o.nontrivial ? "true" : "false") + ",\"log\":" + jstr(o.log.substr(0, 5000)) + ",\"tape_len\":" + fmt("%zu", o.tape.size()) + "}";
    return s;
}
static uint64_t hash_tape(const std::vector<uint64_t>& v)
{
    uint64_t h = 1469598103934665603ULL;
    for (uint64_t x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0xD6E8FEB86659FD93ULL + b + 0x632BE59BD9B4E019ULL; z ^= z >> 32; z *= 0xD6E8FEB86659FD93ULL; z ^= z >> 29; return z; }

static int main_impl(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; }
        else if (a == "-v") g_verbose = true;
        else pos.push_back(a);
    }
    auto num = [&](const char* k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    static std::string scratch = o.count("scratch") ? o["scratch"] : "/tmp";
    g_scratch = scratch.c_str();
    g_shared = (SharedTape*)mmap(nullptr, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_shared == MAP_FAILED) { perror("mmap"); return 3; }
    signal(SIGPIPE, SIG_DFL);
    Harness& h = harness();
    unsigned to = (unsigned)num("case-timeout", h.case_timeout_s);

    if (mode == "run")
    {
        uint64_t seed = num("seed", 1), first = num("first", 0), stride = num("stride", 1), count = num("count", 100), secs = num("time", 60);
        auto t0 = std::chrono::steady_clock::now();
        uint64_t evals = 0, discards = 0, brokens = 0, nontriv = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        std::string failure;
        std::vector<uint64_t> ftape;
        bool timed = false;
        for (uint64_t k = 0; k < count; k++)
        {
            if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(secs)) { timed = true; break; }
            uint64_t idx = first + k * stride;
            Outcome r = run_forked(h.run, [&] { return new Tape(mix(seed, idx)); }, to);
            evals++;
            for (auto& l : r.labels) labels[l.first] += l.second;
            if (r.status == "discard") discards++;
            if (r.status == "broken") { brokens++; if (brokens < 4) labels["broken:" + r.key]++; }
            if (r.nontrivial && distinct.insert(hash_tape(r.tape)).second)
            {
                nontriv++;
                if (samples.size() < 3 && idx >= 5) samples.push_back(fmt("case %llu:\n", (unsigned long long)idx) + r.log.substr(0, 1200));
            }
            if (r.bad()) { failure = joutcome(r); ftape = r.tape; labels["failed-at-index"] = idx; break; }
        }
        std::string js = fmt("{\"evaluations\":%llu,\"discards\":%llu,\"broken\":%llu,\"distinct_nontrivial\":%llu,\"timed_out\":%s,\"labels\":{",
                             (unsigned long long)evals, (unsigned long long)discards, (unsigned long long)brokens, (unsigned long long)nontriv, timed ? "true" : "false");
        bool c = false; for (auto& l : labels) { js += (c ? "," : "") + jstr(l.first) + fmt(":%llu", (unsigned long long)l.second); c = true; }
        js += "},\"hashes\":["; c = false;
        for (uint64_t x : distinct) { js += fmt("%s\"%llx\"", c ? "," : "", (unsigned long long)x); c = true; }
        js += "],\"samples\":["; c = false; for (auto& s : samples) { js += (c ? "," : "") + jstr(s); c = true; }
        js += "],\"failure\":" + (failure.empty() ? std::string("null") : failure) + "}\n";
        if (!failure.empty() && o.count("tape")) write_tape(o["tape"].c_str(), ftape, "");
        if (o.count("out")) { FILE* f = fopen(o["out"].c_str(), "w"); if (!f) return 3; fputs(js.c_str(), f); fclose(f); }
        else { puts(js.c_str()); }
        return failure.empty() ? 0 : 1;
    }
    if (mode == "replay" && !pos.empty())
    {
        auto tape = read_tape(pos[0].c_str());
        Outcome r = run_forked(h.run, [&] { return new Tape(tape); }, to);
        printf("%s\n", joutcome(r).c_str());
        return r.bad() ? 1 : (r.status == "broken" ? 3 : 0);
    }
    if (mode == "case")
    {
        uint64_t seed = num("seed", 1), idx = num("index", 0);
        Outcome r = run_forked(h.run, [&] { return new Tape(mix(seed, idx)); }, to);
        if (o.count("tape")) write_tape(o["tape"].c_str(), r.tape, "");
        printf("%s\n", joutcome(r).c_str());
        return r.bad() ? 1 : (r.status == "broken" ? 3 : 0);
    }
    if (mode == "probe" && !pos.empty())
    {
        auto it = h.probes.find(pos[0]);
        if (it == h.probes.end()) { fprintf(stderr, "no such probe\n"); return 3; }
        Outcome r = run_forked(it->second, [&] { return new Tape(std::vector<uint64_t>{}); }, to);
        printf("%s\n", joutcome(r).c_str());
        return r.bad() ? 1 : (r.status == "broken" ? 3 : 0);
    }
    if (mode == "shrink" && pos.size() >= 2)
    {
        auto best = read_tape(pos[0].c_str());
        uint64_t secs = num("time", 30);
        auto t0 = std::chrono::steady_clock::now();
        auto left = [&] { return std::chrono::steady_clock::now() - t0 < std::chrono::seconds(secs); };
        Outcome cur = run_forked(h.run, [&] { return new Tape(best); }, to);
        if (!cur.bad()) { printf("%s\n", joutcome(cur).c_str()); return 0; }
        std::string sig = cur.signature();
        if (cur.status == "hang") to = std::min(to, 15u);
        best = cur.tape;
        uint64_t tries = 0;
        auto attempt = [&](const std::vector<uint64_t>& cand) {
            if (cand == best) return false;
            tries++;
            Outcome r = run_forked(h.run, [&] { return new Tape(cand); }, to);
            if (r.bad() && r.signature() == sig && (r.tape.size() < best.size() || (r.tape.size() == best.size() && r.tape < best)))
            { best = r.tape; cur = r; return true; }
            return false;
        };
        bool progress = true;
        while (progress && left())
        {
            progress = false;
            for (size_t w = std::min<size_t>(256, best.size() / 2 + 1); w >= 1 && left(); w /= 2)
                for (size_t i = best.size(); i-- > 1 && left();)
                {
                    if (i + w > best.size()) continue;
                    std::vector<uint64_t> c(best); c.erase(c.begin() + (long)i, c.begin() + (long)(i + w));
                    if (attempt(c)) { progress = true; }
                }
            for (size_t w = 16; w >= 1 && left(); w /= 2)
                for (size_t i = 0; i + w <= best.size() && left(); i++)
                {
                    std::vector<uint64_t> c(best); bool any = false;
                    for (size_t k = i; k < i + w; k++) { if (c[k]) any = true; c[k] = 0; }
                    if (any && attempt(c)) progress = true;
                }
            for (size_t i = 0; i < best.size() && left(); i++)
            {
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo && left())
                {
                    std::vector<uint64_t> c(best); uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
                    if (attempt(c)) progress = true; else { if (lo == mid) break; lo = mid; if (best[i] - lo <= 1) break; }
                }
            }
        }
        write_tape(pos[1].c_str(), best, "harness " + std::string(h.name) + "\nsignature " + sig + "\n" + cur.msg.substr(0, 1500) + "\n--- case ---\n" + cur.log.substr(0, 3000));
        printf("%s\n", joutcome(cur).c_str());
        fprintf(stderr, "shrink tries: %llu\n", (unsigned long long)tries);
        return 1;
    }
    fprintf(stderr, "usage: run|replay FILE|case|probe NAME|shrink IN OUT\n");
    return 3;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
#endif
