// C24: CPU and memory usage against the kernel's counters: real processes (stopped, so that the counters stand still) and
// generated contents of /proc/PID/stat and /proc/PID/statm, with a virtual clock.
#include "pbt.hpp"
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/monotonic_clock.h>
#include <hawktracer/alloc.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <math.h>
#include <stdarg.h>
#include <set>
using pbt::Case; using pbt::fail; using pbt::fmt;

static uint64_t g_now = 1;
extern "C" HT_TimestampNs ht_monotonic_clock_get_timestamp(void) { return g_now; }

// ---- files of generated processes ------------------------------------------------------------------------------------
static std::map<std::string, std::string> g_files; static unsigned g_hits = 0;
static const char* redirect(const char* path)
{
    static char real[600];
    auto it = g_files.find(path);
    if (it == g_files.end()) return path;
    snprintf(real, sizeof real, "%s/proc.%d", pbt::g_scratch, (int)getpid());
    int fd = creat(real, 0600); if (fd < 0) pbt::broken("no scratch file");
    pbt::w_all(fd, it->second); close(fd); g_hits++;
    return real;
}
extern "C" {
FILE* __real_fopen(const char*, const char*); FILE* __wrap_fopen(const char* p, const char* m) { return __real_fopen(redirect(p), m); }
FILE* __real_fopen64(const char*, const char*); FILE* __wrap_fopen64(const char* p, const char* m) { return __real_fopen64(redirect(p), m); }
int __real_open(const char*, int, ...); int __wrap_open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(redirect(p), f, m); }
int __real_open64(const char*, int, ...); int __wrap_open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open64(redirect(p), f, m); }
}

static std::string gen_comm(pbt::Tape& t)
{
    std::string s; size_t n = t.draw(15);
    switch (t.draw(3))
    {
    case 0: return t.pick<std::string>({"bash", "", ")", "(", "a b", ") R 1 2", ")) S", "x) Z 1 1 1", "(sd-pam)", "kworker/0:1", "a)b(c", " ", "1 (2) 3", "tmux: server"});
    case 1: for (size_t i = 0; i < n; i++) s += ")( R1\n-S"[t.draw(7)]; return s;
    default: for (size_t i = 0; i < n; i++) s += (char)(1 + t.draw(254)); return s;
    }
}
static bool close_to(double got, double want) { return fabs(got - want) <= 2e-5 * fabs(want) + 1e-6; }

// ---- generated counters ------------------------------------------------------------------------------------------------
static void run_fake(Case& c)
{
    pbt::Tape& t = c.t;
    int pid = t.chance(1, 3) ? (int)t.pick<int64_t>({1, 2, 9, 99999, 4194303, 32768, 2147483647}) : 1 + (int)t.draw(4194302);
    std::string dir = fmt("/proc/%d/", pid), comm = gen_comm(t);
    long tck = sysconf(_SC_CLK_TCK), page = sysconf(_SC_PAGESIZE);
    uint64_t ut = t.scaled(1ULL << 62), st = t.scaled(1ULL << 62); char state = t.pick<char>({'R', 'S', 'D', 'Z', 'T', 't', 'I', 'X'});
    auto stat = [&] {
        std::string s = fmt("%d (%s) %c %d %d %d %d %d %u %lu %lu %lu %lu %lu %lu", pid, comm.c_str(), state, (int)t.scaled(INT32_MAX), (int)t.scaled(INT32_MAX), (int)t.scaled(INT32_MAX),
                            t.coin() ? (int)t.scaled(INT32_MAX) : 0, t.coin() ? -1 : (int)t.scaled(INT32_MAX), (unsigned)t.scaled(UINT32_MAX),
                            t.scaled(UINT64_MAX), t.scaled(UINT64_MAX), t.scaled(UINT64_MAX), t.scaled(UINT64_MAX), ut, st);
        unsigned big = (unsigned)t.draw(2);
        for (int i = 16; i <= 52; i++) s += fmt(" %lld", big == 0 ? 0ll : (long long)(big == 1 ? t.scaled(1 << 20) : INT64_MAX - (int)t.draw(9)));
        return s + "\n";
    };
    g_now = 1 + t.scaled(1ULL << 60);
    g_files[dir + "stat"] = stat();
    HT_CPUUsageContext* cc = ht_cpu_usage_context_create(&pid);
    PBT_CHECK(cc, "no-context", "no context for the CPU usage of process %d", pid);
    if (!g_hits) pbt::discard("the library does not open the file through the functions that are replaced");
    size_t n = 1 + t.count(8); bool gone = false; std::set<std::string> seen;
    for (size_t i = 0; i < n; i++)
    {
        if (t.coin())
        {
            uint64_t el = t.chance(1, 8) ? 1 + t.scaled(1000000) : 1000000 + t.scaled(1ULL << (t.coin() ? 34 : 55));
            uint64_t dt = t.chance(1, 4) ? 0 : t.scaled(t.coin() ? 1000 : 1ULL << 40), a = t.draw(dt);
            if (t.chance(1, 8)) { g_files[dir + "stat"] = ""; if (t.coin()) g_files.erase(dir + "stat"); gone = true; }   // it ended; the file can be opened but not read any more, or is not there
            else { gone = false; ut += a; st += dt - a; g_files[dir + "stat"] = stat(); }
            g_now += el;
            if (gone && !g_files.count(dir + "stat") && access(dir.c_str(), F_OK) == 0) { gone = false; g_files[dir + "stat"] = stat(); ut += a; st += dt - a; g_files[dir + "stat"] = stat(); }
            float v = ht_cpu_usage_get_percentage(cc);
            c.note(fmt("cpu of %d '%s': %llu ticks in %llu ns%s -> %g", pid, comm.c_str(), (unsigned long long)dt, (unsigned long long)el, gone ? ", gone" : "", v));
            if (gone)
            {
                PBT_CHECK(v < 0, "made-up-value", "CPU usage %g of a process that does not exist", v);
                c.label("gone"); break;
            }
            double want = (double)dt / tck / (el / 1e9) * 100;
            PBT_CHECK(close_to(v, want), "cpu-value", "CPU usage of %d '%s' %c is %g, expected %g (%llu ticks in %llu ns)", pid, comm.c_str(), state, v, want, (unsigned long long)dt, (unsigned long long)el);
            seen.insert("cpu");
        }
        else
        {
            uint64_t m[3], lim = UINT64_MAX / page; size_t k = t.draw(3);
            for (auto& x : m) x = k == 0 ? 0 : k == 1 ? t.scaled(1 << 20) : k == 2 ? t.scaled(1ULL << 36) : lim - t.draw(9);
            g_files[dir + "statm"] = fmt("%lu %lu %lu %lu 0 %lu 0\n", m[0], m[1], m[2], (unsigned long)(k < 2 ? k : t.scaled(1 << 20)), (unsigned long)(k < 2 ? k : t.scaled(1 << 20)));
            bool empty = t.chance(1, 10); if (empty) g_files[dir + "statm"] = "";
            HT_MemoryUsageContext* mc = ht_memory_usage_context_create(&pid);
            size_t v[3] = {7, 7, 7}; unsigned ask = (unsigned)t.draw(7) ^ 7;
            HT_ErrorCode e = ht_memory_usage_get_usage(mc, ask & 1 ? &v[0] : nullptr, ask & 4 ? &v[2] : nullptr, ask & 2 ? &v[1] : nullptr);
            c.note(fmt("memory of %d: %s", pid, g_files[dir + "statm"].c_str()));
            if (empty && ask) PBT_CHECK(e != HT_ERR_OK, "made-up-value", "memory usage of a process that does not exist");
            else PBT_CHECK(e == HT_ERR_OK, "memory-error", "memory usage of '%s' gives error %d", g_files[dir + "statm"].c_str(), (int)e);
            static const char* nm[] = {"virtual", "resident", "shared"};
            for (int j = 0; j < 3; j++)
                if (ask & (1 << j)) { if (e == HT_ERR_OK) PBT_CHECK(v[j] == m[j] * page, "memory-value", "%s memory is %zu, expected %zu", nm[j], v[j], (size_t)(m[j] * page)); }
                else PBT_CHECK(v[j] == 7, "memory-unasked", "%s memory was written although not asked for", nm[j]);
            ht_memory_usage_context_destroy(mc); seen.insert("memory");
            if (empty) c.label("memory-gone");
        }
    }
    ht_cpu_usage_context_destroy(cc);
    c.nontrivial = n >= 2 && !seen.empty(); for (auto& s : seen) c.label("generated-" + s);
}

// ---- real processes ----------------------------------------------------------------------------------------------------
static std::string slurp(const std::string& p) { std::string s; char b[4096]; int fd = __real_open(p.c_str(), O_RDONLY); if (fd < 0) return s; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static bool ticks_of(int pid, uint64_t& v)
{
    std::string s = slurp(fmt("/proc/%d/stat", pid)); size_t p = s.rfind(") "); if (p == std::string::npos) return false;
    unsigned long u, k; if (sscanf(s.c_str() + p + 2, "%*c %*s %*s %*s %*s %*s %*s %*s %*s %*s %*s %lu %lu", &u, &k) != 2) return false;
    v = u + k; return true;
}
static void run_real(Case& c)
{
    pbt::Tape& t = c.t; std::string comm = gen_comm(t).substr(0, 15); size_t rounds = 1 + t.draw(2);
    std::vector<unsigned> burn; for (size_t i = 0; i < rounds + 1; i++) burn.push_back((unsigned)t.draw(i ? 40 : 20)); size_t mb = t.draw(8);
    pid_t pid = fork();
    if (pid < 0) pbt::broken("fork");
    if (pid == 0)
    {
        prctl(PR_SET_NAME, comm.c_str()); prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (unsigned b : burn)
        {
            timespec ts; do clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); while (ts.tv_sec * 1000 + ts.tv_nsec / 1000000 < (long)b);
            char* m = (char*)mmap(nullptr, (mb << 20) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m != MAP_FAILED) memset(m, 1, mb << 20);
            raise(SIGSTOP);
        }
        _exit(0);
    }
    int st; auto stopped = [&] { return waitpid(pid, &st, WUNTRACED) == pid && WIFSTOPPED(st); };
    if (!stopped()) pbt::broken("child did not stop");
    HT_CPUUsageContext* cc = ht_cpu_usage_context_create(&pid); HT_MemoryUsageContext* mc = ht_memory_usage_context_create(&pid);
    uint64_t last; if (!ticks_of(pid, last)) pbt::discard("no readable /proc");
    long tck = sysconf(_SC_CLK_TCK), page = sysconf(_SC_PAGESIZE); uint64_t total = 0;
    for (size_t i = 0; i < rounds; i++)
    {
        kill(pid, SIGCONT); if (!stopped()) pbt::broken("child did not stop");
        uint64_t el = 1000000 + t.scaled(1ULL << 36), now; g_now += el;
        ticks_of(pid, now);
        float v = ht_cpu_usage_get_percentage(cc); double want = (double)(now - last) / tck / (el / 1e9) * 100;
        c.note(fmt("process '%s': %llu ticks in %llu ns -> %g", comm.c_str(), (unsigned long long)(now - last), (unsigned long long)el, v));
        PBT_CHECK(close_to(v, want), "cpu-value", "CPU usage of '%s' is %g, expected %g", comm.c_str(), v, want);
        total += now - last; last = now;
        unsigned long m[3]; if (sscanf(slurp(fmt("/proc/%d/statm", pid)).c_str(), "%lu %lu %lu", m, m + 1, m + 2) != 3) pbt::broken("statm");
        size_t g[3] = {1, 1, 1};
        PBT_CHECK(ht_memory_usage_get_usage(mc, &g[0], &g[2], &g[1]) == HT_ERR_OK, "memory-error", "no memory usage of a stopped process");
        for (int j = 0; j < 3; j++) PBT_CHECK(g[j] == m[j] * page, "memory-value", "memory counter %d is %zu, expected %lu", j, g[j], m[j] * page);
    }
    kill(pid, SIGKILL); siginfo_t si; waitid(P_PID, pid, &si, WEXITED | WNOWAIT);     // now it has ended, but is still there
    uint64_t now; g_now += 1000000000;
    if (ticks_of(pid, now))
    {
        float v = ht_cpu_usage_get_percentage(cc); size_t g[3] = {1, 1, 1};
        PBT_CHECK(close_to(v, (double)(now - last) / tck * 100), "cpu-value", "CPU usage of an ended process is %g", v);
        PBT_CHECK(ht_memory_usage_get_usage(mc, &g[0], &g[1], &g[2]) == HT_ERR_OK && !g[0] && !g[1] && !g[2], "memory-ended", "memory usage of an ended process: %zu %zu %zu", g[0], g[1], g[2]);
    }
    waitpid(pid, &st, 0);
    g_now += 1000000000;
    size_t g[3] = {7, 7, 7}; float v = ht_cpu_usage_get_percentage(cc);
    PBT_CHECK(v < 0, "made-up-value", "CPU usage %g of a process that does not exist", v);
    PBT_CHECK(ht_memory_usage_get_usage(mc, &g[0], &g[1], &g[2]) != HT_ERR_OK, "made-up-value", "memory usage of a process that does not exist");
    ht_cpu_usage_context_destroy(cc); ht_memory_usage_context_destroy(mc);
    // the own process: its counters move, so the value must lie between two readings
    uint64_t a0, a1, b0, b1; ticks_of(getpid(), a0); cc = ht_cpu_usage_context_create(nullptr); ticks_of(getpid(), a1);
    timespec ts; do clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); while (ts.tv_nsec / 1000000 % 1000 < (long)burn[0] / 2 && ts.tv_sec == 0);
    g_now += 1000000000; ticks_of(getpid(), b0); v = ht_cpu_usage_get_percentage(cc); ticks_of(getpid(), b1);
    double lo = (double)(b0 > a1 ? b0 - a1 : 0) / tck * 100, hi = (double)(b1 - a0) / tck * 100;
    PBT_CHECK(v >= lo - 0.01 && v <= hi + 0.01, "own-cpu", "CPU usage of the own process is %g, between %g and %g expected", v, lo, hi);
    mc = ht_memory_usage_context_create(nullptr); unsigned long m[3];
    PBT_CHECK(ht_memory_usage_get_usage(mc, &g[0], &g[1], &g[2]) == HT_ERR_OK && sscanf(slurp("/proc/self/statm").c_str(), "%lu", m) == 1 && g[0] / page + 64 > m[0] && m[0] + 64 > g[0] / page, "own-memory", "virtual memory of the own process is %zu", g[0]);
    PBT_CHECK(ht_memory_usage_get_usage(nullptr, &g[0], &g[1], &g[2]) != HT_ERR_OK, "null-context", "memory usage without a context");
    ht_cpu_usage_context_destroy(cc); ht_memory_usage_context_destroy(mc);
    int neg = -(int)t.draw(40000) - 1; cc = ht_cpu_usage_context_create(&neg); mc = ht_memory_usage_context_create(&neg); g_now += 1000;
    PBT_CHECK(ht_cpu_usage_get_percentage(cc) < 0 && ht_memory_usage_get_usage(mc, &g[0], nullptr, nullptr) != HT_ERR_OK, "made-up-value", "a value for process %d", neg);
    ht_cpu_usage_context_destroy(cc); ht_memory_usage_context_destroy(mc);
    c.nontrivial = total > 0; c.label("real"); if (total) c.label("real-busy");
}
static void run(Case& c) { if (c.t.chance(1, 12)) run_real(c); else run_fake(c); }
pbt::Harness& pbt::harness() { static Harness h{"usage", run, {}, 30, true}; return h; }
