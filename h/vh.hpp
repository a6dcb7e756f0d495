// Shared harness core: seeded case loop, event counters, oracles' failure reporting,
// crash localisation (current case is published in a mapped file before it runs),
// and a CPU-time watchdog for runaway cases.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <mutex>
#include <atomic>
#include <sstream>
#include <algorithm>

namespace vh {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return mix64(h ^ n);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t operator()() { return next(); }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // uniform in [a,b]
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
    std::string bytes(size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; ++i) r[i] = (char)next(); return r; }
    std::string from(const std::string& alpha, size_t n) { std::string r(n, 0); for (size_t i = 0; i < n; ++i) r[i] = alpha[below(alpha.size())]; return r; }
};

inline std::string hex(const std::string& s, size_t max = 400) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) { r += d[(unsigned char)s[i] >> 4]; r += d[(unsigned char)s[i] & 15]; }
    if (s.size() > max) r += "...";
    return r;
}
// printable rendering of bytes
inline std::string show(const std::string& s, size_t max = 300) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = s[i];
        char b[8];
        if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c == '"') r += "\\\"";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    if (s.size() > max) { char b[40]; snprintf(b, sizeof b, "...(%zu bytes)", s.size()); r += b; }
    return r;
}
inline std::string jesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

struct Global {
    std::string prop, tier, out, scenario_only;
    uint64_t seed; int shard, nshards; bool replay; uint64_t replay_index; double scale;
    std::mutex mu;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, int> fails;
    uint64_t evaluations, inconclusive;
    bool bail_on_fail; // leave at the first failure (cases whose threads could not be ended properly)
    void (*ready)();        // called once the output files are open
    void (*before_write)(); // called before the results are written
    char *cur; // mapped region: "scenario index\n"
    Global() : tier("quick"), seed(1), shard(0), nshards(1), replay(false), replay_index(0), scale(1), evaluations(0), inconclusive(0), bail_on_fail(false), ready(0), before_write(0), cur(0) {}
};
inline Global& G() { static Global *g = new Global; return *g; }

inline void bail();
struct Ctx {
    Rng rng; uint64_t index; const char *scenario; bool failed; bool verbose;
    Ctx(uint64_t s, uint64_t i, const char *sc) : rng(s), index(i), scenario(sc), failed(false), verbose(false) {}
    // count observed events of a kind
    void count(const std::string& k, uint64_t n = 1) { std::lock_guard<std::mutex> l(G().mu); G().counters[k] += n; }
    // register a non-trivial case by the hash of what makes it different
    void distinct(uint64_t h) { std::lock_guard<std::mutex> l(G().mu); if (G().distinct.size() < 400000) G().distinct.insert(h); }
    void distinct(const std::string& s) { distinct(hash_str(s)); }
    void sample(const std::string& s, size_t maxn = 3) { std::lock_guard<std::mutex> l(G().mu); if (G().samples.size() < maxn) G().samples.push_back(s); }
    bool want_sample(size_t maxn = 3) { std::lock_guard<std::mutex> l(G().mu); return G().samples.size() < maxn; }
    void fail(const std::string& sig, const std::string& detail) {
        {
            std::lock_guard<std::mutex> l(G().mu);
            failed = true;
            int n = ++G().fails[sig];
            if (n <= 3) {
                printf("FAIL\t%s\t%s\t%llu\t%s\n", sig.c_str(), scenario, (unsigned long long)index, detail.c_str());
                fflush(stdout);
            }
        }
        if (G().bail_on_fail) bail();
    }
    // a bounded wait ran out: runner re-runs the case alone before it believes it
    void hang(const std::string& sig, const std::string& detail) {
        std::lock_guard<std::mutex> l(G().mu);
        failed = true;
        int n = ++G().fails["hang:" + sig];
        if (n <= 3) {
            printf("HANG\t%s\t%s\t%llu\t%s\n", sig.c_str(), scenario, (unsigned long long)index, detail.c_str());
            fflush(stdout);
        }
    }
};

typedef std::function<void(Ctx&)> CaseFn;
struct Scenario {
    const char *prop; const char *name; uint64_t quick, thorough; CaseFn fn;
};
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> *v = new std::vector<Scenario>; return *v; }
struct Reg {
    Reg(const char *prop, const char *name, uint64_t q, uint64_t t, CaseFn f) { Scenario s = { prop, name, q, t, f }; scenarios().push_back(s); }
};
#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
#define SCENARIO(prop, name, quick, thorough) \
    static void VH_CAT(sc_, __LINE__)(vh::Ctx& c); \
    static vh::Reg VH_CAT(reg_, __LINE__)(prop, name, quick, thorough, VH_CAT(sc_, __LINE__)); \
    static void VH_CAT(sc_, __LINE__)(vh::Ctx& c)

#define CHECK(c, cond, sig, detail) do { if (!(cond)) { (c).fail(sig, detail); return; } } while (0)

inline void on_prof(int) {
    // CPU budget of one case exhausted: report and stop this process
    const char *m = "WATCHDOG\t";
    ssize_t r = write(1, m, strlen(m));
    if (G().cur) r = write(1, G().cur, strlen(G().cur));
    r = write(1, "\n", 1); (void)r;
    _exit(77);
}
inline void arm_cpu(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, NULL);
}
inline void arm_wall(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_REAL, &t, NULL);
}
inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline void write_stats() {
    Global& g = G();
    std::lock_guard<std::mutex> l(g.mu);
    if (g.out.empty()) return;
    if (g.before_write) g.before_write();
    FILE *f = fopen((g.out + ".json").c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\":%llu,\"counters\":{", (unsigned long long)g.evaluations);
    bool first = true;
    for (std::map<std::string, uint64_t>::iterator i = g.counters.begin(); i != g.counters.end(); ++i) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(i->first).c_str(), (unsigned long long)i->second); first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < g.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g.samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((g.out + ".distinct").c_str(), "w");
    if (f) { for (std::unordered_set<uint64_t>::iterator i = g.distinct.begin(); i != g.distinct.end(); ++i) { uint64_t v = *i; fwrite(&v, 8, 1, f); } fclose(f); }
}

// a call under test never came back: keep what was observed and leave (threads are stuck)
inline void bail() { write_stats(); fflush(stdout); _exit(77); }
// polls until f() or the limit; the limit counts only if this process really ran meanwhile
inline bool wait_until(const std::function<bool()>& f, double limit) {
    double t0 = now(); long polls = 0;
    while (!f()) {
        if (now() - t0 > limit && polls > (long)(limit * 150)) return false;
        ++polls; usleep(polls < 50 ? 20 : polls < 1000 ? 60 : 1000);
    }
    return true;
}

// cpu_limit / wall_limit: seconds one case may use before the watchdog fires (0: none)
inline int run(int argc, char **argv, int cpu_limit = 60, int wall_limit = 0) {
    Global& g = G();
    std::string curfile;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        const char *v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--prop") g.prop = v, ++i;
        else if (a == "--seed") g.seed = strtoull(v, 0, 10), ++i;
        else if (a == "--tier") g.tier = v, ++i;
        else if (a == "--shard") { sscanf(v, "%d/%d", &g.shard, &g.nshards); ++i; }
        else if (a == "--out") g.out = v, ++i;
        else if (a == "--cur") curfile = v, ++i;
        else if (a == "--scale") g.scale = atof(v), ++i;
        else if (a == "--scenario") g.scenario_only = v, ++i;
        else if (a == "--index") { g.replay = true; g.replay_index = strtoull(v, 0, 10); ++i; }
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    signal(SIGPIPE, SIG_IGN);
    if (!curfile.empty()) {
        int fd = open(curfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) g.cur = (char*)m;
        }
        if (fd >= 0) close(fd);
    }
    if (g.ready) g.ready();
    if (cpu_limit) signal(SIGPROF, on_prof);
    if (wall_limit) signal(SIGALRM, on_prof);
    std::vector<Scenario>& sv = scenarios();
    bool any = false;
    for (size_t k = 0; k < sv.size(); ++k) {
        Scenario& s = sv[k];
        if (!g.prop.empty() && g.prop != s.prop) continue;
        if (!g.scenario_only.empty() && g.scenario_only != s.name) continue;
        any = true;
        uint64_t n = g.tier == "thorough" ? s.thorough : s.quick;
        n = (uint64_t)(n * g.scale); if (n < 1) n = 1;
        for (uint64_t i = 0; i < n; ++i) {
            if (g.replay) { if (i != g.replay_index) { if (n <= g.replay_index) n = g.replay_index + 1; continue; } }
            else if ((int)(i % g.nshards) != g.shard) continue;
            uint64_t cs = mix64(g.seed * 0x100000001b3ULL ^ hash_str(s.name) ^ mix64(i + 77));
            Ctx c(cs, i, s.name);
            c.verbose = g.replay;
            if (g.cur) snprintf(g.cur, 4096, "%s\t%llu", s.name, (unsigned long long)i);
            if (cpu_limit) arm_cpu(cpu_limit);
            if (wall_limit) arm_wall(wall_limit);
            s.fn(c);
            ++g.evaluations;
            if (g.fails.size() > 40) { write_stats(); printf("DONE\n"); fflush(stdout); return 1; }
        }
    }
    if (cpu_limit) arm_cpu(0);
    if (wall_limit) arm_wall(0);
    write_stats();
    if (!any) { printf("NOSCENARIO\n"); return 3; }
    printf("DONE\n");
    fflush(stdout);
    return g.fails.empty() ? 0 : 1;
}

} // namespace vh
