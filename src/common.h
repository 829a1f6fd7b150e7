// Shared machinery of the drivers: deterministic case generation, violation reporting,
// per-case CPU budget, coverage counters and the JSON result file the runner merges.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 hcomb(u64 a, u64 b) { return mix(a ^ (mix(b) + 0x2545f4914f6cdd1dull + (a << 6) + (a >> 2))); }
inline u64 hcomb(u64 a, u64 b, u64 c) { return hcomb(hcomb(a, b), c); }
inline u64 hstr(std::string const &s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed)) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    // uniform in [a,b]
    i64 in(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool pct(unsigned p) { return below(100) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <class C>
    auto &pick(C &c) { return c[below(c.size())]; }
    template <class C>
    void shuffle(C &c) {
        for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[below(i)]);
    }
};

// A property violation. key: stable category of the failure; msg: details.
struct Viol {
    std::string key, msg;
    Viol(std::string k, std::string m) : key(k), msg(m) {}
};
struct StrB {
    std::ostringstream o;
    template <class X>
    StrB &operator<<(X const &x) { o << x; return *this; }
    operator std::string() const { return o.str(); }
};
#define FAIL(key, text) throw Viol(key, (std::string)(StrB() << text))
#define CHECK(cond, key, text) do { if (!(cond)) FAIL(key, text); } while (0)

struct Ctx {
    std::string prop, tier;
    u64 seed = 1;
    i64 caseno = -1;
    std::map<std::string, i64> n;           // counters
    std::map<std::string, i64> mx;          // maxima
    std::unordered_set<u64> distinct;       // distinct non-trivial cases
    std::vector<std::string> samples;
    bool thorough() const { return tier == "thorough"; }
    void cnt(char const* k, i64 d = 1) { n[k] += d; }
    void max(char const* k, i64 v) { auto &x = mx[k]; if (v > x) x = v; }
    void sample(std::string const &s) { if (samples.size() < 3) samples.push_back(s); }
    u64 rngseed(char const* tag = "") const { return hcomb(hstr(prop + tag), seed, (u64)caseno); }
};

typedef void (*CaseFn)(Ctx &);
// Memory that the code keeps for later use (a buffer that is used again) is not a leak:
// what stays allocated must stay allocated every time that the case runs.
inline void unless_settles(Ctx &cx, CaseFn f) {
    for (int k = 0;; k++) {
        try { f(cx); return; }
        catch (Viol const &v) { if (v.key != "memory_leaked" || k == 3) throw; }
        cx.cnt("balances_taken_again");
    }
}

inline char* g_status = nullptr;   // status line shared with the runner through a file
inline int g_status_fd = -1;
inline void set_status(char const* fmt, long long a) {
    if (g_status_fd < 0) return;
    char buf[64];
    memset(buf, ' ', sizeof buf);
    int k = snprintf(buf, sizeof buf, fmt, a);
    buf[k] = ' ';
    buf[63] = '\n';
    if (pwrite(g_status_fd, buf, 64, 0) < 0) {}
}
inline void on_prof(int) {
    char const m[] = "\nHANG: case exceeded its CPU budget\n";
    if (write(2, m, sizeof m - 1) < 0) {}
    _exit(97);
}
inline std::string jesc(std::string const &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// run cases shard, shard+nshards, ... below ncases; write the result file.
inline int run_cases(int argc, char** argv, std::function<CaseFn(std::string const &)> lookup) {
    Ctx cx;
    i64 ncases = 0, only = -1, shard = 0, nshards = 1, cpu = 60;
    std::string out, status;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") cx.prop = v;
        else if (a == "--tier") cx.tier = v;
        else if (a == "--seed") cx.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") ncases = atoll(v.c_str());
        else if (a == "--case") only = atoll(v.c_str());
        else if (a == "--shard") shard = atoll(v.c_str());
        else if (a == "--nshards") nshards = atoll(v.c_str());
        else if (a == "--cpu") cpu = atoll(v.c_str());
        else if (a == "--out") out = v;
        else if (a == "--status") status = v;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    CaseFn f = lookup(cx.prop);
    if (!f) { fprintf(stderr, "no driver for %s\n", cx.prop.c_str()); return 2; }
    if (!status.empty()) g_status_fd = open(status.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    signal(SIGPROF, on_prof);
    std::string viol;
    int nv = 0;
    for (i64 c = (only >= 0 ? only : shard); only >= 0 ? c == only : c < ncases; c += nshards) {
        cx.caseno = c;
        set_status("case %lld", c);
        struct itimerval it = {{0, 0}, {cpu, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        try {
            f(cx);
        } catch (Viol const &v) {
            viol += (nv ? ",\n" : "") + std::string("{\"case\":") + std::to_string(c) + ",\"key\":\"" + jesc(v.key) +
                    "\",\"msg\":\"" + jesc(v.msg) + "\"}";
            fprintf(stderr, "V case=%lld key=%s %s\n", (long long)c, v.key.c_str(), v.msg.c_str());
            if (++nv >= 5) { cx.n["evaluations"]++; break; }
        }
        cx.n["evaluations"]++;
    }
    struct itimerval it0 = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &it0, nullptr);
    set_status("done %lld", 0);
    if (!out.empty()) {
        FILE* o = fopen(out.c_str(), "w");
        if (!o) return 2;
        fprintf(o, "{\"violations\":[%s],\n\"counts\":{", viol.c_str());
        bool first = true;
        for (auto &k : cx.n) { fprintf(o, "%s\"%s\":%lld", first ? "" : ",", k.first.c_str(), (long long)k.second); first = false; }
        fprintf(o, "},\n\"max\":{");
        first = true;
        for (auto &k : cx.mx) { fprintf(o, "%s\"%s\":%lld", first ? "" : ",", k.first.c_str(), (long long)k.second); first = false; }
        fprintf(o, "},\n\"samples\":[");
        for (size_t i = 0; i < cx.samples.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(cx.samples[i]).c_str());
        fprintf(o, "],\n\"distinct\":[");
        first = true;
        for (u64 h : cx.distinct) { fprintf(o, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
        fprintf(o, "]}\n");
        fclose(o);
    }
    return nv ? 1 : 0;
}
