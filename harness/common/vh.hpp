// Stateless explorer: runs body() once per choice vector, depth first, until every vector has been run.
// Every nondeterministic decision of a driver goes through choose(); nothing is sampled.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vh {

struct Skip {};                 // this choice subtree is not explored (other shard, or state already visited)
struct Fail {};                 // the property failed on this execution

struct Globals {
    int shard = 0, nshards = 1;
    bool replay = false, thorough = false, verbose = false;
    unsigned long seed = 1;
    std::vector<int> choices, widths;
    size_t pos = 0, fresh_from = 0;      // fresh_from: choices before it are unchanged from the previous execution
    bool shard_decided = false;
    long unit = -1;
    long long executions = 0, ops = 0, checks = 0, transitions = 0, skipped = 0, nontrivial = 0;
    std::unordered_set<uint64_t> states, visited, cases;
    std::map<std::string, long long> outcomes;
    std::vector<std::string> samples;
    std::vector<std::string> trace;
    std::string note;                     // free text describing the current execution
    std::map<std::string, int> failkeys, findings;
    int failures = 0;
    int *cur = nullptr;                   // mmap: [n, c0, c1, ...]
    volatile long long tick_exec = -1;
    volatile int ticks = 0;
    int hang = 20;
    std::map<std::string, std::string> opts;
};
inline Globals &g() { static Globals x; return x; }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string vfmt(const char *f, va_list ap) {
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }
inline std::string vec(const std::vector<int> &v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s.empty() ? "-" : s; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29; return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
    return mix(h, n);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }

inline int choose(int n, const char *what = nullptr) {
    Globals &G = g();
    if (n <= 0) { printf("@error choose(%d) at %s\n", n, what ? what : "?"); fflush(stdout); _exit(3); }
    int c = 0;
    if (n > 1) {
        if (G.pos < G.choices.size()) {
            c = G.choices[G.pos];
            if (G.pos < G.widths.size() && G.widths[G.pos] != n) {
                printf("@error replay divergence at choice %zu (%s): %d alternatives, %d before; %s\n", G.pos, what ? what : "?", n, G.widths[G.pos], vec(G.choices).c_str());
                fflush(stdout); _exit(3);
            }
            if (c >= n) { printf("@error replay choice out of range at %zu: %d of %d\n", G.pos, c, n); fflush(stdout); _exit(3); }
            if (G.pos >= G.widths.size()) G.widths.push_back(n);
        } else {
            G.choices.push_back(0);
            G.widths.push_back(n);
        }
        if (G.pos + 1 >= G.fresh_from) G.transitions++;
        G.pos++;
        if (G.cur && G.pos < 1000) { G.cur[G.pos] = c; G.cur[0] = (int)G.pos; }
    }
    if (G.replay && what) G.trace.push_back(fmt("%s=%d/%d", what, c, n));
    return c;
}
template <class T, size_t N> inline const T &pick(const T (&a)[N], const char *what = nullptr) { return a[choose((int)N, what)]; }
template <class T> inline const T &pick(const std::vector<T> &a, const char *what = nullptr) { return a[choose((int)a.size(), what)]; }
inline bool flag(const char *what = nullptr) { return choose(2, what) == 1; }

inline void skip() { throw Skip(); }

// Work units for sharding: call once per execution, after the configuration choices, before allocating anything.
inline void shard() {
    Globals &G = g();
    if (G.replay || G.shard_decided) return;
    G.shard_decided = true;
    if (G.unit < 0 || G.fresh_from <= G.pos) G.unit++;
    if (G.unit % G.nshards != G.shard) throw Skip();
}
inline void tracef(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void tracef(const char *f, ...) { if (!g().replay) return; va_list ap; va_start(ap, f); g().trace.push_back(vfmt(f, ap)); va_end(ap); }
inline void note(const std::string &s) { g().note = s; }

// State of the reference model (or of the system) reached: counted once each.
inline bool state(uint64_t h) { return g().states.insert(h).second; }
// Prunes when this (state, remaining work) has been explored before.  Only for canonical states with equal futures.
inline void dedup(uint64_t h) { Globals &G = g(); if (!G.replay && G.pos >= G.fresh_from && !G.visited.insert(h).second) throw Skip(); }
inline void op(long n = 1) { g().ops += n; }
inline void outcome(const std::string &s) { g().outcomes[s]++; }
// A distinct non-trivial case of an enumeration.
inline void distinct(uint64_t h) { g().cases.insert(h); }

inline void failk(const std::string &key, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void report(const std::string &key, const std::string &m) {
    Globals &G = g();
    G.failures++;
    std::string msg = m;
    for (auto &c : msg) if (c == '\n' || c == '\t') c = ' ';
    if (G.failkeys[key]++ == 0) {
        printf("@fail\t%s\t%s\t%s%s%s\n", key.c_str(), vec(std::vector<int>(G.choices.begin(), G.choices.begin() + G.pos)).c_str(), msg.c_str(), G.note.empty() ? "" : " | ", G.note.c_str());
        if (G.replay) for (auto &t : G.trace) printf("@trace %s\n", t.c_str());
        fflush(stdout);
    }
}
// A failure that known-findings.txt may list: printed (once per key) like any other failure, but the exploration goes on to its end.
inline void finding(const std::string &key, const std::string &m) { Globals &G = g(); report(key, m); G.failures--; G.findings[key]++; }
inline void failk(const std::string &key, const char *f, ...) {
    va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
    report(key, m);
    throw Fail();
}
#define VH_S2(x) #x
#define VH_S(x) VH_S2(x)
// The key is the text of the check, so that one broken check is reported once.
#define CHECK(cond, ...) do { vh::g().checks++; if (!(cond)) vh::failk(#cond, "check failed: " #cond ": " __VA_ARGS__); } while (0)
#define CHECKK(key, cond, ...) do { vh::g().checks++; if (!(cond)) vh::failk(key, "check failed: " __VA_ARGS__); } while (0)

inline void on_tick(int) {
    Globals &G = g();
    if (G.tick_exec == G.executions) {
        if (++G.ticks >= G.hang) {
            char b[64]; int n = snprintf(b, sizeof b, "@hang\n"); (void)!write(1, b, n); _exit(97);
        }
    } else { G.tick_exec = G.executions; G.ticks = 0; }
}

inline size_t &block_count() { static size_t c = 0; return c; }
inline void blocks_reset() { block_count() = 0; }
inline void cur_reset() { if (g().cur) g().cur[0] = 0; }

inline int run_main(int argc, char **argv, const std::function<void()> &body, const std::function<void()> &setup = {}) {
    Globals &G = g();
    std::string states_file;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &G.shard, &G.nshards); }
        else if (a == "--tier") G.thorough = val() == "thorough";
        else if (a == "--seed") G.seed = strtoul(val().c_str(), 0, 10);
        else if (a == "--hang") G.hang = atoi(val().c_str());
        else if (a == "--states") states_file = val();
        else if (a == "--cur") {
            int fd = open(val().c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) { void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) G.cur = (int *)p; }
            if (fd >= 0) close(fd);
        }
        else if (a == "--replay") {
            G.replay = true;
            std::string v = val();
            if (v != "-") { char *s = &v[0]; for (char *t = strtok(s, ","); t; t = strtok(0, ",")) G.choices.push_back(atoi(t)); }
        }
        else if (a == "--opt") { std::string v = val(); size_t e = v.find('='); G.opts[v.substr(0, e)] = e == std::string::npos ? "1" : v.substr(e + 1); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (setup) setup();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, 0);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, 0);
    G.fresh_from = 0;
    for (;;) {
        G.pos = 0; G.shard_decided = false; G.note.clear(); G.trace.clear();
        cur_reset(); blocks_reset();
        G.executions++;
        bool skipped = false;
        try { body(); }
        catch (Skip &) { skipped = true; G.executions--; G.skipped++; G.choices.resize(G.pos); G.widths.resize(G.pos); }
        catch (Fail &) { G.choices.resize(G.pos); G.widths.resize(G.pos); }
        if (!skipped && G.pos < G.choices.size()) {
            printf("@error execution used %zu of %zu choices (divergence)\n", G.pos, G.choices.size()); fflush(stdout); return 3;
        }
        if (G.replay) break;
        if (G.failkeys.size() - G.findings.size() >= 8 || G.failures >= 2000) { printf("@stopped after failures\n"); break; }
        while (!G.choices.empty() && G.choices.back() + 1 >= G.widths.back()) { G.choices.pop_back(); G.widths.pop_back(); }
        if (G.choices.empty()) break;
        G.choices.back()++;
        G.fresh_from = G.choices.size();
    }
    it.it_value.tv_sec = it.it_interval.tv_sec = 0; setitimer(ITIMER_PROF, &it, 0);
    if (G.replay && G.failkeys.empty()) for (auto &t : G.trace) printf("@trace %s\n", t.c_str());
    printf("@stat executions %lld\n@stat ops %lld\n@stat checks %lld\n@stat transitions %lld\n@stat states %zu\n@stat distinct %zu\n",
           G.executions, G.ops, G.checks, G.transitions, G.states.size(), G.cases.size());
    for (auto &o : G.outcomes) printf("@outcome\t%lld\t%s\n", o.second, o.first.c_str());
    for (auto &s : G.samples) printf("@sample\t%s\n", s.c_str());
    if (!states_file.empty()) {
        FILE *f = fopen(states_file.c_str(), "wb");
        if (f) {
            uint64_t n = G.states.size(); fwrite(&n, 8, 1, f); for (uint64_t h : G.states) fwrite(&h, 8, 1, f);
            n = G.cases.size(); fwrite(&n, 8, 1, f); for (uint64_t h : G.cases) fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
    printf("@done\n"); fflush(stdout);
    _exit(G.failkeys.empty() ? 0 : 1);
}
inline void sample(const std::string &s, size_t max = 3) { if (g().samples.size() < max) { std::string t = s; for (auto &c : t) if (c == '\n' || c == '\t') c = ' '; g().samples.push_back(t); } }

// Byte strings ------------------------------------------------------------------------------------
using bytes = std::basic_string<uint8_t>;
inline bytes B(const char *s) { return bytes((const uint8_t *)s, strlen(s)); }
inline bytes B(const std::string &s) { return bytes((const uint8_t *)s.data(), s.size()); }
inline bytes B(const void *p, size_t n) { return bytes((const uint8_t *)p, n); }
inline std::string hex(const bytes &b, size_t max = 48) {
    static const char *d = "0123456789abcdef"; std::string s;
    for (size_t i = 0; i < b.size() && i < max; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (b.size() > max) s += fmt("..(%zu)", b.size());
    return s;
}
inline std::string hex(const void *p, size_t n, size_t max = 48) { return hex(B(p, n), max); }
inline bytes pattern(size_t n, uint8_t start = 1, uint8_t step = 7) { bytes b(n, 0); uint8_t v = start; for (size_t i = 0; i < n; i++) { b[i] = v; v = (uint8_t)(v + step); } return b; }

// A heap block of exactly n bytes (malloc'ed separately, so that the address sanitizer sees any overrun).  Half of the blocks start at an
// address that is no multiple of 16, since nothing promises the library that its callers align what they pass.
struct Block {
    uint8_t *base, *p; size_t n;
    explicit Block(size_t n_, int fill = 0xA5) : n(n_) { alloc(); memset(p, fill, n); }
    explicit Block(const bytes &b) : n(b.size()) { alloc(); memcpy(p, b.data(), n); }
    void alloc() {
        uint64_t h = (++block_count() + n * 131) * 0x9E3779B97F4A7C15ull; size_t off = n && (h >> 60 & 1) ? (h >> 40) % 15 + 1 : 0;
        base = (uint8_t *)::operator new(n ? n + off : 8); p = n ? base + off : base + 8;
    }
    ~Block() { ::operator delete(base); }
    Block(const Block &) = delete; Block &operator=(const Block &) = delete;
    bytes get() const { return B(p, n); }
    bytes get(size_t k) const { return B(p, k); }
    bool all(uint8_t v, size_t from = 0) const { for (size_t i = from; i < n; i++) if (p[i] != v) return false; return true; }
    uint8_t *end() { return p + n; }
};
struct XBlock : Block { using Block::Block; };

} // namespace vh

#define VH_MAIN(body) int main(int argc, char **argv) { return vh::run_main(argc, argv, body); }
#define VH_MAIN2(body, setup) int main(int argc, char **argv) { return vh::run_main(argc, argv, body, setup); }
