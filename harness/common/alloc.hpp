// Allocation seam (link with --wrap=malloc,calloc,realloc,free,strdup): ledger, fault injection, free hook.
// Only allocations made by C code linked into the program are seen; C++ operator new is not.
#pragma once
#include "vh.hpp"
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
}
namespace al {
struct Entry { size_t size; long serial; };
struct A {
    std::unordered_map<void *, Entry> live;
    bool on = false;
    long serial = 0;          // allocations since reset
    long fail_at = -1;        // this allocation (0-based) fails ...
    long fail_at2 = -1;
    bool fail_all_after = false; // ... and all later ones
    long failed = 0;
    bool bad_free = false;
    void (*on_free)(void *, size_t) = nullptr;
    int depth = 0;
};
inline A &a() { static A *x = new A; return *x; }
inline void reset() { A &x = a(); x.serial = 0; x.fail_at = x.fail_at2 = -1; x.fail_all_after = false; x.failed = 0; x.bad_free = false; }
inline void start() { reset(); a().live.clear(); a().on = true; }
inline void stop() { a().on = false; }
inline size_t live() { return a().live.size(); }
inline std::string live_text() { std::string s; int n = 0; for (auto &e : a().live) { if (n++ >= 4) break; s += vh::fmt("#%ld(%zu bytes) ", e.second.serial, e.second.size); } return s; }
inline bool should_fail() {
    A &x = a(); long i = x.serial++;
    bool f = i == x.fail_at || i == x.fail_at2 || (x.fail_all_after && x.fail_at >= 0 && i >= x.fail_at);
    if (f) x.failed++;
    return f;
}
struct Pause { bool was; Pause() : was(a().on) { a().on = false; } ~Pause() { a().on = was; } };
}
extern "C" void *__wrap_malloc(size_t n) {
    al::A &x = al::a();
    if (!x.on) return __real_malloc(n);
    if (al::should_fail()) return 0;
    void *p = __real_malloc(n);
    if (p) { x.on = false; x.live[p] = {n, x.serial - 1}; x.on = true; }
    return p;
}
extern "C" void *__wrap_calloc(size_t n, size_t m) {
    al::A &x = al::a();
    if (!x.on) return __real_calloc(n, m);
    if (al::should_fail()) return 0;
    void *p = __real_calloc(n, m);
    if (p) x.live[p] = {n * m, x.serial - 1};
    return p;
}
extern "C" void *__wrap_realloc(void *o, size_t n) {
    al::A &x = al::a();
    if (!x.on) { x.live.erase(o); return __real_realloc(o, n); }
    if (al::should_fail()) return 0;
    if (o) { auto it = x.live.find(o); if (it != x.live.end()) { if (x.on_free) x.on_free(o, it->second.size); x.live.erase(it); } }
    void *p = __real_realloc(o, n);
    if (p) x.live[p] = {n, x.serial - 1};
    return p;
}
extern "C" char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p;
}
extern "C" void __wrap_free(void *p) {
    al::A &x = al::a();
    if (p) { auto it = x.live.find(p); if (it != x.live.end()) { if (x.on && x.on_free) x.on_free(p, it->second.size); x.live.erase(it); } }
    __real_free(p);
}
