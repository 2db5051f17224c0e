// Randomness seam: --wrap=noise_rand_bytes makes the library's entropy a deterministic, logged stream.
// If the seam is not reached (the function was renamed, say), the library keeps using the operating system:
// drivers therefore never rely on predicted values, only on the log when it explains what they observe.
#pragma once
#include "vh.hpp"
#ifdef VH_CONFIG_sodium
#include <sodium.h>
#endif
namespace rng {
struct R { uint64_t seed = 1, ctr = 0; std::vector<vh::bytes> log; std::vector<vh::bytes> script; size_t script_pos = 0; long calls = 0; long flip_byte = -1, bytes_out = 0; int flip_bit = 0; };
inline R *&stream() { static thread_local R *s = nullptr; return s; }   // a session's own stream, when set
inline R &r() { if (stream()) return *stream(); static R *x = new R; return *x; }
inline uint64_t sm(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline void reset(uint64_t seed) { r().seed = seed; r().ctr = 0; r().log.clear(); r().script.clear(); r().script_pos = 0; r().calls = 0; }
inline void (*&around())(bool) { static void (*f)(bool) = nullptr; return f; }    // called before and after the stream is used
inline void fill(uint8_t *p, size_t n) {
    struct A { A() { if (around()) around()(true); } ~A() { if (around()) around()(false); } } a_;
    R &x = r(); x.calls++;
    if (x.script_pos < x.script.size() && x.script[x.script_pos].size() == n) { memcpy(p, x.script[x.script_pos].data(), n); x.script_pos++; }
    else for (size_t i = 0; i < n; i += 8) { uint64_t v = sm(sm(x.seed * 0x1000003 + 77) + x.ctr++); size_t k = n - i < 8 ? n - i : 8; memcpy(p + i, &v, k); }
    if (x.flip_byte >= x.bytes_out && x.flip_byte < x.bytes_out + (long)n) p[x.flip_byte - x.bytes_out] ^= 1 << x.flip_bit;
    x.bytes_out += (long)n;
    if (x.log.size() < 256) x.log.push_back(vh::B(p, n));
}
#ifdef VH_CONFIG_sodium
inline const char *s_name() { return "vh"; }
inline uint32_t s_random() { uint32_t v; fill((uint8_t *)&v, 4); return v; }
inline void s_buf(void *const p, const size_t n) { fill((uint8_t *)p, n); }
inline void s_stir() {}
inline int s_close() { return 0; }
inline randombytes_implementation *impl() { static randombytes_implementation i; i.implementation_name = s_name; i.random = s_random; i.stir = s_stir; i.uniform = nullptr; i.buf = s_buf; i.close = s_close; return &i; }
inline void install() { randombytes_set_implementation(impl()); }
#else
inline void install() {}
#endif
}
extern "C" void __wrap_noise_rand_bytes(void *p, size_t n) { rng::fill((uint8_t *)p, n); }
