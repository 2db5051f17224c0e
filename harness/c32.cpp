// The path of execution and the memory addressed do not depend on secret values: every basic block and every memory access of the
// library is traced, and all executions that differ only in secrets must leave the same trace.
#include "lib.hpp"
#include "rng.hpp"
#include "certs.hpp"
#include <noise/keys.h>
using namespace vh;
using lb::err;
// ---- the recorder -----------------------------------------------------------------------------------------------------------------
// Two modes: flow and addresses; AES's tables are constants, so for AES the constants of the program are left out of the addresses.
enum Mode { FULL, NOCONST };
struct Ev { uintptr_t pc, addr; };
namespace tr {
static bool on = false; static Mode mode = FULL; static uint64_t h = 0; static long n = 0; static Ev *rec = nullptr; static long cap = 0;
extern "C" char __executable_start, __data_start;
static inline __attribute__((always_inline)) void ev(uintptr_t pc, uintptr_t addr) {
    h = (h ^ pc) * 0x9e3779b97f4a7c15ULL; h = ((h ^ (h >> 29)) ^ addr) * 0xbf58476d1ce4e5b9ULL;
    if (rec && n < cap) rec[n] = {pc, addr};
    n++;
}
static inline __attribute__((always_inline)) void mem(uintptr_t pc, uintptr_t a) {
    if (!on) return;
    if (mode == NOCONST && a >= (uintptr_t)&__executable_start && a < (uintptr_t)&__data_start) return;
    ev(pc, a);
}
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __sanitizer_cov_trace_pc() { if (tr::on) tr::ev(PC, 0); }
#define ACC(N) void __asan_load##N##_noabort(uintptr_t a) { tr::mem(PC, a); } void __asan_store##N##_noabort(uintptr_t a) { tr::mem(PC, a); } \
    void __asan_load##N(uintptr_t a) { tr::mem(PC, a); } void __asan_store##N(uintptr_t a) { tr::mem(PC, a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { tr::mem(PC, a + n); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { tr::mem(PC, a + n); }
void __asan_loadN(uintptr_t a, size_t n) { tr::mem(PC, a + n); }
void __asan_storeN(uintptr_t a, size_t n) { tr::mem(PC, a + n); }
void __asan_handle_no_return() {}
// Library functions that look at data: those that stop early show where they stopped.
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (tr::on) { tr::ev(PC, (uintptr_t)d); tr::ev((uintptr_t)s, n); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (tr::on) { tr::ev(PC, (uintptr_t)d); tr::ev((uintptr_t)s, n); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (tr::on) tr::ev(PC, (uintptr_t)d + n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b; size_t i = 0; while (i < n && x[i] == y[i]) i++; if (tr::on) tr::ev(PC, i); return i < n ? x[i] - y[i] : 0; }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return __wrap_memcmp(a, b, n); }
int __wrap_strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; if (tr::on) tr::ev(PC, i); return (uint8_t)a[i] - (uint8_t)b[i]; }
int __wrap_strncmp(const char *a, const char *b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; if (tr::on) tr::ev(PC, i); return i < n ? (uint8_t)a[i] - (uint8_t)b[i] : 0; }
// Allocations come from an arena that every execution starts from its beginning, so that equal histories get equal addresses.
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
}
namespace ar {
static const size_t SZ = 4 << 20; static uint8_t buf[SZ] __attribute__((aligned(64))); static size_t pos = 0, high = 0; static bool on = false;
static inline bool mine(void *p) { return (uint8_t *)p >= buf && (uint8_t *)p < buf + SZ; }
static void *get(size_t n) { size_t k = (n + 15) & ~(size_t)15; if (pos + k + 32 > SZ) { printf("@error arena exhausted\n"); fflush(stdout); _exit(3); } memcpy(buf + pos, &n, sizeof n); void *p = buf + pos + 16; pos += k + 32; if (pos > high) high = pos; return p; }
static void reset() { __real_memset(buf, 0, high); pos = high = 0; }
}
extern "C" {
void *__wrap_malloc(size_t n) { return ar::on ? ar::get(n) : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return ar::on ? ar::get(n * m) : __real_calloc(n, m); }
void *__wrap_realloc(void *o, size_t n) { if (!ar::on && !ar::mine(o)) return __real_realloc(o, n); void *p = ar::get(n); if (o && ar::mine(o)) { size_t k; __real_memcpy(&k, (uint8_t *)o - 16, sizeof k); __real_memcpy(p, o, k < n ? k : n); } return p; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); __real_memcpy(p, s, n); return p; }
void __wrap_free(void *p) { if (!ar::mine(p)) __real_free(p); }
}
static std::string where(uintptr_t pc) {
    static std::string exe = [] { char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return std::string(b, n > 0 ? n : 0); }();
    FILE *f = popen(fmt("addr2line -f -s -e '%s' 0x%lx 2>/dev/null", exe.c_str(), (unsigned long)pc - 1).c_str(), "r"); char b[256] = ""; std::string s;
    if (f) { if (fgets(b, sizeof b, f)) { s = b; if (!s.empty()) s.pop_back(); } pclose(f); }
    return s.empty() ? "?" : s;
}
// ---- one experiment: prepare(v) brings everything into place for secret v, op() is traced --------------------------------------------
struct World { lb::DSt d, e; lb::CSt c; lb::HaSt ha; lb::SSt s; lb::RSt rs; lb::SySt sy; lb::HSt hi, hr; ct::PrivO priv; uint8_t a[70000], b[70000], k[4096]; size_t n, m; NoiseBuffer mb, pb;
    void clear() { d.reset(); e.reset(); c.reset(); ha.reset(); s.reset(); rs.reset(); sy.reset(); hi.reset(); hr.reset(); priv.reset(); } };
static World W;
struct Trace { uint64_t h; long n; int rc; };
template <class P, class O> static __attribute__((noinline)) Trace run1(P &prepare, O &op, int v) {
    W.clear(); ar::reset(); ar::on = true; memset(W.a, 0, sizeof W.a); memset(W.b, 0, sizeof W.b); memset(W.k, 0, sizeof W.k); W.n = W.m = 0;
    prepare(v);
    tr::h = 1; tr::n = 0; tr::on = true;
    int rc = op();
    tr::on = false; ar::on = false;
    return {tr::h, tr::n, rc};
}
// Every v in 0..count-1 must leave the trace of the first v with the same result (or, with `any`, of the very first one).
template <class P, class O> static void same(const std::string &what, Mode mode, bool any, int count, P prepare, O opr) {
    static bool warm = false; tr::mode = mode;
    if (!warm) { warm = true; run1(prepare, opr, 0); }
    std::map<int, std::pair<int, Trace>> ref; long total = 0;
    for (int v = 0; v < count; v++) {
        Trace t = run1(prepare, opr, v); op(); g().checks++; total = t.n;
        if (!t.n) failk("no trace: " + what, "%s: nothing was traced", what.c_str());
        auto it = ref.emplace(any ? 0 : t.rc, std::make_pair(v, t)).first;
        Trace &r = it->second.second;
        if (t.h != r.h || t.n != r.n) {
            long cap = std::max(t.n, r.n) + 1; Ev *x = (Ev *)__real_malloc(cap * sizeof(Ev)), *y = (Ev *)__real_malloc(cap * sizeof(Ev));
            tr::cap = cap; tr::rec = x; Trace t1 = run1(prepare, opr, it->second.first); tr::rec = y; Trace t2 = run1(prepare, opr, v); tr::rec = nullptr;
            long i = 0; while (i < t1.n && i < t2.n && x[i].pc == y[i].pc && x[i].addr == y[i].addr) i++;
            if (i == t1.n && i == t2.n) failk("not repeatable: " + what, "%s: the trace of the same secret changes from run to run", what.c_str());
            bool flow = i >= t1.n || i >= t2.n || x[i].pc != y[i].pc; std::string fn = i ? where(x[i - 1].pc) : where(x[i].pc), f2 = i < t2.n ? where(y[i].pc) : "the end";
            failk(what, "%s: %s depends on the secret: case %d (%s) and case %d (%s) part at event %ld of %ld, %s -> %s", what.c_str(), flow ? "the path taken" : "an address", it->second.first, err(r.rc).c_str(), v, err(t.rc).c_str(), i, t1.n, fn.c_str(), f2.c_str());
        }
    }
    state(mix(hash_str(what), total)); distinct(mix(hash_str(what), count)); for (auto &r : ref) distinct(mix(hash_str(what) ^ r.second.second.h, r.first));
    sample(fmt("%s: %d secrets, %ld events each, %zu result(s)", what.c_str(), count, total, ref.size()), 6); outcome(what.substr(0, what.find(':')));
}
// Secret number v of n bytes: 0 is a pattern, then every single bit flipped, then extremes, then every bit of a second pattern; thorough: then
// every value of every byte, and every pair of neighbouring bits.
static int nbits(int n) { return 1 + 8 * n + 6 + 1 + 8 * n; }
static int nsecrets(int n) { return nbits(n) + (g().thorough ? 255 * n + 8 * n - 1 : 0); }
static void secret(uint8_t *p, int n, int v, int seed = 1) {
    bytes b = pattern(n, (uint8_t)(seed * 31 + 5), 13); if (!n) return;
    auto flip = [&](int i) { b[i / 8] ^= 1 << (i & 7); };
    if (v && v <= 8 * n) flip(v - 1);
    else if (v) { v -= 8 * n; if (v <= 6) switch (v) { case 1: b.assign(n, 0); break; case 2: b.assign(n, 0xff); break; case 3: b.assign(n, 0); b[0] = 1; break; case 4: b.assign(n, 0); b[n - 1] = 0x80; break; case 5: b.assign(n, 0xAA); break; case 6: b.assign(n, 0x55); break; }
        else { v -= 7; if (v <= 8 * n) { bytes h = rc::hash(NOISE_HASH_SHA512, B(fmt("second pattern %d", seed))); for (int i = 0; i < n; i++) b[i] = h[i % 64] + (uint8_t)(i / 64); if (v) flip(v - 1); }
            else { v -= 8 * n + 1; if (v < 255 * n) b[v / 255] ^= (uint8_t)(v % 255 + 1); else { v -= 255 * n; flip(v % (8 * n)); flip((v + 1) % (8 * n)); } } } }
    memcpy(p, b.data(), n);
}
// A large space of secrets is explored in chunks of CH consecutive ones (with the pattern as the first of each).
struct Chunk { int from, n; int at(int i) const { return i ? from + i - 1 : 0; } int count() const { return n + 1; } };
static Chunk chunks(int total, int size) { int k = choose((total - 1 + size - 1) / size, "chunk"); shard(); int from = 1 + k * size; return {from, std::min(size, total - from)}; }

// ---- comparison -------------------------------------------------------------------------------------------------------------------
static void c_equal() {
    bool zero = flag("zero test"); int n = choose(g().thorough ? 140 : 70, "length"); shard(); if (!n) return;
    uint8_t *a = W.a + 3, *b = W.b + 5; int total = 1 + n * 8 + 4;
    same(fmt("%s: %d bytes", zero ? "noise_is_zero" : "noise_is_equal", n), FULL, true, total, [&](int v) {
        if (zero) memset(a, 0, n); else secret(a, n, 0); memcpy(b, a, n);
        if (v && v <= n * 8) a[(v - 1) / 8] ^= 1 << ((v - 1) & 7); else if (v == n * 8 + 1) for (int i = 0; i < n; i++) a[i] ^= 0xff; else if (v == n * 8 + 2) { a[0] ^= 1; a[n - 1] ^= 1; } else if (v == n * 8 + 3) { memset(a, 0, n); } else if (v == n * 8 + 4) { memset(a, 0x80, n); }
    }, [&] { volatile int x = zero ? noise_is_zero(a, n) : noise_is_equal(a, b, n); (void)x; return 0; });
}
// ---- Diffie-Hellman ---------------------------------------------------------------------------------------------------------------
static int dh_new(lb::DSt &d, int id) { return noise_dhstate_new_by_id(d.out(), id); }
static int np(int dh) { return (int)rc::dhlen(dh); }
static const int DHS[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448};
static const char *dhname(int d) { return d == NOISE_DH_CURVE25519 ? "25519" : d == NOISE_DH_CURVE448 ? "448" : "NewHope"; }
static void c_dh_private() {
    int dh = pick(DHS, "dh"), what = choose(3, "operation"), n = np(dh); Chunk c = chunks(nsecrets(n), 64); static const char *NAME[] = {"calculate", "set_keypair_private", "generate_keypair"};
    bytes other = rc::dh_public(dh, pattern(n, 77, 3));
    same(fmt("dh private key: %s %s", dhname(dh), NAME[what]), FULL, true, c.count(), [&](int i) {
        int v = c.at(i); dh_new(W.d, dh); dh_new(W.e, dh); noise_dhstate_set_public_key(W.e, other.data(), n); secret(W.k, n, v);
        if (what == 0) noise_dhstate_set_keypair_private(W.d, W.k, n);
        rng::reset(1); rng::r().script.push_back(B(W.k, n));
    }, [&] { return what == 0 ? noise_dhstate_calculate(W.d, W.e, W.a, n) : what == 1 ? noise_dhstate_set_keypair_private(W.d, W.k, n) : noise_dhstate_generate_keypair(W.d); });
}
static bytes hx(const char *s) { bytes b; for (; *s; s += 2) { unsigned x; sscanf(s, "%2x", &x); b += (uint8_t)x; } return b; }
// Public keys that are refused, null, of small order or not canonical take as long as any other.
static void dh_public_key(uint8_t *p, int dh, int v) {
    int n = np(dh), m = nsecrets(n);
    if (v < m) { secret(p, n, v, 9); return; }
    v -= m; bytes b(n, 0);
    if (dh == NOISE_DH_CURVE25519) {
        static const char *L[] = {"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800", "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880", "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7"};
        b = hx(L[v % 7]);
    } else { b.assign(n, 0xff); b[28] = 0xfe; int d = v % 7 - 3; if (d) b[0] = (uint8_t)(b[0] + (d < 0 ? d : 0)); if (d > 0) { for (int i = 0; i < 28; i++) b[i] = 0; b[28] = 0xff; b[0] = (uint8_t)(d - 1); } }
    memcpy(p, b.data(), n);
}
static void c_dh_public() {
    int dh = pick(DHS, "dh"), n = np(dh); Chunk c = chunks(nsecrets(n) + 7, 64);
    same(fmt("dh public key: %s calculate", dhname(dh)), FULL, true, c.count(), [&](int i) {
        dh_new(W.d, dh); dh_new(W.e, dh); secret(W.k, n, 0); noise_dhstate_set_keypair_private(W.d, W.k, n); dh_public_key(W.k, dh, c.at(i)); noise_dhstate_set_public_key(W.e, W.k, n);
    }, [&] { return noise_dhstate_calculate(W.d, W.e, W.a, n); });
}
static void c_dh_mismatch() {        // a keypair whose halves do not belong together: every bit of the public key
    int dh = pick(DHS, "dh"), n = np(dh); Chunk c = chunks(1 + 8 * n, 64);
    secret(W.k, n, 0); bytes priv = B(W.k, n), pub = rc::dh_public(dh, priv);
    same(fmt("dh keypair check: %s", dhname(dh)), FULL, false, c.count(), [&](int i) {
        int v = c.at(i); dh_new(W.d, dh); memcpy(W.k, priv.data(), n); memcpy(W.a, pub.data(), n); if (v) W.a[(v - 1) / 8] ^= 1 << ((v - 1) & 7);
    }, [&] { return noise_dhstate_set_keypair(W.d, W.k, n, W.a, n); });
}
#ifdef VH_CONFIG_ref
static void c_newhope() {            // the random bytes of both sides; the public seed stays
    int side = choose(3, "operation"); Chunk c = chunks(1 + 8 * 32 + 6, 64); static const char *NAME[] = {"Alice generate", "Bob generate", "calculate"};
    same(fmt("dh private key: NewHope %s", NAME[side]), FULL, true, c.count(), [&](int i) {
        int v = c.at(i); dh_new(W.d, NOISE_DH_NEWHOPE); dh_new(W.e, NOISE_DH_NEWHOPE); noise_dhstate_set_role(W.d, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(W.e, NOISE_ROLE_RESPONDER);
        rng::reset(4); uint8_t s[64]; memset(s, 7, 64); secret(s + 32, 32, side == 0 ? v : 0);
        rng::r().script.push_back(B(s, 64)); secret(W.k, 32, side ? v : 0, 3); rng::r().script.push_back(B(W.k, 32));
        if (side) noise_dhstate_generate_keypair(W.d);
        if (side == 2) noise_dhstate_generate_dependent_keypair(W.e, W.d);
    }, [&] { return side == 0 ? noise_dhstate_generate_keypair(W.d) : side == 1 ? noise_dhstate_generate_dependent_keypair(W.e, W.d) : noise_dhstate_calculate(W.d, W.e, W.a, 32); });
}
#endif
// ---- ciphers ----------------------------------------------------------------------------------------------------------------------
static const int CIPHERS[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM};
static const char *cname(int c) { return c == NOISE_CIPHER_AESGCM ? "AESGCM" : "ChaChaPoly"; }
static Mode cmode(int c) { return c == NOISE_CIPHER_AESGCM ? NOCONST : FULL; }
static const int LENS[] = {0, 1, 15, 16, 17, 33, 63, 64, 65, 129, 257};
static int nlens() { return g().thorough ? 11 : 9; }
static void cipher_new(int c, int keyv) { noise_cipherstate_new_by_id(W.c.out(), c); secret(W.k, 32, keyv, 2); noise_cipherstate_init_key(W.c, W.k, 32); }
static void c_cipher_key() {
    int ci = pick(CIPHERS, "cipher"), what = choose(4, "operation"), len = LENS[choose(nlens(), "length")]; Chunk c = chunks(nsecrets(32), 128); static const char *NAME[] = {"init_key", "encrypt", "decrypt", "decrypt with a wrong key"};
    same(fmt("cipher key: %s %s, %d bytes", cname(ci), NAME[what], len), cmode(ci), false, c.count(), [&](int i) {
        int v = c.at(i); cipher_new(ci, what ? v : 0); secret(W.k, 32, v, 2); secret(W.a, len + 1, 0, 6); secret(W.b, 20, 0, 8); noise_buffer_set_inout(W.mb, W.a, len, len + 16);
        if (what >= 2) { noise_cipherstate_encrypt_with_ad(W.c, W.b, 20, &W.mb); cipher_new(ci, what == 2 ? v : (v + 1) % nsecrets(32)); noise_buffer_set_inout(W.mb, W.a, len + 16, len + 16); }
    }, [&] { return what == 0 ? noise_cipherstate_init_key(W.c, W.k, 32) : what == 1 ? noise_cipherstate_encrypt_with_ad(W.c, W.b, 20, &W.mb) : noise_cipherstate_decrypt_with_ad(W.c, W.b, 20, &W.mb); });
}
static void c_cipher_data() {
    int ci = pick(CIPHERS, "cipher"), what = choose(3, "operation"), len = LENS[1 + choose(nlens() - 1, "length")]; Chunk c = chunks(nsecrets(len), 512); static const char *NAME[] = {"encrypt", "decrypt", "encrypt (associated data)"};
    same(fmt("plaintext: %s %s, %d bytes", cname(ci), NAME[what], len), cmode(ci), false, c.count(), [&](int i) {
        int v = c.at(i); cipher_new(ci, 0); secret(W.a, len, what == 2 ? 0 : v, 6); secret(W.b, len, what == 2 ? v : 0, 8); noise_buffer_set_inout(W.mb, W.a, len, len + 16);
        if (what == 1) { noise_cipherstate_encrypt_with_ad(W.c, W.b, len, &W.mb); cipher_new(ci, 0); noise_buffer_set_inout(W.mb, W.a, len + 16, len + 16); }
    }, [&] { return what == 1 ? noise_cipherstate_decrypt_with_ad(W.c, W.b, len, &W.mb) : noise_cipherstate_encrypt_with_ad(W.c, W.b, len, &W.mb); });
}
static void c_cipher_forge() {       // rejection takes the same path wherever the difference is
    int ci = pick(CIPHERS, "cipher"), len = LENS[choose(nlens(), "length")]; Chunk c = chunks(1 + 8 * (len + 16) + 3, 512);
    same(fmt("forged packet: %s, %d bytes", cname(ci), len), cmode(ci), false, c.count(), [&](int i) {
        int v = c.at(i), t = 8 * (len + 16); cipher_new(ci, 0); secret(W.a, len + 1, 0, 6); noise_buffer_set_inout(W.mb, W.a, len, len + 16); noise_cipherstate_encrypt_with_ad(W.c, W.b, 9, &W.mb); cipher_new(ci, 0); noise_buffer_set_inout(W.mb, W.a, len + 16, len + 16);
        if (v && v <= t) W.a[(v - 1) / 8] ^= 1 << ((v - 1) & 7); else if (v == t + 1) memset(W.a + len, 0, 16); else if (v == t + 2) memset(W.a + len, 0xff, 16); else if (v == t + 3) for (int k = 0; k < 16; k++) W.a[len + k] ^= 0xff;
    }, [&] { return noise_cipherstate_decrypt_with_ad(W.c, W.b, 9, &W.mb); });
}
// ---- hashing ----------------------------------------------------------------------------------------------------------------------
static const int HASHES[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
static const char *hname(int h) { return h == NOISE_HASH_BLAKE2s ? "BLAKE2s" : h == NOISE_HASH_BLAKE2b ? "BLAKE2b" : h == NOISE_HASH_SHA256 ? "SHA256" : "SHA512"; }
static void c_hash() {
    int h = pick(HASHES, "hash"), what = choose(4, "operation"), len = ((int[]){1, 32, 56, 63, 64, 65, 127, 128, 129, 200})[choose(g().thorough ? 10 : 6, "length")]; Chunk c = chunks(nsecrets(len), 600); static const char *NAME[] = {"hash", "hkdf (chaining key)", "hkdf (input)", "pbkdf2"};
    same(fmt("hashed secret: %s %s, %d bytes", hname(h), NAME[what], len), FULL, true, c.count(), [&](int i) {
        int v = c.at(i); noise_hashstate_new_by_id(W.ha.out(), h); secret(W.k, len, v, 4);
    }, [&] { size_t hl = rc::hashlen(h);
        return what == 0 ? noise_hashstate_hash_one(W.ha, W.k, len, W.a, hl) : what == 1 ? noise_hashstate_hkdf(W.ha, W.k, len, W.b, 32, W.a, hl, W.a + 100, 32)
            : what == 2 ? noise_hashstate_hkdf(W.ha, W.b, hl, W.k, len, W.a, hl, W.a + 100, hl) : noise_hashstate_pbkdf2(W.ha, W.k, len, W.b, 16, 2, W.a, 40); });
}
// ---- signatures -------------------------------------------------------------------------------------------------------------------
static void c_sign() {
    int what = choose(5, "operation"), len = ((int[]){0, 32, 100})[choose(3, "length")]; Chunk c = chunks(nsecrets(32), 64); static const char *NAME[] = {"sign", "set_keypair_private", "generate_keypair", "keypair check (public key)", "sign (message)"};
    same(fmt("signing key: %s, %d bytes", NAME[what], len), FULL, what != 3, c.count(), [&](int i) {
        int v = c.at(i), kv = what >= 3 ? 0 : v; noise_signstate_new_by_id(W.s.out(), NOISE_SIGN_ED25519); secret(W.k, 32, kv, 7); if (what == 0 || what == 4) noise_signstate_set_keypair_private(W.s, W.k, 32); secret(W.b, len + 40, what == 4 ? v : 0, 2);
        rng::reset(1); rng::r().script.push_back(B(W.k, 32));
        if (what == 3) { bytes p = rc::ed_public(B(W.k, 32)); if (v && v <= 256) p[(v - 1) / 8] ^= 1 << ((v - 1) & 7); memcpy(W.a, p.data(), 32); }
    }, [&] { return what == 0 || what == 4 ? noise_signstate_sign(W.s, W.b, len, W.a, 64) : what == 1 ? noise_signstate_set_keypair_private(W.s, W.k, 32) : what == 2 ? noise_signstate_generate_keypair(W.s) : noise_signstate_set_keypair(W.s, W.k, 32, W.a, 32); });
}
// ---- random numbers ---------------------------------------------------------------------------------------------------------------
static void c_rand() {
    int len = ((int[]){1, 32, 64, 100, 1000})[choose(5, "length")], what = choose(3, "operation"); Chunk c = chunks(nsecrets(32), 600); static const char *NAME[] = {"generate", "reseed", "pad"};
    same(fmt("random numbers: %s, %d bytes", NAME[what], len), FULL, true, c.count(), [&](int i) { rng::reset(3); secret(W.k, 32, c.at(i), 5); for (int k = 0; k < 4; k++) rng::r().script.push_back(B(W.k, 32)); noise_randstate_new(W.rs.out()); },
        [&] { return what == 0 ? noise_randstate_generate(W.rs, W.a, len) : what == 1 ? noise_randstate_reseed(W.rs) : noise_randstate_pad(W.rs, W.a, len, len + 50, NOISE_PADDING_RANDOM); });
}
// ---- handshakes and sessions ------------------------------------------------------------------------------------------------------
// Everything both sides keep secret changes: static and ephemeral keys, the pre-shared key, the payloads.
struct Msgs { uint8_t m[4096], p[512], q[512]; };
static Msgs M; static NoiseProtobuf PB;
static int handshake(const rn::Proto &) {
    int e; bool turn = true; NoiseBuffer mb, pb;
    if ((e = noise_handshakestate_start(W.hi)) || (e = noise_handshakestate_start(W.hr))) return e;
    for (int k = 0; k < 4 && noise_handshakestate_get_action(turn ? W.hi : W.hr) == NOISE_ACTION_WRITE_MESSAGE; k++, turn = !turn) {
        NoiseHandshakeState *w = turn ? W.hi : W.hr, *r = turn ? W.hr : W.hi;
        noise_buffer_set_output(mb, M.m, sizeof M.m); noise_buffer_set_input(pb, M.p, 40);
        if ((e = noise_handshakestate_write_message(w, &mb, &pb))) return e;
        noise_buffer_set_output(pb, M.q, sizeof M.q);
        if ((e = noise_handshakestate_read_message(r, &mb, &pb))) return e;
    }
    NoiseCipherState *c1 = 0, *c2 = 0, *d1 = 0, *d2 = 0; uint8_t hh[64];
    if ((e = noise_handshakestate_get_handshake_hash(W.hi, hh, rc::hashlen(NOISE_HASH_BLAKE2s)))) return e;
    if ((e = noise_handshakestate_split(W.hi, &c1, &c2)) || (e = noise_handshakestate_split(W.hr, &d1, &d2))) return e;
    noise_buffer_set_inout(mb, M.p, 40, sizeof M.p);
    e = noise_cipherstate_encrypt(c1, &mb); if (!e && d2) e = noise_cipherstate_decrypt(d2, &mb);
    noise_cipherstate_free(c1); noise_cipherstate_free(c2); noise_cipherstate_free(d1); noise_cipherstate_free(d2);
    return e;
}
static void prep_handshake(const rn::Proto &p, int v) {
    rng::reset(1000 + v); lb::Pair m = lb::model_pair(p, B("prologue"), v); lb::create(W.hi, p, true); lb::create(W.hr, p, false); lb::configure(W.hi, m.i, false); lb::configure(W.hr, m.r, false); secret(M.p, 40, v % 300, 3);
}
static void c_handshake() {
    static std::vector<rn::Proto> v = [] { std::vector<rn::Proto> r = lb::core_protos(); if (g().thorough) { for (auto &p : lb::all_protos()) if (p.dh != NOISE_DH_NEWHOPE && p.hybrid != NOISE_DH_NEWHOPE) r.push_back(p); return r; } for (int ci : CIPHERS) for (int h : HASHES) for (int dh : DHS) { rn::Proto p; p.pattern = NOISE_PATTERN_XX; p.psk = 1; p.dh = dh; p.hybrid = 0; p.cipher = ci; p.hash = h; r.push_back(p); p.pattern = NOISE_PATTERN_IK; r.push_back(p); } return r; }();
    const rn::Proto &p = pick(v, "protocol"); shard(); int n = g().thorough ? 40 : 8;
    same(fmt("handshake: %s", p.name().c_str()), cmode(p.cipher), false, n, [&](int k) { prep_handshake(p, k); }, [&] { return handshake(p); });
}
// One secret at a time, bit by bit, in whole handshakes.
static void c_handshake_bits() {
    static const int PATS[] = {NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_KK, NOISE_PATTERN_NN}; rn::Proto p; p.pattern = pick(PATS, "pattern"); p.psk = 1; p.hybrid = 0; int ci = p.cipher = pick(CIPHERS, "cipher"); p.dh = g().thorough ? pick(DHS, "dh") : (int)NOISE_DH_CURVE25519; p.hash = HASHES[choose(g().thorough ? 4 : 2, "hash")]; int dl = np(p.dh);
    int what = choose(4, "secret"); static const char *NAME[] = {"pre-shared key", "payload", "initiator's static key", "responder's static key"}; if (what >= 2 && p.pattern == NOISE_PATTERN_NN) skip();
    int n = what == 0 ? 32 : what == 1 ? 40 : dl; Chunk c = chunks(g().thorough ? nbits(n) : 1 + 8 * n + 6, 200); lb::Pair base = lb::model_pair(p, B("prologue"), 1);
    // the public keys that both sides exchange change with the private ones, but not in length
    same(fmt("handshake secrets: %s, %s", p.name().c_str(), NAME[what]), cmode(ci), true, c.count(), [&](int i) {
        int v = c.at(i); rng::reset(77); lb::Pair m = base; secret(M.p, 40, what == 1 ? v : 0, 3); secret(W.k, n, v, 11); bytes k = B(W.k, n);
        if (what == 0) m.i.psk = m.r.psk = k;
        if (what == 2) { m.i.s.priv = k; m.i.s.pub = rc::dh_public(p.dh, k); if (m.r.rs.pub.size()) m.r.rs.pub = m.i.s.pub; }
        if (what == 3) { m.r.s.priv = k; m.r.s.pub = rc::dh_public(p.dh, k); if (m.i.rs.pub.size()) m.i.rs.pub = m.r.s.pub; }
        lb::create(W.hi, p, true); lb::create(W.hr, p, false); lb::configure(W.hi, m.i, false); lb::configure(W.hr, m.r, false);
    }, [&] { return handshake(p); });
}
// A handshake message with one bit changed after the part that is public is refused along one path.
static void c_message() {
    static const int PATS[] = {NOISE_PATTERN_IK, NOISE_PATTERN_XX, NOISE_PATTERN_NN, NOISE_PATTERN_K}; int pat = pick(PATS, "pattern"); int ci = pick(CIPHERS, "cipher"); rn::Proto p; p.pattern = pat; p.psk = 1; p.dh = NOISE_DH_CURVE25519; p.hybrid = 0; p.cipher = ci; p.hash = NOISE_HASH_SHA256;
    int part = choose(3, "part"); static const char *NAME[] = {"ephemeral key", "payload", "static key"}; if (part == 2 && pat != NOISE_PATTERN_IK) skip();
    int payload = 24, extra = pat == NOISE_PATTERN_IK ? 48 : 0, from = part == 0 ? 0 : part == 1 ? 32 + extra : 32, total = 8 * (part == 0 ? 32 : part == 1 ? payload + 16 : extra); Chunk c = chunks(1 + total, 100);
    same(fmt("forged message: %s, %s", p.name().c_str(), NAME[part]), cmode(ci), false, c.count(), [&](int i) {
        int v = c.at(i); prep_handshake(p, 1); noise_handshakestate_start(W.hi); noise_handshakestate_start(W.hr); NoiseBuffer pb; noise_buffer_set_output(W.mb, M.m, sizeof M.m); noise_buffer_set_input(pb, M.p, payload); noise_handshakestate_write_message(W.hi, &W.mb, &pb);
        if (v) M.m[from + (v - 1) / 8] ^= 1 << ((v - 1) & 7);
        noise_buffer_set_output(W.pb, M.q, sizeof M.q);
    }, [&] { int rc = noise_handshakestate_read_message(W.hr, &W.mb, &W.pb); return rc; });
}
// ---- protected key files ----------------------------------------------------------------------------------------------------------
static void c_protected() {
    static const char *PROT[] = {"ChaChaPoly_BLAKE2b_PBKDF2", "AESGCM_SHA256_PBKDF2", "ChaChaPoly_SHA512_PBKDF2", "AESGCM_BLAKE2s_PBKDF2"}; int k = choose(4, "protection"), what = choose(3, "operation"), plen = ((int[]){1, 8, 40})[choose(3, "passphrase length")];
    int ci = k & 1 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY, h = ((int[]){NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s})[k]; static const char *NAME[] = {"load (passphrase)", "load (wrong passphrase)", "load (key inside)"};
    Chunk c = chunks(what == 2 ? nsecrets(32) : nsecrets(plen), 200);
    same(fmt("protected key: %s, %s, %d-byte passphrase", PROT[k], NAME[what], plen), cmode(ci), false, c.count(), [&](int i) {
        int v = c.at(i); ct::PrivKey pk; pk.id = B("id"); ct::Key key; key.alg = B("25519"); secret(W.b, 32, what == 2 ? v : 0, 3); key.key = B(W.b, 32); pk.keys.push_back(key); secret(W.b, plen, what == 2 ? 0 : v, 9); bytes pass = B(W.b, plen); if (what == 1) { secret(W.b, plen, 0, 9); bytes good = B(W.b, plen); good[0] ^= 0x40; good[plen - 1] ^= 0x20; if (pass == good) pass[0] ^= 0x10; memcpy(W.k, pass.data(), plen); pass = good; } else memcpy(W.k, pass.data(), plen);
        bytes f = ct::protect(pk.enc(), pass, PROT[k], ci, h, 2, pattern(16, 3)); memset(W.b, 0, 64); memcpy(W.a, f.data(), f.size()); W.n = f.size(); noise_protobuf_prepare_input(&PB, W.a, W.n); W.m = plen;
    }, [&] { return noise_load_private_key_from_buffer(W.priv.out(), &PB, W.k, W.m); });
}
static void body() {
    static int only = g().opts.count("only") ? atoi(g().opts["only"].c_str()) : -1; switch (only >= 0 ? only : choose(15, "part")) {
    case 0: c_equal(); break; case 1: c_dh_private(); break; case 2: c_dh_public(); break; case 3: c_dh_mismatch(); break; case 4: c_cipher_key(); break; case 5: c_cipher_data(); break; case 6: c_cipher_forge(); break;
    case 7: c_hash(); break; case 8: c_sign(); break; case 9: c_rand(); break; case 10: c_handshake(); break; case 11: c_message(); break; case 12: c_protected(); break;
    case 13: c_handshake_bits(); break;
    case 14:
#ifdef VH_CONFIG_ref
        c_newhope();
#else
        skip();
#endif
        break;
    }
}
static void pause(bool in) { static bool was; if (in) { was = tr::on; tr::on = false; } else tr::on = was; }
static void setup() { if (g().opts.count("lite")) g().thorough = false; rng::install(); rng::around() = pause; noise_init(); }
VH_MAIN2(body, setup)
