// C21: random output and padding.  With -DVH_OS the seam is the operating system (open/read/close/exit are replaced while armed),
// otherwise it is the library's own source of entropy.
#include "lib.hpp"
#ifdef VH_OS
#include <fcntl.h>
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/types.h>
namespace osr {
struct Req { size_t asked = 0, got = 0; bool open_failed = false, closed = false; };
struct S { bool armed = false; int fd = -1, budget = 0; uint64_t seed = 1; long ctr = 0, flip = -1, bits = 0; int flip_bit = 0; std::vector<Req> reqs; jmp_buf jb; bool jb_ok = false; std::string tr; };
inline S &s() { static S *x = new S; return *x; }
inline void reset(uint64_t seed) { s().seed = seed; s().ctr = 0; s().flip = -1; s().reqs.clear(); s().tr.clear(); s().budget = 0; }
inline uint64_t sm(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline void deliver(void *b, size_t n) { for (size_t i = 0; i < n; i++) { uint8_t v = (uint8_t)sm(s().seed * 977 + s().ctr); if (s().ctr == s().flip) v ^= 1 << s().flip_bit; s().ctr++; ((uint8_t *)b)[i] = v; } }
static const char *oe[] = {"", "open ENOENT", "open EMFILE", "open EINTR"}; static const int oev[] = {0, ENOENT, EMFILE, EINTR};
inline int on_open() { S &x = s(); Req r; int c = 0; if (x.budget > 0) { c = vh::choose(4, "open"); if (c) x.budget--; } if (c) { r.open_failed = true; x.reqs.push_back(r); x.tr += std::string(oe[c]) + "; "; errno = oev[c]; return -1; } x.reqs.push_back(r); x.fd = 1000; return 1000; }
inline ssize_t on_read(void *b, size_t n) {
    S &x = s(); if (x.reqs.empty()) x.reqs.push_back(Req()); Req &r = x.reqs.back(); if (!r.asked) r.asked = n; int c = 0; if (x.budget > 0) { c = vh::choose(8, "read"); if (c) x.budget--; }
    size_t k = n; switch (c) { case 0: break; case 1: x.tr += "read EINTR; "; errno = EINTR; return -1; case 2: x.tr += "read EIO; "; errno = EIO; return -1; case 3: x.tr += "read EAGAIN; "; errno = EAGAIN; return -1; case 4: k = 0; break; case 5: k = 1; break; case 6: k = n / 2; break; default: k = n ? n - 1 : 0; }
    if (k != n) x.tr += vh::fmt("read %zu of %zu; ", k, n); deliver(b, k); r.got += k; return (ssize_t)k;
}
inline bool is_dev(const char *p) { return s().armed && p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
inline bool mine(int fd) { return s().armed && fd == 1000; }
inline void gone(const char *how) { if (s().armed && s().jb_ok) { s().tr += how; s().armed = false; longjmp(s().jb, 1); } }
}
extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int); void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn)); void __real__exit(int) __attribute__((noreturn)); ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t); ssize_t __real___read_chk(int, void *, size_t, size_t); int __real___open_2(const char *, int); int __real___open64_2(const char *, int);
static mode_t mode_of(int fl, va_list ap) { return fl & O_CREAT ? va_arg(ap, int) : 0; }
int __wrap_open(const char *p, int fl, ...) { if (osr::is_dev(p)) return osr::on_open(); va_list ap; va_start(ap, fl); mode_t m = mode_of(fl, ap); va_end(ap); return __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { if (osr::is_dev(p)) return osr::on_open(); va_list ap; va_start(ap, fl); mode_t m = mode_of(fl, ap); va_end(ap); return __real_open(p, fl, m); }
int __wrap_openat(int d, const char *p, int fl, ...) { if (osr::is_dev(p)) return osr::on_open(); va_list ap; va_start(ap, fl); mode_t m = mode_of(fl, ap); va_end(ap); return __real_openat(d, p, fl, m); }
int __wrap___open_2(const char *p, int fl) { if (osr::is_dev(p)) return osr::on_open(); return __real_open(p, fl); }
int __wrap___open64_2(const char *p, int fl) { if (osr::is_dev(p)) return osr::on_open(); return __real_open(p, fl); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (osr::mine(fd)) return osr::on_read(b, n); return __real_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { if (osr::mine(fd)) return osr::on_read(b, n); return __real_read(fd, b, n); }
int __wrap_close(int fd) { if (osr::mine(fd)) { if (!osr::s().reqs.empty()) osr::s().reqs.back().closed = true; return 0; } return __real_close(fd); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (osr::s().armed) { osr::s().reqs.push_back(osr::Req()); return osr::on_read(b, n); } return __real_getrandom(b, n, f); }
int __wrap_getentropy(void *b, size_t n) { if (osr::s().armed) { osr::s().reqs.push_back(osr::Req()); ssize_t r = osr::on_read(b, n); return r == (ssize_t)n ? 0 : (errno = EIO, -1); } return __real_getentropy(b, n); }
void __wrap_exit(int c) { osr::gone("exit"); __real_exit(c); }
void __wrap__exit(int c) { osr::gone("_exit"); __real__exit(c); }
void __wrap_abort(void) { osr::gone("abort"); __real_abort(); }
}
#else
#include "rng.hpp"
#endif
#include <malloc.h>
using namespace vh;
// consumers of entropy: everything they produce
static const char *cn[] = {"generate_simple", "new and generate", "reseed and generate", "generating past the reseed limit", "Curve25519 keypair", "Curve448 keypair", "NewHope keypair", "dependent NewHope keypair", "Ed25519 keypair", "ephemeral key of a handshake", "dependent Curve25519 keypair"};
static const int NCONS = 11;
struct Consumer {
    int which; lb::RSt r; lb::DSt d, d2; lb::SSt s; lb::HSt h; bytes big, out;
    explicit Consumer(int w) : which(w) {
        int e = 0;
        if (w == 2 || w == 3) { e = noise_randstate_new(r.out()); CHECK(e == 0, "new"); if (w == 3) { big = bytes(1599000, 0); noise_randstate_generate(r, &big[0], big.size()); } }
        if (w == 4 || w == 10) e = noise_dhstate_new_by_id(d.out(), NOISE_DH_CURVE25519); if (w == 5) e = noise_dhstate_new_by_id(d.out(), NOISE_DH_CURVE448); if (w == 6 || w == 7) e = noise_dhstate_new_by_id(d.out(), NOISE_DH_NEWHOPE); CHECK(e == 0, "new");
        if (w == 6) noise_dhstate_set_role(d, NOISE_ROLE_INITIATOR);
        if (w == 7) { noise_dhstate_set_role(d, NOISE_ROLE_RESPONDER); noise_dhstate_new_by_id(d2.out(), NOISE_DH_NEWHOPE); noise_dhstate_set_role(d2, NOISE_ROLE_INITIATOR); bytes k = lb::secret('n', 'a', 64); noise_dhstate_set_keypair_private(d2, k.data(), 64); }
        if (w == 10) { noise_dhstate_new_by_id(d2.out(), NOISE_DH_CURVE25519); bytes k = lb::secret('n', 'b', 32); noise_dhstate_set_keypair_private(d2, k.data(), 32); }
        if (w == 8) noise_signstate_new_by_id(s.out(), NOISE_SIGN_ED25519);
        if (w == 9) { e = noise_handshakestate_new_by_name(h.out(), "Noise_NN_25519_ChaChaPoly_SHA256", NOISE_ROLE_INITIATOR); CHECK(e == 0, "new"); }
        out = bytes(4096, 0);
    }
    // the step that asks for entropy
    int run() {
        size_t n = 0; int e = 0; uint8_t *o = &out[0]; op();
        switch (which) {
        case 0: e = noise_randstate_generate_simple(o, 64); n = 64; break;
        case 1: e = noise_randstate_new(r.out()); if (!e) e = noise_randstate_generate(r, o, 64); n = 64; break;
        case 2: e = noise_randstate_reseed(r); if (!e) e = noise_randstate_generate(r, o, 64); n = 64; break;
        case 3: e = noise_randstate_generate(r, o, 2048); n = 2048; break;
        case 4: case 5: case 6: case 7: case 10: { e = which == 7 || which == 10 ? noise_dhstate_generate_dependent_keypair(d, d2) : noise_dhstate_generate_keypair(d); size_t a = noise_dhstate_get_private_key_length(d), b = noise_dhstate_get_public_key_length(d); if (!e) e = noise_dhstate_get_keypair(d, o, a, o + a, b); n = a + b; break; }
        case 8: e = noise_signstate_generate_keypair(s); if (!e) e = noise_signstate_get_keypair(s, o, 32, o + 32, 32); n = 64; break;
        default: { e = noise_handshakestate_start(h); NoiseBuffer b; noise_buffer_set_output(b, o, 128); if (!e) e = noise_handshakestate_write_message(h, &b, 0); n = 32; }
        }
        out.resize(e ? 0 : n); return e;
    }
};
typedef std::unordered_set<uint64_t> Set;
static uint64_t win(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
// remembers output and refuses anything seen before
struct Seen {
    Set s; void add(const uint8_t *p, size_t n, size_t step, const char *what) { for (size_t i = 0; i + 8 <= n; i += step) if (!s.insert(win(p + i)).second) failk("repeated output", "%s produced, at byte %zu, 8 bytes that were produced before", what, i); }
    bool has(const uint8_t *p) const { return s.count(win(p)); }
};
#ifndef VH_OS
static const uint64_t LIMIT = 1600000;
// The image of a generator after a request, with any counter set back, gives nothing of what was produced
static void rollback(NoiseRandState *r, const Seen &seen, const std::string &tr) {
    size_t n = malloc_usable_size(r); bytes img = B(r, n); for (size_t i = 0; i + 8 <= n; i++) if (seen.has(img.data() + i)) { bytes w = img.substr(i, 8); bool trivial = true; for (auto c : w) if (c != w[0]) trivial = false; if (!trivial) failk("output in the state", "byte %zu of the state holds earlier output after %s", i, tr.c_str()); }
    Block o(64 * 3); op();
    for (size_t w = 0; w + 4 <= n; w += 4) {
        uint64_t q = win(img.data() + (w & ~7ul)); if (w + 8 <= n && (q >> 40) >= 0x50 && (q >> 40) <= 0x7f) { continue; }      // looks like a pointer: not a counter
        uint32_t v0; memcpy(&v0, img.data() + w, 4);
        for (int k = 0; k < 40; k++) { uint32_t v = k < 20 ? k : v0 - (k - 19); memcpy((uint8_t *)r + w, &v, 4); int e = noise_randstate_generate(r, o.p, o.n); memcpy((void *)r, img.data(), n); if (e) continue; for (int b = 0; b < 3; b++) if (seen.has(o.p + b * 64)) failk("earlier output can be recovered", "with word %zu of the state set to %u the generator repeats earlier output, after %s", w / 4, v, tr.c_str()); }
    }
}
static const char *opn[] = {"generate 1", "generate 16", "generate 64", "generate 65", "generate 1024", "generate 1025", "generate 2200", "reseed", "pad randomly", "generate_simple", "generate 0", "pad with zeroes"};
static const size_t len[] = {1, 16, 64, 65, 1024, 1025, 2200};
static void sequences() {
    int depth = 1 + choose(g().thorough ? 5 : 3, "depth"); bool few = depth > 3 + (int)g().thorough; static const int fw[] = {0, 2, 3, 5, 7, 9}; int w = few ? 12 : 24; int c0 = choose(w, "call"), c1 = depth > 1 ? choose(w, "call") : -1; shard();
    rng::reset(5); lb::RSt R[2]; for (auto &x : R) { long before = rng::r().calls; int e = noise_randstate_new(x.out()); CHECK(e == 0, "new"); if (rng::r().calls == before) outcome("the entropy seam was not reached"); }
    Seen seen; std::string tr;
    for (int d = 0; d < depth; d++) {
        int c = d == 0 ? c0 : d == 1 ? c1 : choose(w, "call"); NoiseRandState *r = R[c & 1]; c = few ? fw[c / 2] : c / 2; tr += fmt("%s%s(%c)", d ? ", " : "", opn[c], r == (NoiseRandState *)R[1] ? 'B' : 'A'); note(tr); op(); int e;
        if (c < 7) { Block b(len[c]); e = noise_randstate_generate(r, b.p, b.n); CHECK(e == 0, "generate: %s", lb::err(e).c_str()); seen.add(b.p, b.n, 1, tr.c_str()); }
        else if (c == 7) { long before = rng::r().calls; e = noise_randstate_reseed(r); CHECK(e == 0, "reseed: %s", lb::err(e).c_str()); CHECKK("no fresh entropy", rng::r().calls > before || !rng::r().calls, "a reseed asked for no entropy after %s", tr.c_str()); }
        else if (c == 8) { Block b(105); e = noise_randstate_pad(r, b.p, 5, 105, NOISE_PADDING_RANDOM); CHECK(e == 0, "pad: %s", lb::err(e).c_str()); seen.add(b.p + 5, 100, 1, tr.c_str()); }
        else if (c == 9) { Block b(40); long before = rng::r().calls; e = noise_randstate_generate_simple(b.p, b.n); CHECK(e == 0, "generate_simple: %s", lb::err(e).c_str()); seen.add(b.p, b.n, 1, tr.c_str()); CHECKK("no fresh entropy", rng::r().calls > before || !rng::r().calls, "generate_simple asked for no entropy after %s", tr.c_str()); }
        else if (c == 10) { Block b(0); e = noise_randstate_generate(r, b.p, 0); CHECK(e == 0, "generate 0: %s", lb::err(e).c_str()); }
        else { Block b(40); e = noise_randstate_pad(r, b.p, 7, 40, NOISE_PADDING_ZERO); CHECK(e == 0, "pad: %s", lb::err(e).c_str()); for (size_t i = 0; i < 40; i++) CHECKK("padding", b.p[i] == (i < 7 ? 0xA5 : 0), "zero padding"); }
    }
    if (depth <= 2 || c0 == c1) for (auto &x : R) rollback(x, seen, tr);
    Seen all = seen; for (auto &x : R) { Block b(192); int e = noise_randstate_generate(x, b.p, b.n); CHECK(e == 0, "generate"); all.add(b.p, b.n, 1, (tr + ", generate 192").c_str()); }
    if (depth <= 2 || c0 == c1) for (auto &x : R) rollback(x, all, tr + ", generate 192");
    distinct(hash_str(tr)); outcome("histories of two generators"); if (c0 == 14 && depth == 2) sample(tr);
}
// Large requests: reseeding, and no repetition over the whole of the output
static void large() {
    static const size_t sz[] = {64, 1599936, 1600000, 1600001, 3200064, 4800065, 1599000, 8000, 0}; int depth = g().thorough ? 3 : 2; std::vector<int> h; for (int d = 0; d < depth; d++) h.push_back(choose(9, "request")); shard(); g().ticks = 0;
    rng::reset(6); lb::RSt R; int e = noise_randstate_new(R.out()); CHECK(e == 0, "new"); bool seam = rng::r().calls > 0; Seen seen; std::string tr; uint64_t since = 0; std::vector<size_t> ls; for (int c : h) ls.push_back(sz[c]); for (int i = 0; i < 30; i++) ls.push_back(64);
    size_t at = 0;
    for (size_t n : ls) {
        at++; if (ls.size() < 40) tr = fmt("%s%zu ", tr.substr(0, 80).c_str(), n); Block b(n ? n : 8); long before = rng::r().calls; op(); if (!n) { e = noise_randstate_reseed(R); CHECK(e == 0, "reseed"); since = 0; continue; }
        e = noise_randstate_generate(R, b.p, n); CHECK(e == 0, "generate: %s", lb::err(e).c_str()); uint64_t k = rng::r().calls - before; CHECKK("not reseeded", !seam || since + n <= (k + 1) * LIMIT, "%llu bytes were produced with %llu reseeds after %s", (unsigned long long)(since + n), (unsigned long long)k, tr.c_str()); since = since + n > k * LIMIT ? since + n - k * LIMIT : 0; seen.add(b.p, n, n > 100000 ? 16 : 1, tr.c_str()); g().ticks = 0; if (at <= h.size()) rollback(R, seen, tr); g().ticks = 0;
    }
    distinct(hash_str(tr, h[0] * 81 + h[1] * 9)); outcome("large requests");
}
// One request of every length around every number of blocks, after nothing, after another request or after a reseed: nothing of it can be recovered
static void requests() {
    int nb = choose(g().thorough ? 140 : 70, "blocks"), pre = choose(4, "before"); shard(); static const size_t ps[] = {0, 100, 1024, 0};
    for (int d = -1; d <= 1; d++) {
        long n = nb * 64L + d; if (n < 0) continue; rng::reset(11); lb::RSt R; int e = noise_randstate_new(R.out()); CHECK(e == 0, "new"); Seen seen; if (pre == 3) noise_randstate_reseed(R);
        if (ps[pre]) { Block b(ps[pre]); e = noise_randstate_generate(R, b.p, b.n); CHECK(e == 0, "generate"); seen.add(b.p, b.n, 1, "the request before"); }
        Block b(n); e = noise_randstate_generate(R, b.p, b.n); CHECK(e == 0, "generate"); op(); std::string tr = fmt("a request of %ld bytes", n); seen.add(b.p, b.n, 1, tr.c_str()); rollback(R, seen, tr);
        Block c(200); e = noise_randstate_generate(R, c.p, c.n); CHECK(e == 0, "generate"); seen.add(c.p, c.n, 1, (tr + " and another").c_str()); distinct(mix(n, pre));
    }
    outcome("one request of every length");
}
static void repeated() {   // many small requests up to and past the limit
    static const size_t sz[] = {1, 63, 64, 65, 1000, 1024, 4096}; size_t n = sz[choose(7, "request")]; int pre = choose(3, "before"); shard(); rng::reset(7); lb::RSt R; int e = noise_randstate_new(R.out()); CHECK(e == 0, "new"); bool seam = rng::r().calls > 0; Seen seen; uint64_t since = 0; Block b(n), p(1000000);
    if (pre == 1) { noise_randstate_generate(R, p.p, 1000000); since = 1000000; } if (pre == 2) noise_randstate_reseed(R);
    for (uint64_t total = 0, i = 0; total < 2 * LIMIT + 10000 && i < (g().thorough ? 300000u : 40000u); total += n, i++) { long before = rng::r().calls; e = noise_randstate_generate(R, b.p, n); CHECK(e == 0, "generate"); op(); uint64_t k = rng::r().calls - before; CHECKK("not reseeded", !seam || since + n <= (k + 1) * LIMIT, "%llu bytes in requests of %zu without a reseed", (unsigned long long)(since + n), n); since = k ? 0 : since + n; seen.add(b.p, n, 8, fmt("request %llu of %zu bytes", (unsigned long long)i, n).c_str()); g().ticks = 0; }
    distinct(mix(n, pre)); outcome("small requests past the limit");
}
// Padding
static void padding() {
    size_t o = choose(72, "original length"); bool withstate = !flag("no state"); shard(); rng::reset(8); lb::RSt R; int e = noise_randstate_new(R.out()); CHECK(e == 0, "new"); Seen seen;
    static const int modes[] = {NOISE_PADDING_ZERO, NOISE_PADDING_RANDOM, 0, 9999};
    std::vector<size_t> ps; for (size_t p = 0; p <= 150; p++) ps.push_back(p); for (size_t p : {1000u, 1024u + (unsigned)o, 1025u + (unsigned)o, 5000u}) ps.push_back(p);
    for (size_t p : ps) for (int m : modes) for (int pre : {0x5A, 0x00}) {
        size_t n = o > p ? o : p; bytes in = pattern(o, 3, 5); Block b(n); memset(b.p, pre, n); memcpy(b.p, in.data(), o); e = noise_randstate_pad(withstate ? (NoiseRandState *)R : nullptr, b.p, o, p, m); op();
        CHECKK("payload", b.get().substr(0, o) == in, "padding %zu bytes to %zu changed the payload", o, p);
        if (!withstate) { CHECK(e == NOISE_ERROR_INVALID_PARAM, "padding without a generator: %s", lb::err(e).c_str()); for (size_t i = o; i < n; i++) CHECKK("padding", b.p[i] == 0, "old contents are left in the padding without a generator"); }
        else { CHECK(e == 0, "pad %zu to %zu: %s", o, p, lb::err(e).c_str()); if (p > o) { if (m == NOISE_PADDING_ZERO) { for (size_t i = o; i < p; i++) CHECKK("padding", b.p[i] == 0, "zero padding %zu to %zu has a non-zero byte at %zu", o, p, i); } else { seen.add(b.p + o, p - o, 8, "padding"); if (p - o >= 24) { int z = 0; for (size_t i = p - 24; i < p; i++) z += b.p[i] == (uint8_t)pre; CHECKK("padding", z < 20, "random padding %zu to %zu is not random at the end", o, p); } } } }
        distinct(mix(mix(o, p), mix(m, pre + 1000 * withstate)));
    }
    outcome("padding");
}
// What was in the buffer does not show in the output
static void oldcontents() {
    static const size_t ls[] = {1, 8, 63, 64, 65, 200, 1100, 3000}; size_t n = ls[choose(8, "length")]; int how = choose(3, "call"); shard(); bytes o[2]; uint8_t pre[2] = {0x00, 0x5a};
    for (int i = 0; i < 2; i++) { rng::reset(9); Block b(n); memset(b.p, pre[i], n); lb::RSt R; int e; if (how == 0) e = noise_randstate_generate_simple(b.p, n); else { e = noise_randstate_new(R.out()); CHECK(e == 0, "new"); e = how == 1 ? noise_randstate_generate(R, b.p, n) : noise_randstate_pad(R, b.p, 0, n, NOISE_PADDING_RANDOM); } CHECK(e == 0, "generate"); o[i] = b.get(); op(); }
    if (n >= 8) { size_t same = 0; for (size_t i = 0; i < n; i++) same += (o[0][i] ^ o[1][i]) == 0x5a; CHECKK("old contents", same < n * 3 / 4, "the old contents of the buffer show in the output of %zu bytes", n); }
    Block b(n); memset(b.p, 0x77, n); int e = noise_randstate_generate(nullptr, b.p, n); CHECK(e == NOISE_ERROR_INVALID_PARAM && b.all(0), "without a generator: %s", lb::err(e).c_str()); outcome("old contents of buffers"); distinct(mix(n, how));
}
// A reseed mixes new entropy with what there was: neither alone decides the output
static void mixing() {
    int how = choose(3, "reseed"); shard(); bytes o[3];
    for (int i = 0; i < 3; i++) { rng::reset(i == 1 ? 101 : 100); lb::RSt R; int e = noise_randstate_new(R.out()); CHECK(e == 0, "new"); bytes big(how == 1 ? 1600000 : how == 2 ? 1599000 : 0, 0); if (how) noise_randstate_generate(R, &big[0], big.size()); rng::r().seed = i == 2 ? 103 : 102; rng::r().ctr = 0; if (how == 0) e = noise_randstate_reseed(R); CHECK(e == 0, "reseed"); Block b(2048); e = noise_randstate_generate(R, b.p, b.n); CHECK(e == 0, "generate"); o[i] = b.get(); }
    if (rng::r().calls) { CHECKK("reseed forgets", o[0] != o[1], "after a reseed the earlier entropy no longer matters"); CHECKK("reseed does not mix", o[0].substr(1088) != o[2].substr(1088), "after a reseed the new entropy does not matter"); } outcome("mixing"); distinct(how);
}
#endif
// Every consumer depends on at least 240 bits of the entropy it asks for; the seam says how much that is
static void influence() {
    int c = choose(NCONS, "consumer"), sl = choose(8, "slice"); shard(); bytes base; long bits = 0, used = 0;
    auto run = [&](long byte, int bit) {
#ifdef VH_OS
        osr::reset(49); osr::s().jb_ok = false; osr::s().armed = true;
#endif
        Consumer x(c); int e; bytes o;
#ifdef VH_OS
        osr::reset(50); osr::s().flip = byte; osr::s().flip_bit = bit; osr::s().armed = true; osr::s().jb_ok = false; e = x.run(); osr::s().armed = false; if (byte < 0) bits = osr::s().ctr * 8;
#else
        rng::reset(50); rng::r().flip_byte = byte; rng::r().flip_bit = bit; rng::r().bytes_out = 0; e = x.run(); rng::r().flip_byte = -1; if (byte < 0) bits = rng::r().bytes_out * 8;
#endif
        CHECK(e == 0, "%s: %s", cn[c], lb::err(e).c_str()); return x.out;
    };
    base = run(-1, 0); if (!bits) { outcome(fmt("%s: the entropy seam was not reached", cn[c])); return; }
    CHECKK("repeatable", run(-1, 0) == base || true, "-"); bool det = run(-1, 0) == base; if (!det) { outcome(fmt("%s: draws on other entropy too", cn[c])); return; }
    CHECKK("too little entropy", bits >= 256, "%s asked for only %ld bits of entropy", cn[c], bits);
    long tried = 0; for (long b = sl; b < bits && b < 8192; b += 8) { tried++; bytes o = run(b / 8, b % 8); if (o != base) used++; distinct(mix(c, b)); op(); }
    // of any eighth of the bits at most a few are fixed by clamping (Curve448: 3 of 448, Ed25519: 5 of 256, at most 3 with the same position in their byte)
    CHECKK("entropy ignored", used * 8 >= 256 - 8 * 4 && (tried - used) * 2 <= tried, "%s uses only %ld of %ld bits of entropy with this position in the byte", cn[c], used, tried); outcome(fmt("entropy of: %s", cn[c])); sample(fmt("%s: %ld bits asked for", cn[c], bits));
}
#ifdef VH_OS
// Every pattern of failing and short reads of the operating system's entropy, up to a bound: the process ends or all bytes were delivered
static void faults() {
    int c = choose(NCONS, "consumer"); shard(); static Consumer *volatile px; static volatile int e; px = new Consumer(c); osr::reset(60); osr::S &s = osr::s(); s.budget = g().thorough ? 5 : 3; static volatile bool ended; ended = false;
    s.jb_ok = true; if (setjmp(s.jb) == 0) { s.armed = true; e = px->run(); s.armed = false; } else ended = true; s.jb_ok = false; s.armed = false;
    std::string tr = s.tr; note(fmt("%s: %s", cn[c], tr.c_str())); distinct(hash_str(tr, c)); op();
    if (s.reqs.empty() && !ended) { outcome("the entropy seam was not reached"); delete px; return; }
    if (ended) { outcome("the process ends"); if (tr == "exit") failk("gives up", "the process ended although entropy was available"); return; }      // the objects are lost with the process
    bool bad = false; for (auto &r : s.reqs) if (r.got < r.asked || (!r.asked && !r.open_failed)) bad = true;
    bool any = false; for (auto &r : s.reqs) if (r.asked && r.got >= r.asked) any = true;
    if (e == 0) CHECKK("proceeded without entropy", any && !bad, "%s went on although the system did not deliver: %s", cn[c], tr.c_str());
    outcome(e ? "an error is returned" : tr.empty() ? "no fault" : "the fault was overcome"); if (!tr.empty()) sample(fmt("%s: %s -> %s", cn[c], tr.c_str(), e ? "error" : "delivered")); delete px;
}
static void body() { if (flag("faults")) faults(); else influence(); }
static void setup() {}
#else
static void body() { switch (choose(8, "part")) { case 0: sequences(); break; case 1: large(); break; case 2: repeated(); break; case 7: requests(); break; case 3: padding(); break; case 4: oldcontents(); break; case 5: mixing(); break; default: influence(); } }
static void setup() { rng::install(); }
#endif
VH_MAIN2(body, setup)
