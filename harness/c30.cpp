// Formatting and comparison helpers: every code, length, position and bit.
#include "lib.hpp"
#include "rng.hpp"
#include <climits>
using namespace vh;
using lb::err;
static const char *TEXT[] = {"No error", "Out of memory", "Unknown identifier", "Unknown name", "MAC failure", "Not applicable", "System error", "Remote public key required", "Local keypair required", "Pre shared key required",
    "Invalid length", "Invalid parameter", "Invalid state", "Invalid nonce", "Invalid private key", "Invalid public key", "Invalid format", "Invalid signature"};
static const int NTEXT = sizeof TEXT / sizeof *TEXT;
static std::string expected(int e) {
    if (e == 0) return TEXT[0];
    if (e > NOISE_ID('E', 0) && e < NOISE_ID('E', NTEXT)) return TEXT[e - NOISE_ID('E', 0)];
    char b[64]; snprintf(b, sizeof b, "Unknown error 0x%x", (unsigned)e); return b;
}
static void strerror_one(int e, size_t size, Block &b, const std::string &want) {
    memset(b.p, 0xA5, b.n);
    uint8_t *p = b.end() - size;                      // the buffer ends where the block ends
    int rc = noise_strerror(e, (char *)p, size);
    op();
    if (!size) { CHECKK("strerror size 0", rc == -1 && b.all(0xA5), "code 0x%x, size 0: returned %d", e, rc); return; }
    CHECKK("strerror rc", rc == 0, "code 0x%x, size %zu: returned %d", e, size, rc);
    for (uint8_t *q = b.p; q < p; q++) CHECKK("strerror guard", *q == 0xA5, "code 0x%x, size %zu: byte before the buffer written", e, size);
    size_t n = strnlen((char *)p, size); CHECKK("strerror terminated", n < size, "code 0x%x, size %zu: not terminated", e, size);
    std::string w = want.substr(0, size - 1);
    CHECKK("strerror text", std::string((char *)p, n) == w, "code 0x%x, size %zu: \"%.*s\", expected \"%s\"", e, size, (int)n, (char *)p, w.c_str());
}
static void c_strerror() {
    static const int CH = 256; int c = choose(65536 / CH, "codes"); shard(); Block b(64);
    for (int e = c * CH; e < (c + 1) * CH; e++) { std::string w = expected(e); for (size_t s = 0; s <= w.size() + 3; s++) strerror_one(e, s, b, w); strerror_one(e, 64, b, w); distinct(mix(1, e)); }
    state(mix(1, c)); outcome("strerror: 256 codes x every buffer length");
}
static void c_strerror_wide() {      // codes outside the 16-bit space must not be taken for known ones
    int k = choose(256, "high byte"), n = g().thorough ? 256 : 8; shard(); Block b(64);
    for (int m = 0; m < n; m++) for (int i = 0; i < 32; i++) { int e = (int)((unsigned)k << 24 | (unsigned)(m * (256 / n)) << 16 | (unsigned)NOISE_ID('E', 0) | i); strerror_one(e, 64, b, expected(e)); e = (int)((unsigned)e & 0xffff00ff); strerror_one(e, 64, b, expected(e)); }
    for (int e : {-1, INT_MAX, INT_MIN, -NOISE_ERROR_MAC_FAILURE, k - 128}) strerror_one(e, 64, b, expected(e));
    distinct(mix(2, k)); outcome("strerror: wide codes");
}
static void c_perror() {
    static const char *pre[] = {"prefix", "", "with % signs %s %d %n", nullptr, "long prefix long prefix long prefix long prefix long prefix long prefix long prefix long prefix long prefix long prefix long prefix long prefix"};
    const char *s = pick(pre, "prefix"); int i = choose(NTEXT + 3, "code"); shard(); int e = i < NTEXT ? (i ? NOISE_ID('E', i) : 0) : i == NTEXT ? -1 : i == NTEXT + 1 ? NOISE_ID('E', NTEXT) : 0x1234;
    fflush(stderr); int keep = dup(2); FILE *t = tmpfile(); dup2(fileno(t), 2); noise_perror(s, e); fflush(stderr); dup2(keep, 2); close(keep);
    rewind(t); std::string got; char buf[512]; size_t n; while ((n = fread(buf, 1, sizeof buf, t))) got.append(buf, n); fclose(t); op();
    std::string tail = expected(e) + "\n"; if (s) tail = std::string(s) + ": " + tail;
    CHECKK("perror", s ? got == tail : got.size() >= tail.size() && got.substr(got.size() - tail.size()) == tail, "noise_perror(%s, 0x%x) printed \"%s\"", s ? s : "NULL", e, got.c_str());
    distinct(hash_str(got)); outcome("perror");
}
static std::string fp_of(const bytes &key, bool full) { bytes h = rc::hash(NOISE_HASH_SHA256, key); std::string s; char b[4]; for (int i = 0; i < (full ? 32 : 16); i++) { snprintf(b, sizeof b, "%02x", h[i]); s += (i ? ":" : ""); s += b; } return s; }
// One formatting call with a buffer of `len` bytes that ends where its block ends.
template <class F> static void fp_check(F call, bool full, size_t len, const std::string &want, const char *what) {
    static Block b(NOISE_MAX_FINGERPRINT_LEN + 16); memset(b.p, 0xA5, b.n); uint8_t *p = b.end() - len; int rc = call(full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, (char *)p, len); op();
    for (uint8_t *q = b.p; q < p; q++) CHECKK("fingerprint guard", *q == 0xA5, "%s, buffer of %zu: byte before the buffer written", what, len);
    if (len < want.size() + 1) { CHECKK("fingerprint rc", rc == NOISE_ERROR_INVALID_LENGTH, "%s, buffer of %zu: returned %s", what, len, err(rc).c_str()); if (len) CHECKK("fingerprint cleared", *p == 0, "%s, buffer of %zu: text left", what, len); return; }
    CHECKK("fingerprint rc", rc == 0, "%s, buffer of %zu: returned %s", what, len, err(rc).c_str());
    CHECKK("fingerprint text", memchr(p, 0, len) && want == (char *)p, "%s, buffer of %zu: \"%.100s\", expected \"%s\"", what, len, (char *)p, want.c_str());
    for (size_t i = want.size() + 1; i < len; i++) CHECKK("fingerprint tail", p[i] == 0xA5 || p[i] == 0, "%s, buffer of %zu: byte %zu beyond the text is 0x%02x", what, len, i, p[i]);
}
static void c_fp_lengths() {      // every key length, every buffer length
    bool full = flag("full"); int kl = choose(g().thorough ? 2200 : 300, "key length"); shard(); if (!g().thorough && kl > 200) kl = (int[]){448, 1000, 1024, 1824, 2048, 2047, 1823, 512, 513, 65535}[kl % 10];
    bytes key = pattern(kl, (uint8_t)(kl * 3 + 1), 11); Block k(key); std::string want = fp_of(key, full);
    size_t max = kl < 130 || g().thorough ? NOISE_MAX_FINGERPRINT_LEN + 2 : 100;
    for (size_t l = 0; l <= max; l++) fp_check([&](int t, char *p, size_t n) { return noise_format_fingerprint(t, p, n, k.p, k.n); }, full, l, want, "noise_format_fingerprint");
    CHECK(k.get() == key); distinct(hash_str(want)); state(hash_str(want)); outcome("fingerprint: key length x buffer lengths");
}
static void c_fp_bits() {         // every single bit of a 32 and 56 byte key matters; every byte value is formatted
    bool full = flag("full"); int n = choose(2) ? 56 : 32; int bit = choose(n * 8 + 1, "bit"); shard(); bytes key = pattern(n, 5, 3); if (bit) key[(bit - 1) / 8] ^= 1 << ((bit - 1) & 7); Block k(key); std::string want = fp_of(key, full);
    for (size_t l : {want.size(), want.size() + 1, want.size() + 2}) fp_check([&](int t, char *p, size_t m) { return noise_format_fingerprint(t, p, m, k.p, k.n); }, full, l, want, "noise_format_fingerprint");
    distinct(hash_str(want)); outcome("fingerprint: single bits");
}
static void c_fp_state() {        // through the DH and signing objects, in every key state
    int a = choose(4, "algorithm"), st = choose(3, "state"); bool full = flag("full"); shard(); rng::reset(3 + a);
    lb::DSt d; lb::SSt s; Block *pub = nullptr; bool have = st > 0;
    if (a < 3) {
        int id = a == 0 ? NOISE_DH_CURVE25519 : a == 1 ? NOISE_DH_CURVE448 : NOISE_DH_NEWHOPE; noise_dhstate_new_by_id(d.out(), id); lb::DSt t; noise_dhstate_new_by_id(t.out(), id); noise_dhstate_set_role(d, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(t, NOISE_ROLE_INITIATOR); noise_dhstate_generate_keypair(t);
        pub = new Block(noise_dhstate_get_public_key_length(t)); noise_dhstate_get_public_key(t, pub->p, pub->n); if (st == 1) CHECK(noise_dhstate_set_public_key(d, pub->p, pub->n) == 0); if (st == 2) CHECK(noise_dhstate_copy(d, t) == 0);
    } else {
        noise_signstate_new_by_id(s.out(), NOISE_SIGN_ED25519); lb::SSt t; noise_signstate_new_by_id(t.out(), NOISE_SIGN_ED25519); noise_signstate_generate_keypair(t); pub = new Block(32); noise_signstate_get_public_key(t, pub->p, 32); if (st == 1) CHECK(noise_signstate_set_public_key(s, pub->p, 32) == 0); if (st == 2) CHECK(noise_signstate_copy(s, t) == 0);
    }
    std::string want = fp_of(pub->get(), full); delete pub;
    auto call = [&](int t, char *p, size_t l) { return a < 3 ? noise_dhstate_format_fingerprint(d, t, p, l) : noise_signstate_format_fingerprint(s, t, p, l); };
    for (size_t l = 0; l <= NOISE_MAX_FINGERPRINT_LEN + 2; l++) {
        if (have) fp_check(call, full, l, want, a < 3 ? "noise_dhstate_format_fingerprint" : "noise_signstate_format_fingerprint");
        else { Block b(l); int rc = call(full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, (char *)b.p, l); CHECKK("fingerprint without key", rc == NOISE_ERROR_INVALID_STATE || (rc == NOISE_ERROR_INVALID_LENGTH && l < want.size() + 1), "no key, buffer of %zu: %s", l, err(rc).c_str()); if (l) CHECKK("fingerprint without key text", b.p[0] == 0 || b.all(0xA5), "no key, buffer of %zu: text left", l); op(); }
    }
    distinct(hash_str(want + (have ? "y" : "n"))); state(hash_str(want)); outcome("fingerprint of objects");
}
static void c_names() {           // protocol names in every buffer length
    static const std::vector<rn::Proto> ps = lb::all_protos(); static const int CH = 16; int c = choose((int)(ps.size() + CH - 1) / CH, "protocols"); shard(); static Block b(300);
    for (size_t i = (size_t)c * CH; i < std::min(ps.size(), (size_t)(c + 1) * CH); i++) {
        NoiseProtocolId id = ps[i].id(); std::string want = ps[i].name();
        for (size_t l = 0; l <= want.size() + 3; l++) {
            memset(b.p, 0xA5, b.n); uint8_t *p = b.end() - l; int rc = noise_protocol_id_to_name((char *)p, l, &id); op(); for (uint8_t *q = p - 16; q < p; q++) CHECKK("name guard", *q == 0xA5, "%s, buffer of %zu: byte before the buffer written", want.c_str(), l);
            if (l < want.size() + 1) { CHECKK("name rc", rc == NOISE_ERROR_INVALID_LENGTH, "%s, buffer of %zu: %s", want.c_str(), l, err(rc).c_str()); if (l) CHECKK("name cleared", memchr(p, 0, l), "%s, buffer of %zu: not terminated", want.c_str(), l); if (l) CHECKK("name cleared", *p == 0, "%s, buffer of %zu: text left", want.c_str(), l); }
            else CHECKK("name text", rc == 0 && memchr(p, 0, l) && want == (char *)p, "%s, buffer of %zu: %s \"%.*s\"", want.c_str(), l, err(rc).c_str(), (int)l, (char *)p);
        }
        distinct(hash_str(want)); state(hash_str(want));
    }
    outcome("protocol names: every buffer length");
}
static void c_equal() {           // every single difference: length x position x bit, then every byte value
    int n = choose(g().thorough ? 1100 : 200, "length"), align = choose(4, "alignment"); shard(); if (!g().thorough && n > 160) n = (int[]){255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 65536 / 8}[n % 10];
    bytes base = pattern(n, 9, 13); int o1 = align & 1 ? 1 : 0, o2 = align & 2 ? 3 : 0; Block b1(n + o1), b2(n + o2); uint8_t *x = b1.p + o1, *y = b2.p + o2; memcpy(x, base.data(), n); memcpy(y, base.data(), n);
    CHECKK("equal", noise_is_equal(x, y, n) == 1, "equal blocks of %d bytes are reported as different", n); CHECKK("equal self", noise_is_equal(x, x, n) == 1, "a block of %d bytes differs from itself", n); op(2);
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < 8; k++) { y[i] ^= 1 << k; CHECKK("different", noise_is_equal(x, y, n) == 0 && noise_is_equal(y, x, n) == 0, "blocks of %d bytes that differ in bit %d of byte %d are reported as equal", n, k, i); y[i] ^= 1 << k; op(2); }
        for (int d : {0x03, 0x7f, 0xaa, 0xff}) { y[i] ^= d; CHECKK("different", noise_is_equal(x, y, n) == 0, "difference 0x%02x in byte %d of %d is not seen", d, i, n); y[i] ^= d; op(); }
        // nothing outside the range counts
        if (i) { y[i] ^= 0x55; CHECKK("prefix", noise_is_equal(x, y, i) == 1, "a difference just behind %d bytes is seen", i); y[i] ^= 0x55; op(); }
    }
    state(mix(n, align)); distinct(mix(n, align)); outcome("is_equal: single differences");
}
static void c_equal_pairs() {     // differences that cancel when summed or xor-ed
    int n = choose(g().thorough ? 72 : 36, "length"); shard(); bytes base = pattern(n, 9, 13); Block b1(base), b2(base);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int d : {1, 2, 0x40, 0x80, 0xff, 0x5a}) {
        uint8_t a = b2.p[i], b = b2.p[j]; b2.p[i] ^= d; b2.p[j] ^= d; CHECKK("cancelling", noise_is_equal(b1.p, b2.p, n) == 0, "the same difference 0x%x in bytes %d and %d of %d cancels", d, i, j, n);
        b2.p[i] = (uint8_t)(a + d); b2.p[j] = (uint8_t)(b - d); CHECKK("cancelling", noise_is_equal(b1.p, b2.p, n) == 0, "opposite differences %d in bytes %d and %d of %d cancel", d, i, j, n); b2.p[i] = a; b2.p[j] = b; op(2);
        b2.p[i] = b; b2.p[j] = a; if (a != b) CHECKK("swapped", noise_is_equal(b1.p, b2.p, n) == 0, "swapped bytes %d and %d of %d compare equal", i, j, n); b2.p[i] = a; b2.p[j] = b;
        Block z(n, 0); z.p[i] = d; z.p[j] = (uint8_t)-d; CHECKK("zero cancelling", noise_is_zero(z.p, n) == 0, "bytes %d and %d of %d cancel in the zero test", i, j, n); z.p[j] = d; CHECKK("zero cancelling", noise_is_zero(z.p, n) == 0, "bytes %d and %d of %d cancel in the zero test", i, j, n); op(2);
    }
    distinct(mix(77, n)); outcome("is_equal and is_zero: pairs of differences");
}
static void c_zero() {
    int n = choose(g().thorough ? 1100 : 200, "length"), off = choose(4, "alignment"); shard(); if (!g().thorough && n > 160) n = (int[]){255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 65536 / 8}[n % 10];
    Block b(n + off, 0); uint8_t *p = b.p + off; if (off) memset(b.p, 0xff, off); CHECKK("zero", noise_is_zero(p, n) == 1, "%d zero bytes are reported as non-zero", n);
    for (int i = 0; i < n; i++) { for (int v = 1; v < 256; v = n > 80 ? (v << 1) : v + 1) { p[i] = (uint8_t)v; CHECKK("non-zero", noise_is_zero(p, n) == 0, "byte %d of %d is 0x%02x and the block is reported as zero", i, n, v); op(); } if (i) CHECKK("zero prefix", noise_is_zero(p, i) == 1, "a byte just behind %d zero bytes is seen", i); p[i] = 0; }
    distinct(mix(n, 100 + off)); state(mix(n, 100 + off)); outcome("is_zero: every byte value");
}
static void c_clean() {
    int n = choose(g().thorough ? 1100 : 270, "length"), off = choose(17, "offset"); shard(); Block b(n + off + 9); memset(b.p, 0x5c, b.n); noise_clean(b.p + off, n); op();
    for (int i = 0; i < (int)b.n; i++) { bool in = i >= off && i < off + n; CHECKK("clean", b.p[i] == (in ? 0 : 0x5c), "cleaning %d bytes at %d: byte %d is 0x%02x", n, off, i, b.p[i]); }
    distinct(mix(n, 300 + off)); outcome("clean: every range");
}
static void c_object() {
    size_t n = choose(g().thorough ? 5000 : 700, "size"); shard(); void *p = noise_new_object(n); op(); if (!p) { CHECKK("new_object", n == 0, "noise_new_object(%zu) returned NULL", n); return; }
    bytes b = B(p, n); size_t k = 0; if (n >= sizeof k) { memcpy(&k, p, sizeof k); CHECKK("new_object size", k == n, "an object of %zu bytes starts with size %zu", n, k); b.erase(0, sizeof k); } for (uint8_t c : b) CHECKK("new_object zero", c == 0, "an object of %zu bytes is not zeroed", n); noise_free(p, n); distinct(mix(n, 900)); outcome("new_object: every size");
}
static void body() { typedef void (*F)(); static const F f[] = {c_strerror, c_strerror_wide, c_perror, c_fp_lengths, c_fp_bits, c_fp_state, c_names, c_equal, c_equal_pairs, c_zero, c_clean, c_object}; f[choose(sizeof f / sizeof *f, "helper")](); }
static void setup() { rng::install(); }
VH_MAIN2(body, setup)
