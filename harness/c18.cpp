// C18: hashes, HKDF and PBKDF2 against libcrypto, over lengths, splits, histories, overlaps and output lengths.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
static const int HS[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
static bytes msg(size_t n, int salt = 0) { bytes b(n, 0); uint32_t x = 0x9e3779b9u + salt; for (size_t i = 0; i < n; i++) { x = x * 1664525 + 1013904223; b[i] = (uint8_t)(x >> 24); } return b; }
struct H { lb::HaSt p; size_t L, Bl; int id; explicit H(int i) : id(i) { int e = noise_hashstate_new_by_id(p.out(), i); CHECK(e == 0, "new: %s", lb::err(e).c_str()); L = rc::hashlen(i); Bl = rc::blocklen(i); CHECK(noise_hashstate_get_hash_length(p) == L && noise_hashstate_get_block_length(p) == Bl && noise_hashstate_get_hash_id(p) == i, "lengths of %s", rn::hash_name(i)); }
    void reset() { int e = noise_hashstate_reset(p); CHECK(e == 0, "reset"); op(); }
    void upd(const uint8_t *d, size_t n) { Block b(B(d, n)); int e = noise_hashstate_update(p, b.p, n); CHECK(e == 0, "update of %zu bytes: %s", n, lb::err(e).c_str()); op(); }
    bytes fin() { Block b(L); int e = noise_hashstate_finalize(p, b.p, L); CHECK(e == 0, "finalize: %s", lb::err(e).c_str()); op(); return b.get(); }
    bytes one(const bytes &d) { Block a(d), b(L); int e = noise_hashstate_hash_one(p, a.p, a.n, b.p, L); CHECK(e == 0, "hash_one: %s", lb::err(e).c_str()); op(); return b.get(); }
    bytes two(const bytes &d, const bytes &d2) { Block a(d), c(d2), b(L); int e = noise_hashstate_hash_two(p, a.p, a.n, c.p, c.n, b.p, L); CHECK(e == 0, "hash_two: %s", lb::err(e).c_str()); op(); return b.get(); }
    void hkdf(const bytes &k, const bytes &d, size_t l1, size_t l2, bytes &o1, bytes &o2) { Block a(k), c(d), x(l1), y(l2); int e = noise_hashstate_hkdf(p, a.p, a.n, c.p, c.n, x.p, l1, y.p, l2); CHECK(e == 0, "hkdf: %s", lb::err(e).c_str()); op(); o1 = x.get(); o2 = y.get(); CHECK(a.get() == k && c.get() == d, "hkdf changed its input"); }
    bytes pbkdf2(const bytes &pw, const bytes &s, size_t it, size_t n) { Block a(pw), c(s), x(n); int e = noise_hashstate_pbkdf2(p, a.p, a.n, c.p, c.n, it, x.p, n); CHECK(e == 0, "pbkdf2: %s", lb::err(e).c_str()); op(); CHECK(a.get() == pw && c.get() == s, "pbkdf2 changed its input"); return x.get(); }
};
static const char *hn(int h) { return rn::hash_name(h); }
static void splits() {
    int h = pick(HS, "hash"); size_t Bl = rc::blocklen(h), N = 2 * Bl + 3; size_t n = choose((int)N + 1, "length"); shard();
    H o(h); bytes m = msg(n, 1), want = rc::hash(h, m);
    CHECKK("digest", o.one(m) == want, "%s of %zu bytes in one call", hn(h), n);
    for (size_t i = 0; i <= n; i++) {
        o.reset(); o.upd(m.data(), i); o.upd(m.data() + i, n - i); CHECKK("digest", o.fin() == want, "%s of %zu bytes as %zu + %zu", hn(h), n, i, n - i);
        CHECKK("digest", o.two(m.substr(0, i), m.substr(i)) == want, "%s of %zu bytes by hash_two as %zu + %zu", hn(h), n, i, n - i);
        auto third = [&](size_t j) { o.reset(); o.upd(m.data(), i); o.upd(m.data() + i, j - i); o.upd(m.data() + j, n - j); CHECKK("digest", o.fin() == want, "%s of %zu bytes as %zu + %zu + %zu", hn(h), n, i, j - i, n - j); };
        for (size_t j = i; j <= n; j += g().thorough ? 1 : (j % Bl <= 1 || j % Bl >= Bl - 2 || j <= i + 1) ? 1 : 13) third(j);
        distinct(mix(mix(h, n), i));
    }
    for (size_t step : {1, 3, 7, 17, 31, 63, 64, 65, 127, 128, 129}) { o.reset(); for (size_t i = 0; i < n; i += step) { o.upd(m.data() + i, std::min(step, n - i)); if (step < 4) o.upd(m.data(), 0); } CHECKK("digest", o.fin() == want, "%s of %zu bytes in pieces of %zu", hn(h), n, step); }
    outcome("splits"); if (n == 64) sample(fmt("%s of %zu bytes: every two-way split", hn(h), n));
}
static void longer() {
    int h = pick(HS, "hash"); int k = choose(16, "slice"); shard(); H o(h);
    for (size_t n = k; n <= 5000; n += 16) { bytes m = msg(n, 2); CHECKK("digest", o.one(m) == rc::hash(h, m), "%s of %zu bytes", hn(h), n); distinct(mix(h * 3, n)); }
    for (size_t n : {8191, 8192, 8193, 65535, 65536, 65537, 131072, 1000000}) { bytes m = msg(n, k), want = rc::hash(h, m); CHECKK("digest", o.one(m) == want, "%s of %zu bytes", hn(h), n); size_t c = (size_t)k * 997 + 1; o.reset(); for (size_t i = 0; i < n; i += c) o.upd(m.data() + i, std::min(c, n - i)); CHECKK("digest", o.fin() == want, "%s of %zu bytes in pieces of %zu", hn(h), n, c); distinct(mix(h * 5, n * 16 + k)); }
    outcome("longer messages");
}
// Every sequence of calls; one object, model: the bytes given since the last reset (unusable after anything that finishes)
static void histories() {
    int h = pick(HS, "hash"); size_t Bl = rc::blocklen(h); int depth = g().thorough ? 7 : 5; std::vector<int> first; int f1 = choose(10, "first"), f2 = choose(11, "second"); shard();
    H o(h); bool live = false; bytes acc; bytes big = msg(2000, 3); size_t used = 0; std::string tr;
    for (int d = 0; d < depth; d++) {
        int c = d == 0 ? f1 + (f1 >= 1 ? 0 : 0) : d == 1 ? f2 : choose(12, "call"); if (d == 0 && c >= 1 && c <= 7) skip();       // start with a call that begins something
        if (c >= 1 && c <= 7 && !live) skip();
        if (d == depth - 1 && c != 6 && c < 8) skip();       // the last call shows a result
        op();
        switch (c) {
        case 0: o.reset(); live = true; acc.clear(); tr += "R"; break;
        case 1: case 2: case 3: case 4: case 5: { size_t n = c == 1 ? 0 : c == 2 ? 1 : Bl - 4 + c; o.upd(big.data() + used, n); acc += big.substr(used, n); used += n; tr += fmt("u%zu", n); break; }
        case 6: CHECKK("digest after history", o.fin() == rc::hash(h, acc), "%s after %sF", hn(h), tr.c_str()); live = false; tr += "F"; break;
        case 7: { Block b(o.L + 1); for (size_t l : {o.L - 1, o.L + 1, (size_t)0}) { int e = noise_hashstate_finalize(o.p, b.p, l); CHECK(e == NOISE_ERROR_INVALID_LENGTH && b.all(0xA5), "finalize into %zu bytes: %s", l, lb::err(e).c_str()); } tr += "f"; break; }
        case 8: { size_t n = Bl + d - 2; bytes m = msg(n, d); CHECKK("digest after history", o.one(m) == rc::hash(h, m), "%s hash_one after %s", hn(h), tr.c_str()); live = false; tr += "1"; break; }
        case 9: { bytes a = msg(d + 1, 9), b = msg(Bl - d, 8); CHECKK("digest after history", o.two(a, b) == rc::hash(h, a + b), "%s hash_two after %s", hn(h), tr.c_str()); live = false; tr += "2"; break; }
        case 10: { bytes k = msg(o.L, d), m = msg(32, 5), a, b, x, y; o.hkdf(k, m, o.L, o.L, a, b); rc::hkdf2(h, k, m, x, y); CHECKK("hkdf after history", a == x && b == y, "%s hkdf after %s", hn(h), tr.c_str()); live = false; tr += "K"; break; }
        default: { bytes p = msg(7, d), s = msg(9, 2); CHECKK("pbkdf2 after history", o.pbkdf2(p, s, 2, o.L + 3) == rc::pbkdf2(h, p, s, 2, o.L + 3), "%s pbkdf2 after %s", hn(h), tr.c_str()); live = false; tr += "P"; }
        }
        state(mix(mix(h, live), mix(acc.size(), c * 8 + d)));
    }
    outcome("histories"); distinct(hash_str(tr, h));
}
// Outputs over inputs: hash_one and hash_two at every relative position; hkdf the way the protocol does
static void overlaps() {
    int h = pick(HS, "hash"); int kind = choose(3, "call"); int nn = choose(10, "length"); shard(); H o(h); size_t L = o.L, Bl = o.Bl; size_t n = (size_t[]){0, 1, L - 1, L, L + 1, Bl - 1, Bl, Bl + 1, 2 * Bl, 300}[nn]; bytes m = msg(n, 4);
    if (kind == 0) for (size_t off = 0; off <= n + L; off++) {        // hash buffer starts at off, data at L
        Block b(n + 2 * L); memcpy(b.p + L, m.data(), n); int e = noise_hashstate_hash_one(o.p, b.p + L, n, b.p + off, L); CHECK(e == 0 && b.get().substr(off, L) == rc::hash(h, m), "%s hash_one of %zu bytes, output at %zd", hn(h), n, (ssize_t)off - (ssize_t)L); op(); distinct(mix(mix(h, 77), n * 1000 + off));
    }
    if (kind == 1) for (size_t cut : {(size_t)0, (size_t)1, n / 2, n}) for (size_t off = 0; off <= n + L; off++) { if (cut > n) continue; Block b(n + 2 * L); memcpy(b.p + L, m.data(), n); int e = noise_hashstate_hash_two(o.p, b.p + L, cut, b.p + L + cut, n - cut, b.p + off, L); CHECK(e == 0 && b.get().substr(off, L) == rc::hash(h, m), "%s hash_two of %zu+%zu bytes, output at %zd", hn(h), cut, n - cut, (ssize_t)off - (ssize_t)L); op(); distinct(mix(mix(h, 78), (n * 1000 + off) * 4 + (cut > 0) + (cut > 1))); }
    if (kind == 2) {
        bytes k = msg(L, 5), x, y; rc::hkdf2(h, k, m, x, y);
        for (int ov = 0; ov < 6; ov++) for (size_t l2 : {L, (size_t)32, (size_t)1, (size_t)0}) {
            Block kb(k), mb(std::max(n, L)), o1(L), o2(L); memcpy(mb.p, m.data(), n); uint8_t *p1 = o1.p, *p2 = o2.p;
            if (ov == 1) p1 = kb.p; if (ov == 2) p2 = kb.p; if (ov == 3) p1 = mb.p; if (ov == 4) p2 = mb.p; if (ov == 5) { p1 = kb.p; p2 = mb.p; }
            int e = noise_hashstate_hkdf(o.p, kb.p, L, mb.p, n, p1, L, p2, l2); CHECK(e == 0 && B(p1, L) == x && B(p2, l2) == y.substr(0, l2), "%s hkdf with %zu bytes of data, overlap %d, second output %zu: %s", hn(h), n, ov, l2, lb::err(e).c_str()); op(); distinct(mix(mix(h, 79), n * 100 + ov * 10 + l2));
        }
    }
    outcome("overlapping buffers");
}
static void hkdf_grid() {
    int h = pick(HS, "hash"); size_t Bl = rc::blocklen(h), L = rc::hashlen(h); size_t kl = choose((int)(2 * Bl + 4), "key length"); shard(); H o(h); bytes k = msg(kl, 6);
    bool full = g().thorough || kl < 2 || kl == L || (kl + 1 >= Bl && kl <= Bl + 1);
    for (size_t dl = 0; dl <= 2 * Bl + 3; dl += full || dl % Bl < 2 || dl % Bl > Bl - 3 || dl == L ? 1 : 5) { bytes d = msg(dl, 7), a, b, x, y; o.hkdf(k, d, L, L, a, b); rc::hkdf2(h, k, d, x, y); CHECKK("hkdf", a == x && b == y, "%s hkdf with a key of %zu and data of %zu bytes", hn(h), kl, dl); distinct(mix(mix(h, 80), kl * 1000 + dl)); }
    if (kl == L || kl == 0) { bytes d = msg(32, 7), x, y; rc::hkdf2(h, k, d, x, y); for (size_t l1 = 0; l1 <= L + 2; l1++) for (size_t l2 = 0; l2 <= L + 2; l2++) { Block a(l1), b(l2); int e = noise_hashstate_hkdf(o.p, k.data() ? k.data() : (const uint8_t *)"", kl, d.data(), 32, a.p, l1, b.p, l2); op();
            if (l1 > L || l2 > L) CHECKK("hkdf limit", e == NOISE_ERROR_INVALID_LENGTH && a.all(0xA5) && b.all(0xA5), "%s hkdf with outputs of %zu and %zu bytes: %s", hn(h), l1, l2, lb::err(e).c_str()); else CHECKK("hkdf outputs", e == 0 && a.get() == x.substr(0, l1) && b.get() == y.substr(0, l2), "%s hkdf with outputs of %zu and %zu bytes", hn(h), l1, l2); distinct(mix(mix(h, 81), (l1 * 100 + l2) * 2 + !kl)); } }
    if (kl % 16 == 1) for (size_t n : {(size_t)300 + kl, (size_t)511, (size_t)1024, (size_t)4095, (size_t)65535, (size_t)65536, (size_t)65537 + kl}) { bytes K = msg(n, 6), D = msg(n - kl, 7), a, b, x, y; o.hkdf(k, D, L, L, a, b); rc::hkdf2(h, k, D, x, y); CHECKK("hkdf", a == x && b == y, "%s hkdf with a key of %zu and data of %zu bytes", hn(h), kl, n - kl); o.hkdf(K, k, L, L, a, b); rc::hkdf2(h, K, k, x, y); CHECKK("hkdf", a == x && b == y, "%s hkdf with a key of %zu and data of %zu bytes", hn(h), n, kl); distinct(mix(mix(h, 83), n * 1000 + kl)); }
    outcome("hkdf");
}
static void pbkdf2_grid() {
    int h = pick(HS, "hash"); size_t Bl = rc::blocklen(h), L = rc::hashlen(h); int kind = choose(7, "grid"), sl = choose(6, "slice"); shard(); H o(h); size_t step = 6;
    auto t = [&](size_t pl, size_t sal, size_t it, size_t ol) { bytes p = msg(pl, 8), s = msg(sal, 9); CHECKK("pbkdf2", o.pbkdf2(p, s, it, ol) == rc::pbkdf2(h, p, s, it, ol), "%s PBKDF2 with a passphrase of %zu, a salt of %zu bytes, %zu iterations, %zu bytes of output", hn(h), pl, sal, it, ol); distinct(mix(mix(h, 82), mix(pl * 1000 + sal, it * 10000 + ol))); };
    if (kind == 0) for (size_t pl = sl; pl <= 2 * Bl + 3; pl += step) for (size_t it : {1, 2, 5}) t(pl, 16, it, 40);
    if (kind == 1) for (size_t s = sl; s <= 2 * Bl + 3; s += step) for (size_t it : {1, 3}) t(10, s, it, L + 8);
    if (kind == 2) for (size_t it = 1 + sl; it <= 300; it += step) t(12, 16, it, L);
    if (kind == 3) for (size_t ol = sl; ol <= 5 * L + 2; ol += step) for (size_t it : {1, 2, 3}) t(11, 16, it, ol);
    if (kind == 4) { for (size_t ol : {255 * L, 256 * L, 257 * L + 1, 300 * L - 1}) if ((ol + sl) % 2 || sl < 2) t(3 + sl, 8, 1 + sl % 3, ol); if (sl == 2) t(5, 8, 1, 65540 * L); if (sl == 3) { t(8, 8, 1000, 40); t(8, 8, 4096, 20); t(Bl + 1, 8, 4096, L); } if (sl == 5 && g().thorough) t(8, 16, 100000, 64); }
    if (kind == 5) for (size_t ol = 5 * L + sl; ol <= 40 * L + 2; ol += step * (g().thorough ? 1 : 3)) t(11 + ol % 5, 16, 1 + ol % 2, ol);       // longer outputs
    if (kind == 6) for (size_t n : {(size_t)200 + sl, (size_t)255, (size_t)256, 8 * Bl, 8 * Bl + 1, (size_t)1023, (size_t)1024, (size_t)4096 + sl, (size_t)65535, (size_t)65536, (size_t)65537 + sl}) { t(n, 16, 2, 40); t(9, n, 2, L + 1); t(n, n, 1, 33); }
    outcome("pbkdf2");
}
// Messages whose length in bits or bytes no longer fits 32 bits.  The same block again and again.
static void huge() {
    int h = pick(HS, "hash"); int which = choose(g().thorough ? 2 : 1, "length"); shard(); H o(h);
    uint64_t n = which == 0 ? (h == NOISE_HASH_BLAKE2s ? (1ULL << 32) + 77 : (1ULL << 29) + 77) : (1ULL << 32) + 12345; bytes m = msg(1 << 20, 11); Block mb(m);
    EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, rc::md(h), 0); o.reset();
    for (uint64_t i = 0; i < n; i += m.size()) { size_t k = std::min<uint64_t>(m.size(), n - i); EVP_DigestUpdate(c, m.data(), k); noise_hashstate_update(o.p, mb.p, k); g().ticks = 0; }
    uint8_t d[64]; unsigned dn; EVP_DigestFinal_ex(c, d, &dn); EVP_MD_CTX_free(c); CHECKK("digest of a huge message", o.fin() == B(d, dn), "%s of %llu bytes", hn(h), (unsigned long long)n); outcome("huge messages"); distinct(mix(h, n)); sample(fmt("%s of %llu bytes", hn(h), (unsigned long long)n));
}
static void body() { if (g().opts.count("huge")) { huge(); return; } switch (choose(6, "part")) { case 0: splits(); break; case 1: longer(); break; case 2: histories(); break; case 3: overlaps(); break; case 4: hkdf_grid(); break; default: pbkdf2_grid(); } }
VH_MAIN2(body, rng::install)
