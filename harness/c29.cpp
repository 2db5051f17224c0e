// Argument validation: every entry point with every single and every pair of bad arguments, on every kind of object state.
// After a refused call the object must behave exactly like an untouched twin.
#include "certs.hpp"
#include "alloc.hpp"
#include "rng.hpp"
#include <climits>
#include <sys/stat.h>
using namespace vh;
using lb::err;
static const int PARAM = NOISE_ERROR_INVALID_PARAM, LEN = NOISE_ERROR_INVALID_LENGTH, STATE = NOISE_ERROR_INVALID_STATE;
static const size_t HUGE_LEN = (size_t)-1;

// The arguments of one call.  Each argument is good, or one of its bad values while the budget lasts.
struct X {   // up to two bad arguments (three in the thorough tier)
    int budget = g().thorough ? 3 : 2; bool bad = false, any_base = false, no_twin = false, skip_good = false;
    std::set<int> errs, bases; std::string what;
    std::vector<std::function<void(int)>> post;
    void mark(int e, const std::string &w) { budget--; bad = true; errs.insert(e); what += (what.empty() ? "" : ", ") + w; }
    template <class T> T *nul(T *p, const char *n, int e = PARAM) { if (budget && flag(n)) { mark(e, std::string(n) + " NULL"); return nullptr; } return p; }
    template <class T> T val(T good, const std::vector<T> &bads, int e, const char *n) {
        int k = budget ? choose((int)bads.size() + 1, n) : 0; if (!k) return good;
        mark(e, fmt("%s %lld", n, (long long)bads[k - 1])); return bads[k - 1];
    }
    size_t len(size_t good, const std::vector<size_t> &bads, const char *n, int e = LEN) { return val<size_t>(good, bads, e, n); }
    const char *name(const char *good, const std::vector<const char *> &bads, int e, const char *n) {
        int k = budget ? choose((int)bads.size() + 1, n) : 0; if (!k) return good;
        mark(e, fmt("%s \"%.40s\"", n, bads[k - 1])); return bads[k - 1];
    }
    void base(int e) { bases.insert(e); }
    void after(std::function<void(int)> f) { post.push_back(f); }
    // An output block: untouched or cleared when the call fails.
    void out(Block &b, const char *n) { after([&b, n](int rc) { if (rc) CHECKK("output", b.all(0xA5) || b.all(0), "%s holds neither its old contents nor zeroes after an error", n); }); }
    template <class T> void outp(T *&p, const char *n) { p = (T *)0x55; after([&p, n](int rc) { if (rc) CHECKK("null output", p == nullptr, "%s was not set to NULL on error", n); }); }
    template <class T> void outp_or_same(T *&p, const char *n) { p = (T *)0x55; after([&p, n](int rc) { if (rc) CHECKK("null output", p == nullptr || p == (T *)0x55, "%s is a stray pointer on error", n); }); }
};
template <class W> using Calls = std::vector<std::pair<const char *, std::function<int(X &, W &)>>>;

template <class W> static void drive(const char *cat, int variants, const Calls<W> &calls) {
    int v = choose(variants, "variant"), c = choose((int)calls.size(), "call");
    shard();
    note(fmt("%s variant %d, %s", cat, v, calls[c].first));
    X x; int rc;
    W w(v);
    al::start(); size_t before = al::live();
    rc = calls[c].second(x, w);
    size_t after = al::live(); al::stop();
    op();
    note(fmt("%s variant %d, %s: %s", cat, v, calls[c].first, x.what.empty() ? "all arguments good" : x.what.c_str()));
    distinct(hash_str(g().note));
    if (x.bad) {
        bool ok = rc && (x.any_base || x.errs.count(rc) || x.bases.count(rc));
        if (x.errs.count(0) && rc == 0) ok = true;
        CHECKK("wrong code", ok, "%s returned %s", calls[c].first, err(rc).c_str());
    } else if (!x.any_base && !x.skip_good) {
        CHECKK("wrong code for good arguments", x.bases.empty() ? rc == 0 : x.bases.count(rc) > 0, "%s returned %s", calls[c].first, err(rc).c_str());
    }
    for (auto &f : x.post) f(rc);
    if (rc) CHECKK("memory", before == after, "%s failed and kept %zu blocks", calls[c].first, after - before);
    if ((rc || x.bad) && !x.no_twin) {
        std::string a = w.probe(); W t(v); std::string b = t.probe();
        CHECKK("object changed", a == b, "after the refused call the object behaves differently: %s, untouched twin: %s", a.substr(0, 300).c_str(), b.substr(0, 300).c_str());
        op(2); state(hash_str(b, hash_str(cat)));
    }
    outcome(fmt("%s: %s", cat, rc ? err(rc).c_str() : "NONE"));
    sample(g().note + " -> " + err(rc));
}
static void add(std::string &s, const bytes &b) { s += hex(b, 4096); s += ' '; }
static void add(std::string &s, long long v) { s += fmt("%lld ", v); }
static const std::vector<const char *> BADNAMES = {"", "none", "SHA25", "SHA2567", "sha256", " SHA256", "chachapoly", "ChaChaPol", "ChaChaPolyX", "25519x", "Noise", "Noise_XX", "Ed25519x",
    "averyveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryverylongname"};
static std::vector<int> badids(int cat, std::vector<int> others) {
    std::vector<int> v = {0, -1, 1, INT_MAX, INT_MIN, cat, cat | 0x7f, cat | 0xff, cat + 0x100, cat | (1 << 16) | 1};
    for (int o : others) v.push_back(o);
    return v;
}
static std::vector<const char *> badnames(std::vector<const char *> more) { auto v = BADNAMES; for (auto m : more) v.push_back(m); return v; }

// ---------------------------------------------------------------- cipher
struct WCipher {
    lb::CSt c; int v;
    explicit WCipher(int v_) : v(v_) {
        rng::reset(5); noise_cipherstate_new_by_id(c.out(), v % 2 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY);
        Block k(pattern(32, 3)); if (v / 2) noise_cipherstate_init_key(c, k.p, 32); if (v / 2 == 1) noise_cipherstate_set_nonce(c, 5); if (v / 2 == 2) noise_cipherstate_set_nonce(c, UINT64_MAX);
    }
    int st() const { return v / 2; }
    std::string probe() {
        std::string s; add(s, noise_cipherstate_get_cipher_id(c)); add(s, (long long)noise_cipherstate_get_key_length(c)); add(s, (long long)noise_cipherstate_get_mac_length(c)); add(s, noise_cipherstate_has_key(c));
        bytes ct, pt, ad = pattern(9); add(s, lb::encrypt(c, pattern(20), ct, &ad)); add(s, ct); add(s, lb::encrypt(c, pattern(3), ct)); add(s, ct);
        add(s, lb::decrypt(c, pattern(40), pt, &ad)); add(s, noise_cipherstate_set_nonce(c, 100)); add(s, lb::encrypt(c, pattern(70), ct)); add(s, ct);
        Block k(pattern(32, 9)); add(s, noise_cipherstate_init_key(c, k.p, 32)); add(s, lb::encrypt(c, pattern(5), ct)); add(s, ct);
        return s;
    }
};
static void cat_cipher() {
    auto crypt = [](bool enc, bool with_ad) { return [=](X &x, WCipher &w) {
        Block ad(pattern(10)), data(enc ? 60 : 40); Block orig(data.get()); NoiseBuffer b; size_t oversize = 65536;
        if (enc) noise_buffer_set_inout(b, data.p, 20, 60); else noise_buffer_set_input(b, data.p, 40);
        size_t keyed = w.st();
        auto *s = x.nul((NoiseCipherState *)w.c, "state");
        b.data = x.nul(b.data, "buffer.data");
        std::vector<size_t> sizes = enc ? std::vector<size_t>{61, oversize, HUGE_LEN} : std::vector<size_t>{41, oversize, HUGE_LEN};
        if (keyed && enc) { sizes.push_back(45); sizes.push_back(60); }
        if (keyed && !enc) { sizes.push_back(0); sizes.push_back(15); }
        b.size = x.len(b.size, sizes, "buffer.size");
        NoiseBuffer *bp = x.nul(&b, "buffer"); const uint8_t *a = with_ad ? x.nul((const uint8_t *)ad.p, "ad") : nullptr;
        if (w.st() == 2) x.base(NOISE_ERROR_INVALID_NONCE);
        else if (w.st() == 1 && !enc) x.base(NOISE_ERROR_MAC_FAILURE);
        size_t was = b.size;
        int rc = with_ad ? (enc ? noise_cipherstate_encrypt_with_ad : noise_cipherstate_decrypt_with_ad)(s, a, ad.n, bp) : (enc ? noise_cipherstate_encrypt : noise_cipherstate_decrypt)(s, bp);
        if (rc && rc != NOISE_ERROR_MAC_FAILURE) { CHECKK("buffer", data.get() == orig.get() || data.all(0), "the buffer was changed by a refused call"); CHECKK("buffer size", b.size == was || b.size == 0, "the buffer size became %zu", b.size); }
        return rc; }; };
    Calls<WCipher> k = {
        {"cipherstate_new_by_id", [](X &x, WCipher &) { static NoiseCipherState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state");
            int rc = noise_cipherstate_new_by_id(pp, x.val(NOISE_CIPHER_CHACHAPOLY, badids(NOISE_CIPHER_CATEGORY, {NOISE_HASH_SHA256, NOISE_DH_CURVE25519, NOISE_SIGN_ED25519, NOISE_PATTERN_NN, NOISE_PREFIX_STANDARD}), NOISE_ERROR_UNKNOWN_ID, "id"));
            if (!pp) o = 0; if (!rc) noise_cipherstate_free(o); return rc; }},
        {"cipherstate_new_by_name", [](X &x, WCipher &) { static NoiseCipherState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); const char *n = x.name("AESGCM", badnames({"SHA256", "25519", "BLAKE2b", "AESGCM ", "aesgcm"}), NOISE_ERROR_UNKNOWN_NAME, "name"); n = x.nul(n, "name");
            int rc = noise_cipherstate_new_by_name(pp, n); if (!pp) o = 0; if (!rc) noise_cipherstate_free(o); return rc; }},
        {"cipherstate_free", [](X &x, WCipher &) { x.skip_good = true; auto *p = x.nul((NoiseCipherState *)1, "state"); return p ? 0 : noise_cipherstate_free(p); }},
        {"cipherstate getters of NULL", [](X &x, WCipher &) { x.bad = true; x.errs.insert(0); CHECK(noise_cipherstate_get_cipher_id(0) == NOISE_CIPHER_NONE); CHECK(noise_cipherstate_get_key_length(0) == 0); CHECK(noise_cipherstate_get_mac_length(0) == 0); CHECK(noise_cipherstate_has_key(0) == 0); return 0; }},
        {"cipherstate_init_key", [](X &x, WCipher &w) { Block key(pattern(32)); auto *s = x.nul((NoiseCipherState *)w.c, "state"); auto *p = x.nul((const uint8_t *)key.p, "key"); return noise_cipherstate_init_key(s, p, x.len(32, {0, 1, 16, 31, 33, 64, HUGE_LEN}, "key_len")); }},
        {"cipherstate_encrypt_with_ad", crypt(true, true)}, {"cipherstate_decrypt_with_ad", crypt(false, true)}, {"cipherstate_encrypt", crypt(true, false)}, {"cipherstate_decrypt", crypt(false, false)},
        {"cipherstate_set_nonce", [](X &x, WCipher &w) { auto *s = x.nul((NoiseCipherState *)w.c, "state");
            if (!w.st()) x.base(STATE);
            uint64_t n = w.st() == 0 ? 7 : w.st() == 1 ? x.val<uint64_t>(7, {0, 1, 4}, NOISE_ERROR_INVALID_NONCE, "nonce") : x.val<uint64_t>(UINT64_MAX, {0, 1, UINT64_MAX - 1}, NOISE_ERROR_INVALID_NONCE, "nonce");
            return noise_cipherstate_set_nonce(s, n); }},
    };
    drive<WCipher>("cipher", 6, k);
}
// ---------------------------------------------------------------- hash
struct WHash {
    lb::HaSt h; int v, id; size_t n;
    explicit WHash(int v_) : v(v_) {
        static const int ids[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}; id = ids[v / 2];
        noise_hashstate_new_by_id(h.out(), id); n = rc::hashlen(id); noise_hashstate_reset(h); if (v % 2) { Block b(pattern(77)); noise_hashstate_update(h, b.p, b.n); }
    }
    std::string probe() {
        std::string s; Block o(n), d(pattern(200)); add(s, noise_hashstate_get_hash_id(h)); add(s, (long long)noise_hashstate_get_hash_length(h)); add(s, (long long)noise_hashstate_get_block_length(h));
        add(s, noise_hashstate_update(h, d.p, 31)); add(s, noise_hashstate_finalize(h, o.p, n)); add(s, o.get()); add(s, noise_hashstate_hash_one(h, d.p, d.n, o.p, n)); add(s, o.get());
        add(s, noise_hashstate_reset(h)); add(s, noise_hashstate_finalize(h, o.p, n)); add(s, o.get()); return s;
    }
};
static void cat_hash() {
    static Block d1(pattern(40)), d2(pattern(50, 9));
    Calls<WHash> k = {
        {"hashstate_new_by_id", [](X &x, WHash &) { static NoiseHashState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state");
            int rc = noise_hashstate_new_by_id(pp, x.val(NOISE_HASH_SHA256, badids(NOISE_HASH_CATEGORY, {NOISE_CIPHER_CHACHAPOLY, NOISE_DH_CURVE25519, NOISE_SIGN_ED25519, NOISE_PATTERN_NN}), NOISE_ERROR_UNKNOWN_ID, "id")); if (!pp) o = 0; if (!rc) noise_hashstate_free(o); return rc; }},
        {"hashstate_new_by_name", [](X &x, WHash &) { static NoiseHashState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); const char *n = x.name("BLAKE2s", badnames({"BLAKE2", "AESGCM", "25519", "blake2s", "SHA3"}), NOISE_ERROR_UNKNOWN_NAME, "name"); n = x.nul(n, "name");
            int rc = noise_hashstate_new_by_name(pp, n); if (!pp) o = 0; if (!rc) noise_hashstate_free(o); return rc; }},
        {"hashstate_free", [](X &x, WHash &) { x.skip_good = true; auto *p = x.nul((NoiseHashState *)1, "state"); return p ? 0 : noise_hashstate_free(p); }},
        {"hashstate getters of NULL", [](X &x, WHash &) { x.bad = true; x.errs.insert(0); CHECK(noise_hashstate_get_hash_id(0) == NOISE_HASH_NONE); CHECK(noise_hashstate_get_hash_length(0) == 0); CHECK(noise_hashstate_get_block_length(0) == 0); return 0; }},
        {"hashstate_reset", [](X &x, WHash &w) { return noise_hashstate_reset(x.nul((NoiseHashState *)w.h, "state")); }},
        {"hashstate_update", [](X &x, WHash &w) { auto *s = x.nul((NoiseHashState *)w.h, "state"); return noise_hashstate_update(s, x.nul((const uint8_t *)d1.p, "data"), d1.n); }},
        {"hashstate_finalize", [](X &x, WHash &w) { static Block *o; o = new Block(w.n); x.out(*o, "hash"); auto *s = x.nul((NoiseHashState *)w.h, "state"); auto *p = x.nul(o->p, "hash"); return noise_hashstate_finalize(s, p, x.len(w.n, {0, 1, w.n - 1, w.n + 1, 2 * w.n, HUGE_LEN}, "hash_len")); }},
        {"hashstate_hash_one", [](X &x, WHash &w) { static Block *o; o = new Block(w.n); x.out(*o, "hash"); auto *s = x.nul((NoiseHashState *)w.h, "state"); auto *d = x.nul((const uint8_t *)d1.p, "data"); auto *p = x.nul(o->p, "hash"); return noise_hashstate_hash_one(s, d, d1.n, p, x.len(w.n, {0, 1, w.n - 1, w.n + 1, HUGE_LEN}, "hash_len")); }},
        {"hashstate_hash_two", [](X &x, WHash &w) { static Block *o; o = new Block(w.n); x.out(*o, "hash"); auto *s = x.nul((NoiseHashState *)w.h, "state"); auto *a = x.nul((const uint8_t *)d1.p, "data1"); auto *b = x.nul((const uint8_t *)d2.p, "data2"); auto *p = x.nul(o->p, "hash"); return noise_hashstate_hash_two(s, a, d1.n, b, d2.n, p, x.len(w.n, {0, 1, w.n - 1, w.n + 1, HUGE_LEN}, "hash_len")); }},
        {"hashstate_hkdf", [](X &x, WHash &w) { static Block *o, *q; o = new Block(w.n); q = new Block(w.n); x.out(*o, "output1"); x.out(*q, "output2"); auto *s = x.nul((NoiseHashState *)w.h, "state"); auto *a = x.nul((const uint8_t *)d1.p, "key"); auto *b = x.nul((const uint8_t *)d2.p, "data");
            auto *p1 = x.nul(o->p, "output1"); auto *p2 = x.nul(q->p, "output2"); size_t l1 = x.len(w.n, {w.n + 1, w.n + 2, HUGE_LEN}, "output1_len"), l2 = x.len(w.n, {w.n + 1, 2 * w.n, HUGE_LEN}, "output2_len"); return noise_hashstate_hkdf(s, a, d1.n, b, d2.n, p1, l1, p2, l2); }},
        {"hashstate_pbkdf2", [](X &x, WHash &w) { static Block *o; o = new Block(w.n + 3); x.out(*o, "output"); auto *s = x.nul((NoiseHashState *)w.h, "state"); auto *a = x.nul((const uint8_t *)d1.p, "passphrase"); auto *b = x.nul((const uint8_t *)d2.p, "salt");
            auto *p = x.nul(o->p, "output"); size_t l = x.len(o->n, {(size_t)0xffffffffULL * w.n + 1, HUGE_LEN}, "output_len"); return noise_hashstate_pbkdf2(s, a, d1.n, b, d2.n, 2, p, l); }},
    };
    drive<WHash>("hash", 8, k);
}
// ---------------------------------------------------------------- random
struct WRand {
    lb::RSt r; int v;
    explicit WRand(int v_) : v(v_) { rng::reset(9); noise_randstate_new(r.out()); if (v) { Block b(50); noise_randstate_generate(r, b.p, b.n); } }
    std::string probe() { std::string s; rng::reset(11); Block b(70); add(s, noise_randstate_generate(r, b.p, 70)); add(s, b.get()); add(s, noise_randstate_reseed(r)); add(s, noise_randstate_generate(r, b.p, 10)); add(s, b.get()); return s; }
};
static void cat_rand() {
    Calls<WRand> k = {
        {"randstate_new", [](X &x, WRand &) { static NoiseRandState *o; o = 0; int rc = noise_randstate_new(x.nul(&o, "state")); if (!rc) noise_randstate_free(o); return rc; }},
        {"randstate_free", [](X &x, WRand &) { x.skip_good = true; auto *p = x.nul((NoiseRandState *)1, "state"); return p ? 0 : noise_randstate_free(p); }},
        {"randstate_reseed", [](X &x, WRand &w) { return noise_randstate_reseed(x.nul((NoiseRandState *)w.r, "state")); }},
        {"randstate_generate", [](X &x, WRand &w) { static Block *o; o = new Block(33); x.out(*o, "buffer"); auto *s = x.nul((NoiseRandState *)w.r, "state"); return noise_randstate_generate(s, x.nul(o->p, "buffer"), 33); }},
        {"randstate_generate_simple", [](X &x, WRand &) { Block o(33); return noise_randstate_generate_simple(x.nul(o.p, "buffer"), 33); }},
        {"randstate_pad", [](X &x, WRand &w) { static Block *o; o = new Block(33); auto *s = x.nul((NoiseRandState *)w.r, "state"); auto *p = x.nul(o->p, "payload"); size_t padded = choose(3) == 0 ? 33 : choose(2) ? 20 : 7; int mode = choose(2) ? NOISE_PADDING_RANDOM : NOISE_PADDING_ZERO;
            x.after([padded](int rc) { if (!rc) return; CHECKK("pad payload", B(o->p, 20 < padded ? 20 : 33).find_first_not_of((uint8_t)0xA5) == bytes::npos, "pad changed the payload"); if (padded > 20) for (size_t i = 20; i < padded; i++) CHECKK("pad leak", o->p[i] == 0 || o->p[i] == 0xA5, "padding byte %zu is 0x%02x", i, o->p[i]); });
            return noise_randstate_pad(s, p, 20, padded, mode); }},
    };
    drive<WRand>("rand", 2, k);
}
// ---------------------------------------------------------------- DH
struct WDh {
    lb::DSt d, other, foreign; int v, id, st; size_t pub, priv, sh; bytes p1, s1;
    explicit WDh(int v_) : v(v_) {
        static const int ids[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}; id = ids[v / 3]; st = v % 3; bool nh = id == NOISE_DH_NEWHOPE;
        rng::reset(21); noise_dhstate_new_by_id(d.out(), id); noise_dhstate_new_by_id(other.out(), id); noise_dhstate_new_by_id(foreign.out(), id == NOISE_DH_CURVE25519 ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519);
        noise_dhstate_set_role(d, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(other, NOISE_ROLE_RESPONDER); noise_dhstate_generate_keypair(foreign);
        lb::DSt t; noise_dhstate_new_by_id(t.out(), id); noise_dhstate_set_role(t, NOISE_ROLE_INITIATOR); noise_dhstate_generate_keypair(t);
        pub = noise_dhstate_get_public_key_length(d); priv = noise_dhstate_get_private_key_length(d); sh = noise_dhstate_get_shared_key_length(d);
        Block a(priv), b(pub); noise_dhstate_get_keypair(t, a.p, a.n, b.p, b.n); s1 = a.get(); p1 = b.get();
        noise_dhstate_generate_dependent_keypair(other, nh ? (NoiseDHState *)t : nullptr);
        if (st == 1) noise_dhstate_set_public_key(d, b.p, b.n);
        if (st == 2) noise_dhstate_copy(d, t);
    }
    std::string probe() {
        std::string s; rng::reset(22); add(s, noise_dhstate_get_dh_id(d)); add(s, noise_dhstate_get_role(d)); add(s, noise_dhstate_has_keypair(d)); add(s, noise_dhstate_has_public_key(d)); add(s, noise_dhstate_is_null_public_key(d)); add(s, noise_dhstate_is_ephemeral_only(d));
        size_t np = noise_dhstate_get_public_key_length(d), ns = noise_dhstate_get_private_key_length(d); add(s, (long long)np); add(s, (long long)ns); Block a(ns), b(np), c(sh);
        add(s, noise_dhstate_get_keypair(d, a.p, a.n, b.p, b.n)); add(s, a.get()); add(s, b.get()); add(s, noise_dhstate_get_public_key(d, b.p, b.n)); add(s, b.get());
        add(s, noise_dhstate_calculate(d, other, c.p, sh)); add(s, c.get()); if (id != NOISE_DH_NEWHOPE || st) { Block c2(sh); add(s, noise_dhstate_calculate(other, d, c2.p, sh)); add(s, c2.get()); }
        add(s, noise_dhstate_has_keypair(other)); add(s, noise_dhstate_has_keypair(foreign));
        add(s, noise_dhstate_generate_keypair(d)); add(s, noise_dhstate_get_public_key(d, b.p, b.n)); add(s, b.get());
        return s;
    }
};
static void cat_dh() {
    Calls<WDh> k = {
        {"dhstate_new_by_id", [](X &x, WDh &) { static NoiseDHState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state");
            int rc = noise_dhstate_new_by_id(pp, x.val(NOISE_DH_CURVE25519, badids(NOISE_DH_CATEGORY, {NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_SHA256, NOISE_SIGN_ED25519, NOISE_PATTERN_NN}), NOISE_ERROR_UNKNOWN_ID, "id")); if (!pp) o = 0; if (!rc) noise_dhstate_free(o); return rc; }},
        {"dhstate_new_by_name", [](X &x, WDh &) { static NoiseDHState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); const char *n = x.name("448", badnames({"Ed25519", "AESGCM", "SHA256", "newhope", "2551", "44"}), NOISE_ERROR_UNKNOWN_NAME, "name"); n = x.nul(n, "name");
            int rc = noise_dhstate_new_by_name(pp, n); if (!pp) o = 0; if (!rc) noise_dhstate_free(o); return rc; }},
        {"dhstate_free", [](X &x, WDh &) { x.skip_good = true; auto *p = x.nul((NoiseDHState *)1, "state"); return p ? 0 : noise_dhstate_free(p); }},
        {"dhstate getters of NULL", [](X &x, WDh &) { x.bad = true; x.errs.insert(0); CHECK(noise_dhstate_get_dh_id(0) == NOISE_DH_NONE); CHECK(noise_dhstate_get_public_key_length(0) == 0); CHECK(noise_dhstate_get_private_key_length(0) == 0); CHECK(noise_dhstate_get_shared_key_length(0) == 0);
            CHECK(noise_dhstate_is_ephemeral_only(0) == 0); CHECK(noise_dhstate_has_keypair(0) == 0); CHECK(noise_dhstate_has_public_key(0) == 0); CHECK(noise_dhstate_is_null_public_key(0) == 0); CHECK(noise_dhstate_get_role(0) == 0); return 0; }},
        {"dhstate_generate_keypair", [](X &x, WDh &w) { return noise_dhstate_generate_keypair(x.nul((NoiseDHState *)w.d, "state")); }},
        {"dhstate_generate_dependent_keypair", [](X &x, WDh &w) { auto *s = x.nul((NoiseDHState *)w.d, "state"); NoiseDHState *o = w.other; if (x.budget && flag("foreign other")) { x.mark(PARAM, "other algorithm"); o = w.foreign; } x.any_base = !x.bad && w.id == NOISE_DH_NEWHOPE; return noise_dhstate_generate_dependent_keypair(s, o); }},
        {"dhstate_set_keypair", [](X &x, WDh &w) { static Block *a, *b; a = new Block(w.s1); b = new Block(w.p1); if (w.id == NOISE_DH_NEWHOPE) x.any_base = true; auto *s = x.nul((NoiseDHState *)w.d, "state"); auto *p = x.nul(a->p, "private_key"); auto *q = x.nul(b->p, "public_key");
            size_t l = x.len(a->n, {0, a->n - 1, a->n + 1, HUGE_LEN}, "private_key_len"), m = x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len"); if (!x.bad) x.no_twin = true; else x.any_base = false; return noise_dhstate_set_keypair(s, p, l, q, m); }},
        {"dhstate_set_keypair_private", [](X &x, WDh &w) { static Block *a; a = new Block(w.s1); auto *s = x.nul((NoiseDHState *)w.d, "state"); auto *p = x.nul(a->p, "private_key"); size_t l = x.len(a->n, {0, a->n - 1, a->n + 1, HUGE_LEN}, "private_key_len"); if (!x.bad) { x.no_twin = true; x.any_base = w.id == NOISE_DH_NEWHOPE; } return noise_dhstate_set_keypair_private(s, p, l); }},
        {"dhstate_get_keypair", [](X &x, WDh &w) { static Block *a, *b; a = new Block(w.priv); b = new Block(w.pub); x.out(*a, "private_key"); x.out(*b, "public_key"); if (w.st != 2) x.base(STATE); auto *s = x.nul((NoiseDHState *)w.d, "state"); auto *p = x.nul(a->p, "private_key"); auto *q = x.nul(b->p, "public_key");
            size_t l = x.len(a->n, {0, a->n - 1, a->n + 1, HUGE_LEN}, "private_key_len"), m = x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len"); return noise_dhstate_get_keypair(s, p, l, q, m); }},
        {"dhstate_set_public_key", [](X &x, WDh &w) { static Block *b; b = new Block(w.p1); auto *s = x.nul((NoiseDHState *)w.d, "state"); auto *q = x.nul(b->p, "public_key"); return noise_dhstate_set_public_key(s, q, x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len")); }},
        {"dhstate_get_public_key", [](X &x, WDh &w) { static Block *b; b = new Block(w.pub); x.out(*b, "public_key"); if (!w.st) x.any_base = true; auto *s = x.nul((NoiseDHState *)w.d, "state"); auto *q = x.nul(b->p, "public_key"); size_t l = x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len"); if (x.bad) x.any_base = false; return noise_dhstate_get_public_key(s, q, l); }},
        {"dhstate_set_null_public_key", [](X &x, WDh &w) { x.any_base = true; auto *s = x.nul((NoiseDHState *)w.d, "state"); if (x.bad) x.any_base = false; return noise_dhstate_set_null_public_key(s); }},
        {"dhstate_clear_key", [](X &x, WDh &w) { return noise_dhstate_clear_key(x.nul((NoiseDHState *)w.d, "state")); }},
        {"dhstate_calculate", [](X &x, WDh &w) { static Block *c; c = new Block(w.sh); x.out(*c, "shared_key"); NoiseDHState *a = w.d, *b = w.other; if (w.st != 2) x.base(NOISE_ERROR_INVALID_PRIVATE_KEY);
            if (x.budget && flag("foreign private")) { x.mark(PARAM, "private key of another algorithm"); a = w.foreign; } if (x.budget && flag("foreign public")) { x.mark(PARAM, "public key of another algorithm"); b = w.foreign; if (a == b) x.errs.insert(LEN), x.any_base = true, x.errs.insert(0); }
            a = x.nul(a, "private_key_state"); b = x.nul(b, "public_key_state"); auto *o = x.nul(c->p, "shared_key"); size_t l = c->n; if (!(a == w.foreign && b == w.foreign)) l = x.len(c->n, {0, c->n - 1, c->n + 1, HUGE_LEN}, "shared_key_len"); else { l = 32; if (w.sh < noise_dhstate_get_shared_key_length(w.foreign)) { x.skip_good = true; x.errs.insert(0); return 0; } l = noise_dhstate_get_shared_key_length(w.foreign); x.post.clear(); }
            return noise_dhstate_calculate(a, b, o, l); }},
        {"dhstate_calculate as public", [](X &x, WDh &w) { static Block *c; c = new Block(w.sh); x.out(*c, "shared_key"); x.any_base = true; auto *a = x.nul((NoiseDHState *)w.other, "private_key_state"); auto *b = x.nul((NoiseDHState *)w.d, "public_key_state"); auto *o = x.nul(c->p, "shared_key"); size_t l = x.len(c->n, {0, c->n - 1, c->n + 1}, "shared_key_len"); if (x.bad && w.st) x.any_base = false; if (w.id == NOISE_DH_NEWHOPE && !w.st && !x.bad) return 0; return noise_dhstate_calculate(a, b, o, l); }},
        {"dhstate_copy", [](X &x, WDh &w) { NoiseDHState *o = w.other; if (x.budget && flag("foreign from")) { x.mark(NOISE_ERROR_NOT_APPLICABLE, "from another algorithm"); o = w.foreign; } auto *s = x.nul((NoiseDHState *)w.d, "state"); o = x.nul(o, "from"); if (!x.bad) x.any_base = x.no_twin = true; return noise_dhstate_copy(s, o); }},
        {"dhstate_format_fingerprint", [](X &x, WDh &w) { static Block *o; o = new Block(NOISE_MAX_FINGERPRINT_LEN); if (!w.st) x.base(STATE); auto *s = x.nul((NoiseDHState *)w.d, "state"); int t = x.val(NOISE_FINGERPRINT_BASIC, {0, -1, NOISE_FINGERPRINT_FULL + 1, NOISE_HASH_SHA256}, PARAM, "type"); size_t l = x.len(o->n, {0, 1, 47}, "len"); auto *p = x.nul((char *)o->p, "buffer");
            x.after([p, l](int rc) { if (rc && p && l) CHECKK("fingerprint output", o->p[0] == 0 || o->all(0xA5), "buffer holds text after an error"); if (rc) for (size_t i = l; i < o->n; i++) CHECKK("fingerprint overrun", o->p[i] == 0xA5, "byte %zu beyond the buffer was written", i); }); return noise_dhstate_format_fingerprint(s, t, p, l); }},
        {"dhstate_set_role", [](X &x, WDh &w) { auto *s = x.nul((NoiseDHState *)w.d, "state"); int r = x.val(NOISE_ROLE_INITIATOR, {1, -1, NOISE_ROLE_RESPONDER + 1, NOISE_ACTION_READ_MESSAGE, NOISE_DH_CURVE25519, INT_MIN}, PARAM, "role"); if (!x.bad) x.any_base = x.no_twin = true; return noise_dhstate_set_role(s, r); }},
    };
    drive<WDh>("dh", 9, k);
}
// ---------------------------------------------------------------- signatures
struct WSign {
    lb::SSt d, other; int v, st; size_t pub, priv, sl; bytes p1, s1, sig;
    explicit WSign(int v_) : v(v_), st(v_) {
        rng::reset(31); noise_signstate_new_by_id(d.out(), NOISE_SIGN_ED25519); noise_signstate_new_by_id(other.out(), NOISE_SIGN_ED25519); noise_signstate_generate_keypair(other);
        pub = noise_signstate_get_public_key_length(d); priv = noise_signstate_get_private_key_length(d); sl = noise_signstate_get_signature_length(d);
        Block a(priv), b(pub), c(sl), m(pattern(20)); noise_signstate_get_keypair(other, a.p, a.n, b.p, b.n); s1 = a.get(); p1 = b.get(); noise_signstate_sign(other, m.p, m.n, c.p, c.n); sig = c.get();
        if (st == 1) noise_signstate_set_public_key(d, b.p, b.n); if (st == 2) noise_signstate_set_keypair(d, a.p, a.n, b.p, b.n);
    }
    std::string probe() {
        std::string s; rng::reset(32); Block a(priv), b(pub), c(sl), m(pattern(20)), g(sig); add(s, noise_signstate_get_sign_id(d)); add(s, noise_signstate_has_keypair(d)); add(s, noise_signstate_has_public_key(d));
        add(s, noise_signstate_get_keypair(d, a.p, a.n, b.p, b.n)); add(s, a.get()); add(s, b.get()); add(s, noise_signstate_get_public_key(d, b.p, b.n)); add(s, b.get()); add(s, noise_signstate_sign(d, m.p, m.n, c.p, c.n)); add(s, c.get()); add(s, noise_signstate_verify(d, m.p, m.n, g.p, g.n));
        g.p[3] ^= 1; add(s, noise_signstate_verify(d, m.p, m.n, g.p, g.n)); add(s, noise_signstate_generate_keypair(d)); add(s, noise_signstate_get_keypair(d, a.p, a.n, b.p, b.n)); add(s, b.get()); return s;
    }
};
static void cat_sign() {
    static Block msg(pattern(20));
    Calls<WSign> k = {
        {"signstate_new_by_id", [](X &x, WSign &) { static NoiseSignState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state");
            int rc = noise_signstate_new_by_id(pp, x.val(NOISE_SIGN_ED25519, badids(NOISE_SIGN_CATEGORY, {NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_SHA256, NOISE_DH_CURVE25519, NOISE_PATTERN_NN}), NOISE_ERROR_UNKNOWN_ID, "id")); if (!pp) o = 0; if (!rc) noise_signstate_free(o); return rc; }},
        {"signstate_new_by_name", [](X &x, WSign &) { static NoiseSignState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); const char *n = x.name("Ed25519", badnames({"25519", "AESGCM", "SHA256", "ed25519", "Ed2551", "Ed448"}), NOISE_ERROR_UNKNOWN_NAME, "name"); n = x.nul(n, "name");
            int rc = noise_signstate_new_by_name(pp, n); if (!pp) o = 0; if (!rc) noise_signstate_free(o); return rc; }},
        {"signstate_free", [](X &x, WSign &) { x.skip_good = true; auto *p = x.nul((NoiseSignState *)1, "state"); return p ? 0 : noise_signstate_free(p); }},
        {"signstate getters of NULL", [](X &x, WSign &) { x.bad = true; x.errs.insert(0); CHECK(noise_signstate_get_sign_id(0) == NOISE_SIGN_NONE); CHECK(noise_signstate_get_public_key_length(0) == 0); CHECK(noise_signstate_get_private_key_length(0) == 0); CHECK(noise_signstate_get_signature_length(0) == 0); CHECK(noise_signstate_has_keypair(0) == 0); CHECK(noise_signstate_has_public_key(0) == 0); return 0; }},
        {"signstate_generate_keypair", [](X &x, WSign &w) { return noise_signstate_generate_keypair(x.nul((NoiseSignState *)w.d, "state")); }},
        {"signstate_set_keypair", [](X &x, WSign &w) { static Block *a, *b; a = new Block(w.s1); b = new Block(w.p1); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *p = x.nul(a->p, "private_key"); auto *q = x.nul(b->p, "public_key");
            size_t l = x.len(a->n, {0, a->n - 1, a->n + 1, HUGE_LEN}, "private_key_len"), m = x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len"); return noise_signstate_set_keypair(s, p, l, q, m); }},
        {"signstate_set_keypair_private", [](X &x, WSign &w) { static Block *a; a = new Block(w.s1); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *p = x.nul(a->p, "private_key"); return noise_signstate_set_keypair_private(s, p, x.len(a->n, {0, a->n - 1, a->n + 1, HUGE_LEN}, "private_key_len")); }},
        {"signstate_get_keypair", [](X &x, WSign &w) { static Block *a, *b; a = new Block(w.priv); b = new Block(w.pub); x.out(*a, "private_key"); x.out(*b, "public_key"); if (w.st != 2) x.base(STATE); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *p = x.nul(a->p, "private_key"); auto *q = x.nul(b->p, "public_key");
            size_t l = x.len(a->n, {0, a->n - 1, a->n + 1, HUGE_LEN}, "private_key_len"), m = x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len"); return noise_signstate_get_keypair(s, p, l, q, m); }},
        {"signstate_set_public_key", [](X &x, WSign &w) { static Block *b; b = new Block(w.p1); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *q = x.nul(b->p, "public_key"); return noise_signstate_set_public_key(s, q, x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len")); }},
        {"signstate_get_public_key", [](X &x, WSign &w) { static Block *b; b = new Block(w.pub); x.out(*b, "public_key"); if (!w.st) x.base(STATE); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *q = x.nul(b->p, "public_key"); return noise_signstate_get_public_key(s, q, x.len(b->n, {0, b->n - 1, b->n + 1, HUGE_LEN}, "public_key_len")); }},
        {"signstate_clear_key", [](X &x, WSign &w) { return noise_signstate_clear_key(x.nul((NoiseSignState *)w.d, "state")); }},
        {"signstate_sign", [](X &x, WSign &w) { static Block *c; c = new Block(w.sl); x.out(*c, "signature"); if (w.st != 2) x.base(NOISE_ERROR_INVALID_PRIVATE_KEY); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *m = x.nul((const uint8_t *)msg.p, "message"); auto *q = x.nul(c->p, "signature"); return noise_signstate_sign(s, m, msg.n, q, x.len(c->n, {0, c->n - 1, c->n + 1, HUGE_LEN}, "signature_len")); }},
        {"signstate_verify", [](X &x, WSign &w) { static Block *c; c = new Block(w.sig); if (!w.st) x.base(NOISE_ERROR_INVALID_PUBLIC_KEY); auto *s = x.nul((NoiseSignState *)w.d, "state"); auto *m = x.nul((const uint8_t *)msg.p, "message"); auto *q = x.nul(c->p, "signature"); return noise_signstate_verify(s, m, msg.n, q, x.len(c->n, {0, c->n - 1, c->n + 1, HUGE_LEN}, "signature_len")); }},
        {"signstate_copy", [](X &x, WSign &w) { auto *s = x.nul((NoiseSignState *)w.d, "state"); return noise_signstate_copy(s, x.nul((NoiseSignState *)w.other, "from")); }},
        {"signstate_format_fingerprint", [](X &x, WSign &w) { static Block *o; o = new Block(NOISE_MAX_FINGERPRINT_LEN); if (!w.st) x.base(STATE); auto *s = x.nul((NoiseSignState *)w.d, "state"); int t = x.val(NOISE_FINGERPRINT_BASIC, {0, -1, NOISE_FINGERPRINT_FULL + 1, NOISE_HASH_SHA256}, PARAM, "type"); size_t l = x.len(o->n, {0, 1, 47}, "len"); auto *p = x.nul((char *)o->p, "buffer");
            x.after([p, l](int rc) { if (rc && p && l) CHECKK("fingerprint output", o->p[0] == 0 || o->all(0xA5), "buffer holds text after an error"); if (rc) for (size_t i = l; i < o->n; i++) CHECKK("fingerprint overrun", o->p[i] == 0xA5, "byte %zu beyond the buffer was written", i); }); return noise_signstate_format_fingerprint(s, t, p, l); }},
    };
    drive<WSign>("sign", 3, k);
}
// ---------------------------------------------------------------- protocol identifiers
static NoiseProtocolId good_id() { rn::Proto p; p.pattern = NOISE_PATTERN_XX; p.psk = 0; p.dh = NOISE_DH_CURVE25519; p.hybrid = 0; p.cipher = NOISE_CIPHER_CHACHAPOLY; p.hash = NOISE_HASH_BLAKE2s; return p.id(); }
static NoiseProtocolId the_id;
static const NoiseProtocolId *bad_id(X &x) {
    the_id = good_id(); const int U = NOISE_ERROR_UNKNOWN_ID;
    the_id.prefix_id = x.val(the_id.prefix_id, {-1, 1, NOISE_PATTERN_XX, NOISE_PREFIX_PSK + 1, INT_MAX}, U, "prefix");
    the_id.pattern_id = x.val(the_id.pattern_id, {0, -1, NOISE_DH_CURVE25519, NOISE_PREFIX_STANDARD, NOISE_PATTERN_CATEGORY, NOISE_PATTERN_CATEGORY | 0xff}, U, "pattern");
    the_id.dh_id = x.val(the_id.dh_id, {0, -1, NOISE_CIPHER_CHACHAPOLY, NOISE_SIGN_ED25519, NOISE_DH_CATEGORY, NOISE_DH_CATEGORY | 0xff}, U, "dh");
    the_id.cipher_id = x.val(the_id.cipher_id, {0, -1, NOISE_HASH_SHA256, NOISE_CIPHER_CATEGORY, NOISE_CIPHER_CATEGORY | 0xff}, U, "cipher");
    the_id.hash_id = x.val(the_id.hash_id, {0, -1, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_CATEGORY, NOISE_HASH_CATEGORY | 0xff}, U, "hash");
    the_id.hybrid_id = x.val(the_id.hybrid_id, {-1, NOISE_CIPHER_CHACHAPOLY, NOISE_DH_CATEGORY, NOISE_DH_CATEGORY | 0xff}, U, "hybrid");
    return x.nul(&the_id, "id");
}
static const std::vector<const char *> BADPROTO = {"", "Noise", "Noise_", "Noise_XX", "Noise_XX_25519", "Noise_XX_25519_ChaChaPoly", "Noise_XX_25519_ChaChaPoly_", "Noise_XX_25519_ChaChaPoly_BLAKE2sX", "Noise_XX_25519_ChaChaPoly_BLAKE2s_", "Noise_XX_25519_ChaChaPoly_BLAKE2s ",
    "noise_XX_25519_ChaChaPoly_BLAKE2s", "Noise_xx_25519_ChaChaPoly_BLAKE2s", "Noise_QQ_25519_ChaChaPoly_BLAKE2s", "Noise__25519_ChaChaPoly_BLAKE2s", "Noise_XX_25518_ChaChaPoly_BLAKE2s", "Noise_XX_Ed25519_ChaChaPoly_BLAKE2s", "Noise_XX_25519_BLAKE2s_ChaChaPoly", "Noise_XX_25519+_ChaChaPoly_BLAKE2s",
    "Noise_XX_+25519_ChaChaPoly_BLAKE2s", "_XX_25519_ChaChaPoly_BLAKE2s", "XX_25519_ChaChaPoly_BLAKE2s", "Noise_XX_25519_ChaChaPoly_BLAKE2s_Noise_XX_25519_ChaChaPoly_BLAKE2s_Noise_XX_25519_ChaChaPoly_BLAKE2s"};
struct WSym {
    lb::SySt s; int v;
    explicit WSym(int v_) : v(v_) {
        rng::reset(41); NoiseProtocolId id = good_id(); noise_symmetricstate_new_by_id(s.out(), &id); Block k(pattern(32)); if (v) noise_symmetricstate_mix_key(s, k.p, 32);
        if (v == 2) { NoiseCipherState *a = 0, *b = 0; noise_symmetricstate_split(s, &a, &b); noise_cipherstate_free(a); noise_cipherstate_free(b); }
    }
    std::string probe() {
        std::string r; NoiseProtocolId id; memset(&id, 0, sizeof id); add(r, noise_symmetricstate_get_protocol_id(s, &id)); add(r, B(&id, sizeof id)); add(r, (long long)noise_symmetricstate_get_mac_length(s));
        for (int i = 0; i < 2; i++) { Block b(40), m(pattern(32, 5)); NoiseBuffer n; noise_buffer_set_inout(n, b.p, 10, 40); add(r, noise_symmetricstate_encrypt_and_hash(s, &n)); add(r, (long long)n.size); add(r, b.get()); add(r, noise_symmetricstate_mix_hash(s, m.p, 7)); add(r, noise_symmetricstate_mix_key(s, m.p, 32)); }
        NoiseCipherState *a = 0, *b = 0; add(r, noise_symmetricstate_split(s, &a, &b)); bytes ct; if (a) { lb::encrypt(a, pattern(9), ct); add(r, ct); } if (b) { lb::encrypt(b, pattern(9), ct); add(r, ct); } noise_cipherstate_free(a); noise_cipherstate_free(b); return r;
    }
};
static void cat_sym() {
    auto crypt = [](bool enc) { return [enc](X &x, WSym &w) {
        Block data(enc ? 60 : 40); NoiseBuffer b; if (enc) noise_buffer_set_inout(b, data.p, 20, 60); else noise_buffer_set_input(b, data.p, 40);
        auto *s = x.nul((NoiseSymmetricState *)w.s, "state"); b.data = x.nul(b.data, "buffer.data");
        std::vector<size_t> sizes = {enc ? (size_t)61 : (size_t)41, 65536, HUGE_LEN}; if (w.v == 1) { sizes.push_back(enc ? 45 : 0); sizes.push_back(enc ? 60 : 15); }
        size_t was = b.size = x.len(b.size, sizes, "buffer.size"); auto *bp = x.nul(&b, "buffer");
        if (w.v == 2) x.base(STATE); if (!enc && w.v == 1) { x.base(NOISE_ERROR_MAC_FAILURE); if (!x.bad) x.no_twin = true; }
        int rc = enc ? noise_symmetricstate_encrypt_and_hash(s, bp) : noise_symmetricstate_decrypt_and_hash(s, bp);
        if (rc && rc != NOISE_ERROR_MAC_FAILURE) { CHECKK("buffer", data.all(0xA5) || data.all(0), "the buffer was changed by a refused call"); CHECKK("buffer size", b.size == was || b.size == 0, "the buffer size became %zu", b.size); }
        return rc; }; };
    static Block in(pattern(32));
    Calls<WSym> k = {
        {"symmetricstate_new_by_id", [](X &x, WSym &) { static NoiseSymmetricState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); int rc = noise_symmetricstate_new_by_id(pp, bad_id(x)); if (!pp) o = 0; if (!rc) noise_symmetricstate_free(o); return rc; }},
        {"symmetricstate_new_by_name", [](X &x, WSym &) { static NoiseSymmetricState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); const char *n = x.name("Noise_XX_25519_AESGCM_SHA256", BADPROTO, NOISE_ERROR_UNKNOWN_NAME, "name"); int rc = noise_symmetricstate_new_by_name(pp, x.nul(n, "name")); if (!pp) o = 0; if (!rc) noise_symmetricstate_free(o); return rc; }},
        {"symmetricstate_free", [](X &x, WSym &) { x.skip_good = true; auto *p = x.nul((NoiseSymmetricState *)1, "state"); return p ? 0 : noise_symmetricstate_free(p); }},
        {"symmetricstate_get_mac_length of NULL", [](X &x, WSym &) { x.bad = true; x.errs.insert(0); CHECK(noise_symmetricstate_get_mac_length(0) == 0); return 0; }},
        {"symmetricstate_get_protocol_id", [](X &x, WSym &w) { NoiseProtocolId id; auto *s = x.nul((NoiseSymmetricState *)w.s, "state"); return noise_symmetricstate_get_protocol_id(s, x.nul(&id, "id")); }},
        {"symmetricstate_mix_key", [](X &x, WSym &w) { if (w.v == 2) x.base(STATE); auto *s = x.nul((NoiseSymmetricState *)w.s, "state"); return noise_symmetricstate_mix_key(s, x.nul((const uint8_t *)in.p, "input"), 32); }},
        {"symmetricstate_mix_hash", [](X &x, WSym &w) { if (w.v == 2) x.base(STATE); auto *s = x.nul((NoiseSymmetricState *)w.s, "state"); return noise_symmetricstate_mix_hash(s, x.nul((const uint8_t *)in.p, "input"), 32); }},
        {"symmetricstate_encrypt_and_hash", crypt(true)}, {"symmetricstate_decrypt_and_hash", crypt(false)},
        {"symmetricstate_split", [](X &x, WSym &w) { static NoiseCipherState *a, *b; a = b = (NoiseCipherState *)0x55; if (w.v == 2) x.base(STATE); auto *s = x.nul((NoiseSymmetricState *)w.s, "state"); int which = choose(4); if (!which) x.mark(PARAM, "both outputs NULL");
            int rc = noise_symmetricstate_split(s, which & 1 ? &a : 0, which & 2 ? &b : 0); if (rc) { if (which & 1) CHECKK("split output", a == 0 || a == (NoiseCipherState *)0x55, "stray c1 after an error"); if (which & 2) CHECKK("split output", b == 0 || b == (NoiseCipherState *)0x55, "stray c2 after an error"); } else { if (which & 1) noise_cipherstate_free(a); if (which & 2) noise_cipherstate_free(b); } return rc; }},
    };
    drive<WSym>("symmetric", 3, k);
}
// ---------------------------------------------------------------- handshake
struct WHs {
    lb::HSt h, peer; int v, stage; rn::Proto p; bool init; std::string log; lb::Pair m; bytes last;
    static const int STAGES = 7;
    static const std::vector<rn::Proto> &protos() {
        static std::vector<rn::Proto> ps;
        if (ps.empty()) for (auto &c : lb::core_protos()) { bool want = c.pattern == NOISE_PATTERN_NN || (c.pattern == NOISE_PATTERN_XX && !c.psk) || (c.pattern == NOISE_PATTERN_IK && !c.psk) || (c.pattern == NOISE_PATTERN_N && c.psk) || (c.pattern == NOISE_PATTERN_NN_HFS && !c.psk); if (want || g().thorough) if (c.pattern != NOISE_PATTERN_XX_FALLBACK && c.pattern != NOISE_PATTERN_XX_FALLBACK_HFS) ps.push_back(c); }
        return ps;
    }
    static int variants() { return (int)protos().size() * 2 * STAGES; }
    void swap_msg(NoiseHandshakeState *a, NoiseHandshakeState *b) { bytes out, pl; add(log, lb::write(a, pattern(11), out, 3000)); add(log, out); add(log, lb::read(b, out, pl, 3000)); add(log, pl); }
    void run(bool one) {
        for (int i = 0; i < 5; i++) {
            int a = noise_handshakestate_get_action(h); add(log, a); add(log, noise_handshakestate_get_action(peer));
            if (a == NOISE_ACTION_WRITE_MESSAGE) swap_msg(h, peer); else if (a == NOISE_ACTION_READ_MESSAGE) swap_msg(peer, h); else break;
            if (one) break;
        }
    }
    explicit WHs(int v_) : v(v_) {
        stage = v % STAGES; init = (v / STAGES) % 2 == 0; p = protos()[v / STAGES / 2]; rng::reset(51);
        m = lb::model_pair(p, pattern(6)); lb::create(h, p, init); lb::create(peer, p, !init);
        if (stage >= 1) cfg(); if (stage >= 2) start(); if (stage == 3) run(true); if (stage == 4 || stage == 5) run(false);
        if (stage == 5) { NoiseCipherState *a = 0, *b = 0; noise_handshakestate_split(h, &a, &b); noise_cipherstate_free(a); noise_cipherstate_free(b); }
        if (stage == 6) { bytes o, pl; if (noise_handshakestate_get_action(h) == NOISE_ACTION_WRITE_MESSAGE) lb::write(h, pattern(40), o, 10); else lb::read(h, pattern(3), pl, 100); }
        log.clear();
    }
    void cfg() { add(log, lb::configure(h, init ? m.i : m.r, false)); add(log, lb::configure(peer, init ? m.r : m.i, false)); }
    void start() { add(log, noise_handshakestate_start(h)); add(log, noise_handshakestate_start(peer)); }
    void flags() {
        add(log, noise_handshakestate_get_role(h)); add(log, noise_handshakestate_get_action(h)); add(log, noise_handshakestate_needs_pre_shared_key(h)); add(log, noise_handshakestate_has_pre_shared_key(h)); add(log, noise_handshakestate_needs_local_keypair(h)); add(log, noise_handshakestate_has_local_keypair(h));
        add(log, noise_handshakestate_needs_remote_public_key(h)); add(log, noise_handshakestate_has_remote_public_key(h)); NoiseProtocolId id; memset(&id, 0, sizeof id); add(log, noise_handshakestate_get_protocol_id(h, &id)); add(log, B(&id, sizeof id));
    }
    std::string probe() {
        log.clear(); rng::reset(52); flags(); if (stage < 1) cfg(); flags(); if (stage < 2) start(); run(false); flags();
        bytes hh; add(log, lb::hs_hash(h, p.hash, hh)); add(log, hh); add(log, lb::hs_hash(peer, p.hash, hh)); add(log, hh);
        NoiseCipherState *a = 0, *b = 0; add(log, noise_handshakestate_split(h, &a, &b)); bytes ct; if (a) { lb::encrypt(a, pattern(9), ct); add(log, ct); } if (b) { lb::encrypt(b, pattern(9), ct); add(log, ct); } noise_cipherstate_free(a); noise_cipherstate_free(b);
        bytes o; add(log, lb::write(h, bytes(), o, 100)); add(log, lb::read(h, pattern(20), o, 100)); flags(); return log;
    }
    int action() { return noise_handshakestate_get_action(h); }
};
static void cat_hs() {
    Calls<WHs> k = {
        {"handshakestate_free", [](X &x, WHs &) { x.skip_good = true; auto *p = x.nul((NoiseHandshakeState *)1, "state"); return p ? 0 : noise_handshakestate_free(p); }},
        {"handshakestate getters of NULL", [](X &x, WHs &) { x.bad = true; x.errs.insert(0); CHECK(noise_handshakestate_get_role(0) == 0); CHECK(noise_handshakestate_get_local_keypair_dh(0) == 0); CHECK(noise_handshakestate_get_remote_public_key_dh(0) == 0); CHECK(noise_handshakestate_get_fixed_ephemeral_dh(0) == 0); CHECK(noise_handshakestate_get_fixed_hybrid_dh(0) == 0);
            CHECK(noise_handshakestate_needs_pre_shared_key(0) == 0); CHECK(noise_handshakestate_has_pre_shared_key(0) == 0); CHECK(noise_handshakestate_needs_local_keypair(0) == 0); CHECK(noise_handshakestate_has_local_keypair(0) == 0); CHECK(noise_handshakestate_needs_remote_public_key(0) == 0); CHECK(noise_handshakestate_has_remote_public_key(0) == 0);
            CHECK(noise_handshakestate_get_action(0) == NOISE_ACTION_NONE); return 0; }},
        {"handshakestate_get_protocol_id", [](X &x, WHs &w) { NoiseProtocolId id; auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); return noise_handshakestate_get_protocol_id(s, x.nul(&id, "id")); }},
        {"handshakestate_set_pre_shared_key", [](X &x, WHs &w) { static Block key(pattern(32)); if (!w.p.psk) x.base(NOISE_ERROR_NOT_APPLICABLE); if (w.stage >= 2) x.base(STATE); auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); auto *q = x.nul((const uint8_t *)key.p, "key"); return noise_handshakestate_set_pre_shared_key(s, q, x.len(32, {0, 1, 31, 33, 64, HUGE_LEN}, "key_len")); }},
        {"handshakestate_set_prologue", [](X &x, WHs &w) { static Block pro(pattern(10)); if (w.stage >= 2) x.base(STATE); auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); auto *q = x.nul((const void *)pro.p, "prologue"); return noise_handshakestate_set_prologue(s, q, pro.n); }},
        {"handshakestate_start", [](X &x, WHs &w) { auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); x.any_base = !x.bad; return noise_handshakestate_start(s); }},
        {"handshakestate_fallback", [](X &x, WHs &w) { auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); if (!x.bad) x.any_base = x.no_twin = true; return noise_handshakestate_fallback(s); }},
        {"handshakestate_fallback_to", [](X &x, WHs &w) { auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); int id = x.val(NOISE_PATTERN_XX_FALLBACK, {0, -1, NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_XX_HFS, NOISE_DH_CURVE25519, NOISE_PATTERN_CATEGORY | 0xff}, NOISE_ERROR_NOT_APPLICABLE, "pattern"); if (!x.bad) x.any_base = x.no_twin = true; else x.base(STATE); return noise_handshakestate_fallback_to(s, id); }},
        {"handshakestate_write_message", [](X &x, WHs &w) { static Block *o, *pl; o = new Block(3000); pl = new Block(pattern(10)); NoiseBuffer msg, pay; noise_buffer_set_output(msg, o->p, 3000); msg.size = 17; noise_buffer_set_input(pay, pl->p, 10); if (w.action() != NOISE_ACTION_WRITE_MESSAGE) x.base(STATE);
            auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); msg.data = x.nul(msg.data, "message.data"); auto *mp = x.nul(&msg, "message"); pay.data = x.nul(pay.data, "payload.data"); x.out(*o, "message"); int rc = noise_handshakestate_write_message(s, mp, &pay); if (rc && mp) CHECKK("message size", msg.size == 0, "message size is %zu after an error", msg.size); return rc; }},
        {"handshakestate_read_message", [](X &x, WHs &w) { static Block *in, *o; bytes mm = pattern(3); bool turn = w.action() == NOISE_ACTION_READ_MESSAGE; if (turn) { w.log.clear(); lb::write(w.peer, pattern(11), mm, 3000); } in = new Block(mm); o = new Block(3000); NoiseBuffer msg, pay; noise_buffer_set_input(msg, in->p, in->n); noise_buffer_set_output(pay, o->p, 3000); pay.size = 17; if (!turn) x.base(STATE);
            auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); msg.data = x.nul(msg.data, "message.data"); msg.size = x.len(msg.size, {msg.max_size + 1, 65536, HUGE_LEN}, "message.size"); if (x.bad && msg.size == 65536 && flag("max_size too")) msg.max_size = 65536; auto *mp = x.nul(&msg, "message"); pay.data = x.nul(pay.data, "payload.data"); x.out(*o, "payload");
            int rc = noise_handshakestate_read_message(s, mp, &pay); if (rc) CHECKK("payload size", pay.size == 0 || !pay.data, "payload size is %zu after an error", pay.size);
            if (rc && turn) { x.no_twin = true; if (w.p.pattern != NOISE_PATTERN_N || 1) { CHECKK("still reading", w.action() == NOISE_ACTION_READ_MESSAGE, "the refused read changed the state to %s", lb::act(w.action()).c_str()); bytes pl; int e = lb::read(w.h, mm, pl, 3000); CHECKK("correct read afterwards", e == 0 && pl == pattern(11), "the correct message gives %s afterwards", err(e).c_str()); w.run(false); CHECKK("completes", w.action() == NOISE_ACTION_SPLIT, "the handshake ends in %s", lb::act(w.action()).c_str()); } }
            return rc; }},
        {"handshakestate_split", [](X &x, WHs &w) { static NoiseCipherState *a, *b; a = b = (NoiseCipherState *)0x55; if (w.action() != NOISE_ACTION_SPLIT) x.base(STATE); auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); int which = choose(4); if (!which) x.mark(PARAM, "both outputs NULL");
            int rc = noise_handshakestate_split(s, which & 1 ? &a : 0, which & 2 ? &b : 0); if (rc) { CHECKK("split output", a == 0 || a == (NoiseCipherState *)0x55, "stray send"); CHECKK("split output", b == 0 || b == (NoiseCipherState *)0x55, "stray receive"); } else { if (which & 1) noise_cipherstate_free(a); if (which & 2) noise_cipherstate_free(b); } return rc; }},
        {"handshakestate_get_handshake_hash", [](X &x, WHs &w) { static Block *o; o = new Block(32); x.out(*o, "hash"); if (w.action() != NOISE_ACTION_SPLIT && w.action() != NOISE_ACTION_COMPLETE) x.base(STATE); auto *s = x.nul((NoiseHandshakeState *)w.h, "state"); return noise_handshakestate_get_handshake_hash(s, x.nul(o->p, "hash"), 32); }},
    };
    drive<WHs>("handshake", WHs::variants(), k);
}
struct WNone { explicit WNone(int) {} std::string probe() { return "-"; } };
static void cat_names() {
    Calls<WNone> k = {
        {"handshakestate_new_by_id", [](X &x, WNone &) { static NoiseHandshakeState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); auto *id = bad_id(x); int role = x.val(NOISE_ROLE_INITIATOR, {0, 1, -1, NOISE_ROLE_RESPONDER + 1, NOISE_ACTION_WRITE_MESSAGE, INT_MAX}, PARAM, "role"); int rc = noise_handshakestate_new_by_id(pp, id, role); if (!pp) o = 0; if (!rc) noise_handshakestate_free(o); return rc; }},
        {"handshakestate_new_by_name", [](X &x, WNone &) { static NoiseHandshakeState *o; x.outp(o, "state"); auto *pp = x.nul(&o, "state"); const char *n = x.name("NoisePSK_IK_448_AESGCM_SHA512", BADPROTO, NOISE_ERROR_UNKNOWN_NAME, "name"); n = x.nul(n, "name"); int role = x.val(NOISE_ROLE_RESPONDER, {0, 1, -1, NOISE_ROLE_RESPONDER + 1, INT_MIN}, PARAM, "role"); int rc = noise_handshakestate_new_by_name(pp, n, role); if (!pp) o = 0; if (!rc) noise_handshakestate_free(o); return rc; }},
        {"protocol_name_to_id", [](X &x, WNone &) { static NoiseProtocolId id; memset(&id, 0xA5, sizeof id); const char *n = x.name("Noise_XX_25519_ChaChaPoly_BLAKE2s", BADPROTO, NOISE_ERROR_UNKNOWN_NAME, "name"); size_t l = strlen(n); n = x.nul(n, "name"); auto *p = x.nul(&id, "id"); int rc = noise_protocol_name_to_id(p, n, l); if (!rc) { NoiseProtocolId good = good_id(); CHECK(!memcmp(&id, &good, sizeof id)); } return rc; }},
        {"protocol_id_to_name", [](X &x, WNone &) { static Block *o; o = new Block(64); auto *id = bad_id(x); size_t l = x.len(64, {0, 1, 5, 33}, "name_len"); auto *n = x.nul((char *)o->p, "name"); x.after([l, n](int rc) { if (rc && n && l) CHECKK("name output", o->p[0] == 0, "the name buffer is not empty after an error"); if (rc) for (size_t i = l; i < o->n; i++) CHECKK("name overrun", o->p[i] == 0xA5, "byte %zu beyond the buffer was written", i); }); return noise_protocol_id_to_name(n, l, id); }},
        {"name_to_id", [](X &x, WNone &) { x.bad = true; x.errs.insert(0); std::vector<int> cats = {0, NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY, NOISE_DH_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_PREFIX_CATEGORY, NOISE_SIGN_CATEGORY, 1, -1, INT_MAX, INT_MIN, NOISE_HASH_SHA256}; int c = pick(cats, "category");
            CHECKK("NULL name", noise_name_to_id(c, 0, 5) == 0, "a NULL name has an identifier"); CHECKK("NULL name", noise_name_to_id(c, 0, 0) == 0, "a NULL name has an identifier"); bool known = c == 0 || (c >= 256 && (c & 255) == 0 && c < INT_MAX - 256 && strchr("CHDPNS", c >> 8)); if (!known) CHECKK("unknown category", noise_name_to_id(c, "SHA256", 6) == 0 && noise_id_to_name(c, NOISE_HASH_SHA256) == 0, "category %d is accepted", c); 
            if (c && c != NOISE_HASH_CATEGORY) CHECKK("wrong category", noise_name_to_id(c, "SHA256", 6) == 0 && noise_id_to_name(c, NOISE_HASH_SHA256) == 0, "SHA256 found in category 0x%x", c); for (int id : badids(c, {})) if (id != c + 1) CHECKK("unknown id", noise_id_to_name(c, id) == 0 || (c == 0 && id && strlen(noise_id_to_name(c, id))), "identifier 0x%x has a name in category 0x%x", id, c); return 0; }},
        {"noise_free of NULL", [](X &x, WNone &) { x.bad = true; x.errs.insert(0); noise_free(0, 0); noise_free(0, 100); noise_protobuf_free_memory(0, 0); noise_protobuf_free_memory(0, 50); return 0; }},
        {"noise_strerror", [](X &x, WNone &) { static Block *o; o = new Block(40); x.errs.insert(-1); size_t l = x.len(40, {0}, "size", -1); auto *p = x.nul((char *)o->p, "buf", -1); x.after([l](int rc) { if (rc) CHECKK("strerror overrun", o->all(0xA5) || (l && o->p[0] == 0), "the buffer was written"); }); return noise_strerror(NOISE_ERROR_MAC_FAILURE, p, l); }},
        {"format_fingerprint", [](X &x, WNone &) { static Block *o, key(pattern(32)); o = new Block(NOISE_MAX_FINGERPRINT_LEN); int full = choose(2); int t = x.val(full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, {0, -1, NOISE_FINGERPRINT_FULL + 1, NOISE_HASH_SHA256}, PARAM, "type"); size_t l = full ? x.len(o->n, {0, 1, 48, 95}, "len") : x.len(o->n, {0, 1, 47}, "len"); auto *p = x.nul((char *)o->p, "buffer"); auto *q = x.nul((const uint8_t *)key.p, "public_key");
            x.after([l, p](int rc) { if (rc && p && l) CHECKK("fingerprint output", o->p[0] == 0 || o->all(0xA5), "buffer holds text after an error"); if (rc) for (size_t i = l; i < o->n; i++) CHECKK("fingerprint overrun", o->p[i] == 0xA5, "byte %zu beyond the buffer was written", i); }); return noise_format_fingerprint(t, p, l, q, 32); }},
    };
    drive<WNone>("names", 1, k);
}
// ---------------------------------------------------------------- protobuf
struct WPb {
    NoiseProtobuf pb; Block data; int v;
    static bytes input() { using namespace ct::pb; bytes b = u(1, 300); b = b + delim(2, B("text")); b = b + tag(3, 5) + B("\x01\x02\x03\x04"); b = b + tag(4, 1) + B("abcdefgh"); b = b + delim(5, u(1, 7)); b = b + u(6, 1); return b; }
    explicit WPb(int v_) : data(v_ == 0 || v_ == 3 ? bytes(input()) : bytes(64, 0x11)), v(v_) {
        if (v == 0 || v == 3) noise_protobuf_prepare_input(&pb, data.p, data.n); else if (v == 1) noise_protobuf_prepare_output(&pb, data.p, data.n); else noise_protobuf_prepare_measure(&pb, 64);
        if (v == 1 || v == 2) noise_protobuf_write_uint32(&pb, 9, 77); if (v == 3) noise_protobuf_read_stop(&pb);
    }
    bool rd() const { return v == 0 || v == 3; }
    std::string probe() {
        std::string s; add(s, (long long)pb.posn); add(s, (long long)pb.size); add(s, pb.error);
        if (rd()) { uint32_t a = 0; Block t(20); size_t n = 0; uint64_t d = 0; add(s, noise_protobuf_peek_tag(&pb)); add(s, noise_protobuf_read_uint32(&pb, 1, &a)); add(s, a); add(s, (long long)noise_protobuf_peek_size(&pb)); add(s, noise_protobuf_read_string(&pb, 2, (char *)t.p, 20, &n)); add(s, t.get()); add(s, noise_protobuf_read_fixed32(&pb, 3, &a)); add(s, a); add(s, noise_protobuf_read_fixed64(&pb, 4, &d)); add(s, (long long)d); add(s, noise_protobuf_read_skip(&pb)); add(s, noise_protobuf_read_skip(&pb)); add(s, noise_protobuf_finish_input(&pb)); }
        else { size_t e = 0, n = 0; uint8_t *d = 0; add(s, noise_protobuf_write_end_element(&pb, &e)); add(s, noise_protobuf_write_string(&pb, 3, "hello", 5)); add(s, noise_protobuf_write_start_element(&pb, 4, e)); if (v == 1) { add(s, noise_protobuf_finish_output_shift(&pb, &d, &n)); add(s, (long long)(d ? d - data.p : -1)); add(s, data.get()); } else add(s, noise_protobuf_finish_measure(&pb, &n)); add(s, (long long)n); }
        return s;
    }
    void base(X &x) { if (v == 3) x.base(NOISE_ERROR_INVALID_FORMAT); }
};
static void cat_pb() {
    // Each reader with a null buffer, a null result, a wrong tag (which ends the parse with a format error).
#define RD(N, T, TAG) {"protobuf_read_" #N, [](X &x, WPb &w) { if (!w.rd()) { x.skip_good = x.no_twin = true; return 0; } T val; memset((void *)&val, 0x33, sizeof val); T old = val; w.base(x); uint32_t skip_to = TAG; for (uint32_t i = 1; i < skip_to && w.v == 0; i++) noise_protobuf_read_skip(&w.pb); x.no_twin = true; size_t at = w.pb.posn; \
        int tag = x.val<int>(TAG, {TAG + 20, -1, INT_MAX, INT_MIN}, NOISE_ERROR_INVALID_FORMAT, "tag"); bool sticky = x.bad; auto *p = x.nul(&w.pb, "pbuf"); auto *q = x.nul(&val, "value"); int rc = noise_protobuf_read_##N(p, tag, q); \
        T zero; memset((void *)&zero, 0, sizeof zero); if (rc && q) CHECKK("value", !memcmp(&val, &old, sizeof val) || !memcmp(&val, &zero, sizeof val), "the value was changed by a refused read"); \
        if (rc == PARAM && p) { CHECKK("position", w.pb.posn == at && w.pb.error == (w.v == 3 ? NOISE_ERROR_INVALID_FORMAT : sticky && w.pb.error ? NOISE_ERROR_INVALID_FORMAT : 0), "a refused read moved the position or set an error"); } if (rc == NOISE_ERROR_INVALID_FORMAT) CHECKK("sticky", w.pb.error == rc && noise_protobuf_finish_input(&w.pb) == rc, "a format error is forgotten"); return rc; }}
#define WR(N, V) {"protobuf_write_" #N, [](X &x, WPb &w) { if (w.rd()) { x.skip_good = x.no_twin = true; return 0; } auto *p = x.nul(&w.pb, "pbuf"); return noise_protobuf_write_##N(p, 5, V); }}
    Calls<WPb> k = {
        RD(int32, int32_t, 1), RD(uint32, uint32_t, 1), RD(int64, int64_t, 1), RD(uint64, uint64_t, 1), RD(sint32, int32_t, 1), RD(sint64, int64_t, 1), RD(sfixed32, int32_t, 3), RD(fixed32, uint32_t, 3), RD(float, float, 3), RD(sfixed64, int64_t, 4), RD(fixed64, uint64_t, 4), RD(double, double, 4), RD(bool, int, 6), RD(start_element, size_t, 5),
        WR(int32, -3), WR(uint32, 3), WR(int64, -3), WR(uint64, 3), WR(sint32, -3), WR(sint64, -3), WR(sfixed32, -3), WR(fixed32, 3), WR(sfixed64, -3), WR(fixed64, 3), WR(float, 1.5f), WR(double, 1.5), WR(bool, 1),
        {"protobuf_read_string", [](X &x, WPb &w) { if (w.v) { x.skip_good = x.no_twin = true; return 0; } noise_protobuf_read_skip(&w.pb); x.no_twin = true; static Block *o; o = new Block(20); size_t n = 99, at = w.pb.posn; auto *p = x.nul(&w.pb, "pbuf"); size_t max = x.len(20, {0}, "max_size", PARAM); bool fm = false; if (x.budget && flag("short")) { max = 4; fm = true; x.mark(NOISE_ERROR_INVALID_FORMAT, "max_size 4"); x.errs.insert(LEN); } auto *q = x.nul((char *)o->p, "str"); bool ns = flag("size NULL"); int rc = noise_protobuf_read_string(p, 2, q, max, ns ? nullptr : &n);
            if (rc) { CHECKK("string size", ns || n == 0 || n == 99, "size is %zu after an error", n); CHECKK("string output", !q || o->p[0] == 0 || o->all(0xA5), "text in the buffer after an error"); } if (rc == PARAM && p && !fm) CHECKK("position", w.pb.posn == at && !w.pb.error, "moved"); return rc; }},
        {"protobuf_read_alloc_string", [](X &x, WPb &w) { if (w.v) { x.skip_good = x.no_twin = true; return 0; } noise_protobuf_read_skip(&w.pb); x.no_twin = true; static char *o; x.outp(o, "str"); size_t n = 99; auto *p = x.nul(&w.pb, "pbuf"); auto **q = x.nul(&o, "str"); if (!q) o = 0; bool ns = flag("size NULL"); int rc = noise_protobuf_read_alloc_string(p, 2, q, 100, ns ? nullptr : &n); if (rc) CHECKK("string size", ns || n == 0 || n == 99, "size is %zu after an error", n); if (!rc) noise_protobuf_free_memory(o, ns ? strlen(o) : n); return rc; }},
        {"protobuf_read_bytes", [](X &x, WPb &w) { if (w.v) { x.skip_good = x.no_twin = true; return 0; } noise_protobuf_read_skip(&w.pb); x.no_twin = true; static Block *o; o = new Block(20); x.out(*o, "data"); size_t n = 99; auto *p = x.nul(&w.pb, "pbuf"); size_t max = x.len(20, {0, 3}, "max_size", NOISE_ERROR_INVALID_FORMAT); auto *q = x.nul((void *)o->p, "data"); auto *s = x.nul(&n, "size"); int rc = noise_protobuf_read_bytes(p, 2, q, max, s); if (rc) CHECKK("bytes size", n == 0 || n == 99, "size is %zu after an error", n); return rc; }},
        {"protobuf_read_alloc_bytes", [](X &x, WPb &w) { if (w.v) { x.skip_good = x.no_twin = true; return 0; } noise_protobuf_read_skip(&w.pb); x.no_twin = true; static void *o; x.outp(o, "data"); size_t n = 99; auto *p = x.nul(&w.pb, "pbuf"); auto **q = x.nul(&o, "data"); auto *s = x.nul(&n, "size"); if (!q) o = 0; int rc = noise_protobuf_read_alloc_bytes(p, 2, q, 100, s); if (rc && !s && o == (void *)0x55) o = 0; if (rc) CHECKK("bytes size", n == 0 || n == 99, "size is %zu after an error", n); if (!rc) noise_protobuf_free_memory(o, n); return rc; }},
        {"protobuf_read_end_element", [](X &x, WPb &w) { if (w.v) { x.skip_good = x.no_twin = true; return 0; } size_t end = x.val<size_t>(w.pb.posn, {w.pb.posn + 1, HUGE_LEN}, NOISE_ERROR_INVALID_FORMAT, "end_posn"); auto *p = x.nul(&w.pb, "pbuf"); x.no_twin = p && x.bad; return noise_protobuf_read_end_element(p, end); }},
        {"protobuf_read_at_end_element of NULL", [](X &x, WPb &w) { x.bad = true; x.errs.insert(0); CHECKK("at end of NULL", noise_protobuf_read_at_end_element(0, 5), "a loop over a NULL protobuf would not end"); CHECK(noise_protobuf_peek_tag(0) == 0); CHECK(noise_protobuf_peek_size(0) == 0); return 0; }},
        {"protobuf_read_stop", [](X &x, WPb &w) { x.base(NOISE_ERROR_INVALID_FORMAT); auto *p = x.nul(&w.pb, "pbuf"); x.no_twin = p != nullptr; return noise_protobuf_read_stop(p); }},
        {"protobuf_read_skip", [](X &x, WPb &w) { if (!w.rd()) { x.skip_good = x.no_twin = true; return 0; } w.base(x); auto *p = x.nul(&w.pb, "pbuf"); return noise_protobuf_read_skip(p); }},
        {"protobuf_prepare_input", [](X &x, WPb &w) { Block b(5); auto *p = x.nul(&w.pb, "pbuf"); auto *d = x.nul((const uint8_t *)b.p, "data"); return noise_protobuf_prepare_input(p, d, 5); }},
        {"protobuf_prepare_output", [](X &x, WPb &w) { Block b(5); auto *p = x.nul(&w.pb, "pbuf"); auto *d = x.nul(b.p, "data"); return noise_protobuf_prepare_output(p, d, 5); }},
        {"protobuf_prepare_measure", [](X &x, WPb &w) { return noise_protobuf_prepare_measure(x.nul(&w.pb, "pbuf"), 5); }},
        {"protobuf_finish_input", [](X &x, WPb &w) { auto *p = x.nul(&w.pb, "pbuf"); if (!x.bad) x.any_base = x.no_twin = true; return noise_protobuf_finish_input(p); }},
        {"protobuf_finish_output", [](X &x, WPb &w) { uint8_t *d = (uint8_t *)1; size_t n = 77; w.base(x); auto *p = x.nul(&w.pb, "pbuf"); auto **q = x.nul(&d, "data"); auto *s = x.nul(&n, "size"); int rc = noise_protobuf_finish_output(p, q, s); if (rc) { CHECKK("finish data", !q || !d, "data is not NULL after an error"); CHECKK("finish size", !s || !n, "size is %zu after an error", n); } return rc; }},
        {"protobuf_finish_output_shift", [](X &x, WPb &w) { uint8_t *d = (uint8_t *)1; size_t n = 77; w.base(x); auto *p = x.nul(&w.pb, "pbuf"); auto **q = x.nul(&d, "data"); auto *s = x.nul(&n, "size"); int rc = noise_protobuf_finish_output_shift(p, q, s); if (rc) { CHECKK("finish data", !q || !d, "data is not NULL after an error"); CHECKK("finish size", !s || !n, "size is %zu after an error", n); } return rc; }},
        {"protobuf_finish_measure", [](X &x, WPb &w) { size_t n = 77; w.base(x); auto *p = x.nul(&w.pb, "pbuf"); auto *s = x.nul(&n, "size"); int rc = noise_protobuf_finish_measure(p, s); if (rc) CHECKK("finish size", !s || !n, "size is %zu after an error", n); return rc; }},
        {"protobuf_write_string", [](X &x, WPb &w) { if (w.rd()) { x.skip_good = x.no_twin = true; return 0; } auto *p = x.nul(&w.pb, "pbuf"); return noise_protobuf_write_string(p, 5, x.nul("abc", "str"), 3); }},
        {"protobuf_write_bytes", [](X &x, WPb &w) { if (w.rd()) { x.skip_good = x.no_twin = true; return 0; } auto *p = x.nul(&w.pb, "pbuf"); return noise_protobuf_write_bytes(p, 5, x.nul((const void *)"abc", "data"), 3); }},
        {"protobuf_write_string NULL, 0", [](X &x, WPb &w) { if (w.rd()) { x.skip_good = x.no_twin = true; return 0; } return choose(2) ? noise_protobuf_write_string(&w.pb, 5, 0, 0) : noise_protobuf_write_bytes(&w.pb, 5, 0, 0); }},
        {"protobuf_write_end_element", [](X &x, WPb &w) { if (w.rd()) { x.skip_good = x.no_twin = true; return 0; } size_t e = 7; auto *p = x.nul(&w.pb, "pbuf"); return noise_protobuf_write_end_element(p, x.nul(&e, "end_posn")); }},
        {"protobuf_write_start_element", [](X &x, WPb &w) { if (w.rd()) { x.skip_good = x.no_twin = true; return 0; } size_t e = 0; noise_protobuf_write_end_element(&w.pb, &e); size_t pos = w.pb.posn, err0 = w.pb.error; e = x.val<size_t>(e, {pos - 1, 0, 65, HUGE_LEN}, PARAM, "end_posn"); int tag = choose(2) ? 5 : 0; auto *p = x.nul(&w.pb, "pbuf"); int rc = noise_protobuf_write_start_element(p, tag, e); if (rc) CHECKK("position", w.pb.posn == pos && (size_t)w.pb.error == err0, "a refused write moved the position"); return rc; }},
        {"protobuf_add_to_string_array", [](X &x, WPb &) { char **a = 0; size_t *l = 0, n = 0, m = 0; bool str = choose(2); int have = choose(2); auto addv = [&](const char *v, size_t k) { return str ? noise_protobuf_add_to_string_array(&a, &l, &n, &m, v, k) : noise_protobuf_add_to_bytes_array((void ***)&a, &l, &n, &m, v, k); }; if (have) addv("x", 1); size_t n0 = n; int rc = addv(x.nul("abc", "value"), 3);
            if (rc) CHECKK("array", n == n0 && (!have || (a && a[0][0] == 'x')), "a refused add changed the array"); else CHECKK("array", n == n0 + 1 && !memcmp(a[n0], "abc", 3) && l[n0] == 3, "element wrong"); addv("yy", 2); CHECKK("array", !memcmp(a[n - 1], "yy", 2), "the array does not work afterwards"); for (size_t i = 0; i < n; i++) noise_protobuf_free_memory(a[i], l[i]); noise_protobuf_free_memory(a, m * sizeof(*a)); noise_protobuf_free_memory(l, m * sizeof(*l)); return rc; }},
    };
    drive<WPb>("protobuf", 4, k);
}
// ---------------------------------------------------------------- loader
struct WLoad {
    ct::CertO cert; ct::ChainO chain; ct::PrivO key; bytes cb, kb;
    explicit WLoad(int) { Noise_Certificate_new(cert.out()); ct::Cert c = ct::mkcert(2); ct::build(cert, c, ct::plain); cb = c.enc(); Noise_CertificateChain_new(chain.out()); ct::Chain ch; ch.certs = {c, c}; ct::build(chain, ch, ct::plain); Noise_PrivateKey_new(key.out()); ct::PrivKey pk = ct::mksubj(2); ct::build(key, pk, ct::plain);
        kb = ct::protect(pk.enc(), B("pass"), "ChaChaPoly_BLAKE2s_PBKDF2", NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2s, 3, pattern(16)); }
    std::string probe() { std::string s; bytes o; add(s, ct::save(Noise_Certificate_write, (const Noise_Certificate *)cert, o)); add(s, o); add(s, ct::save(Noise_CertificateChain_write, (const Noise_CertificateChain *)chain, o)); add(s, o); add(s, ct::save(Noise_PrivateKey_write, (const Noise_PrivateKey *)key, o)); add(s, o); return s; }
};
static void put(const char *f, const bytes &b) { FILE *o = fopen(f, "wb"); fwrite(b.data(), 1, b.size(), o); fclose(o); }
static bool exists(const char *f) { struct stat s; return lstat(f, &s) == 0; }
static void cat_load() {
    static const std::vector<const char *> PN = {"", "_", "__", "ChaChaPoly", "ChaChaPoly_", "ChaChaPoly_BLAKE2b", "ChaChaPoly_BLAKE2b_", "ChaChaPoly_BLAKE2b_pbkdf2", "ChaChaPoly_BLAKE2b_PBKDF", "ChaChaPoly_BLAKE2b_PBKDF2_", "ChaChaPoly_BLAKE2b_PBKDF22", "X_BLAKE2b_PBKDF2", "ChaChaPoly_X_PBKDF2", "BLAKE2b_ChaChaPoly_PBKDF2", "_BLAKE2b_PBKDF2", "ChaChaPoly__PBKDF2", "25519_BLAKE2b_PBKDF2", "chachapoly_BLAKE2b_PBKDF2",
        "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA_BLAKE2b_PBKDF2"};
    Calls<WLoad> k = {
        {"load_certificate_from_file", [](X &x, WLoad &w) { put("c", w.cb); static Noise_Certificate *o; x.outp_or_same(o, "cert"); auto **q = x.nul(&o, "cert"); int rc = noise_load_certificate_from_file(q, x.nul("c", "filename")); if (!rc) Noise_Certificate_free(o); return rc; }},
        {"load_certificate_chain_from_file", [](X &x, WLoad &w) { put("c", w.cb); static Noise_CertificateChain *o; x.outp_or_same(o, "chain"); auto **q = x.nul(&o, "chain"); int rc = noise_load_certificate_chain_from_file(q, x.nul("c", "filename")); if (!rc) Noise_CertificateChain_free(o); return rc; }},
        {"load_private_key_from_file", [](X &x, WLoad &w) { put("k", w.kb); static Noise_PrivateKey *o; x.outp_or_same(o, "key"); auto **q = x.nul(&o, "key"); auto *f = x.nul("k", "filename"); int rc = noise_load_private_key_from_file(q, f, x.nul("pass", "passphrase"), 4); if (!rc) Noise_PrivateKey_free(o); return rc; }},
        {"load_certificate_from_buffer", [](X &x, WLoad &w) { Block b(w.cb); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, b.p, b.n); static Noise_Certificate *o; x.outp(o, "cert"); auto **q = x.nul(&o, "cert"); if (!q) o = 0; int rc = noise_load_certificate_from_buffer(q, x.nul(&pb, "pbuf")); if (!rc) Noise_Certificate_free(o); return rc; }},
        {"load_certificate_chain_from_buffer", [](X &x, WLoad &w) { Block b(w.cb); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, b.p, b.n); static Noise_CertificateChain *o; x.outp(o, "chain"); auto **q = x.nul(&o, "chain"); if (!q) o = 0; int rc = noise_load_certificate_chain_from_buffer(q, x.nul(&pb, "pbuf")); if (!rc) Noise_CertificateChain_free(o); return rc; }},
        {"load_private_key_from_buffer", [](X &x, WLoad &w) { Block b(w.kb); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, b.p, b.n); static Noise_PrivateKey *o; x.outp(o, "key"); auto **q = x.nul(&o, "key"); if (!q) o = 0; auto *p = x.nul(&pb, "pbuf"); int rc = noise_load_private_key_from_buffer(q, p, x.nul("pass", "passphrase"), 4); if (!rc) Noise_PrivateKey_free(o); return rc; }},
        {"save_certificate_to_file", [](X &x, WLoad &w) { unlink("s"); auto *c = x.nul((Noise_Certificate *)w.cert, "cert"); int rc = noise_save_certificate_to_file(c, x.nul("s", "filename")); if (rc) CHECKK("file created", !exists("s"), "a refused save created a file"); return rc; }},
        {"save_certificate_chain_to_file", [](X &x, WLoad &w) { unlink("s"); auto *c = x.nul((Noise_CertificateChain *)w.chain, "chain"); int rc = noise_save_certificate_chain_to_file(c, x.nul("s", "filename")); if (rc) CHECKK("file created", !exists("s"), "a refused save created a file"); return rc; }},
        {"save_private_key_to_file", [](X &x, WLoad &w) { unlink("s"); x.skip_good = true; auto *c = x.nul((Noise_PrivateKey *)w.key, "key"); auto *f = x.nul("s", "filename"); auto *p = x.nul("pass", "passphrase"); auto *n = x.name("ChaChaPoly_BLAKE2s_PBKDF2", PN, NOISE_ERROR_UNKNOWN_NAME, "protect_name"); n = x.nul(n, "protect_name"); if (!x.bad) return 0; int rc = noise_save_private_key_to_file(c, f, p, 4, n); if (rc) CHECKK("file created", !exists("s"), "a refused save created a file"); return rc; }},
        {"save_certificate_to_buffer", [](X &x, WLoad &w) { Block b(2000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); auto *c = x.nul((Noise_Certificate *)w.cert, "cert"); auto *p = x.nul(&pb, "pbuf"); return noise_save_certificate_to_buffer(c, p); }},
        {"save_certificate_chain_to_buffer", [](X &x, WLoad &w) { Block b(4000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); auto *c = x.nul((Noise_CertificateChain *)w.chain, "chain"); auto *p = x.nul(&pb, "pbuf"); return noise_save_certificate_chain_to_buffer(c, p); }},
        {"save_private_key_to_buffer", [](X &x, WLoad &w) { Block b(2000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); x.skip_good = true; auto *c = x.nul((Noise_PrivateKey *)w.key, "key"); auto *f = x.nul(&pb, "pbuf"); auto *p = x.nul("pass", "passphrase"); auto *n = x.name("ChaChaPoly_BLAKE2s_PBKDF2", PN, NOISE_ERROR_UNKNOWN_NAME, "protect_name"); n = x.nul(n, "protect_name"); if (!x.bad) return 0; int rc = noise_save_private_key_to_buffer(c, f, p, 4, n); if (rc) CHECKK("buffer written", b.all(0xA5), "a refused save wrote into the buffer"); return rc; }},
    };
    drive<WLoad>("loader", 1, k);
}
// ---------------------------------------------------------------- generated accessors
template <class T, int (*NEW)(T **), int (*FREE)(T *), int (*WRITE)(NoiseProtobuf *, int, const T *)> struct WObj {
    T *o = nullptr; static inline std::function<void(T *)> fill;
    explicit WObj(int v) { NEW(&o); if (v && fill) fill(o); }
    ~WObj() { FREE(o); }
    WObj(const WObj &) = delete;
    std::string probe() { std::string s; bytes b; add(s, ct::save(WRITE, (const T *)o, b)); add(s, b); return s; }
};
#define OBJ(T) using W##T = WObj<Noise_##T, Noise_##T##_new, Noise_##T##_free, Noise_##T##_write>; static void cat_##T() { using W = W##T; using O = Noise_##T; Calls<W> k = { \
    {#T "_new", [](X &x, W &) { O *o = 0; int rc = Noise_##T##_new(x.nul(&o, "obj")); if (!rc) Noise_##T##_free(o); return rc; }}, \
    {#T "_free", [](X &x, W &) { x.skip_good = true; auto *p = x.nul((O *)1, "obj"); return p ? 0 : Noise_##T##_free(p); }}, \
    {#T "_write", [](X &x, W &w) { Block b(4000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); auto *p = x.nul(&pb, "pbuf"); int t = choose(2) ? 3 : 0; return Noise_##T##_write(p, t, x.nul((const O *)w.o, "obj")); }}, \
    {#T "_read", [](X &x, W &w) { bytes e; ct::save(Noise_##T##_write, (const O *)w.o, e); Block b(e); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, b.p, b.n); static O *o; x.outp(o, "obj"); auto *p = x.nul(&pb, "pbuf"); auto **q = x.nul(&o, "obj"); if (!q) o = 0; int rc = Noise_##T##_read(p, 0, q); if (!rc) Noise_##T##_free(o); return rc; }},
#define ENDOBJ(T) }; drive<W>(#T, 2, k); }
#define GETTERS(T, F, ...) {#T "_" #F " getters of NULL", [](X &x, W &) { x.bad = true; x.errs.insert(0); CHECK(Noise_##T##_has_##F(0) == 0); __VA_ARGS__; return 0; }}, {#T "_clear_" #F, [](X &x, W &w) { return Noise_##T##_clear_##F(x.nul(w.o, "obj")); }},
#define STR(T, F) GETTERS(T, F, CHECK(Noise_##T##_get_##F(0) == 0); CHECK(Noise_##T##_get_size_##F(0) == 0)) {#T "_set_" #F, [](X &x, W &w) { Block v(B("value")); auto *o = x.nul(w.o, "obj"); auto *p = x.nul((const char *)v.p, "value"); return Noise_##T##_set_##F(o, p, 5); }},
#define BYT(T, F) GETTERS(T, F, CHECK(Noise_##T##_get_##F(0) == 0); CHECK(Noise_##T##_get_size_##F(0) == 0)) {#T "_set_" #F, [](X &x, W &w) { Block v(B("value")); auto *o = x.nul(w.o, "obj"); auto *p = x.nul((const void *)v.p, "value"); return Noise_##T##_set_##F(o, p, 5); }},
#define NUM(T, F) GETTERS(T, F, CHECK(Noise_##T##_get_##F(0) == 0)) {#T "_set_" #F, [](X &x, W &w) { return Noise_##T##_set_##F(x.nul(w.o, "obj"), 9); }},
#define MSG(T, F, U) GETTERS(T, F, CHECK(Noise_##T##_get_##F(0) == 0)) {#T "_get_new_" #F, [](X &x, W &w) { static Noise_##U *q; x.outp(q, "value"); auto *o = x.nul(w.o, "obj"); auto **p = x.nul(&q, "value"); if (!p) q = 0; return Noise_##T##_get_new_##F(o, p); }},
#define REP(T, F, U) GETTERS(T, F, CHECK(Noise_##T##_count_##F(0) == 0); CHECK(Noise_##T##_get_at_##F(0, 0) == 0); CHECK(Noise_##T##_get_at_##F(0, HUGE_LEN) == 0)) \
    {#T "_get_at_" #F, [](X &x, W &w) { x.bad = true; x.errs.insert(0); size_t n = Noise_##T##_count_##F(w.o); CHECKK("index out of range", Noise_##T##_get_at_##F(w.o, n) == 0 && Noise_##T##_get_at_##F(w.o, n + 1) == 0 && Noise_##T##_get_at_##F(w.o, HUGE_LEN) == 0, "an element beyond the end of " #F " exists"); return 0; }}, \
    {#T "_add_" #F, [](X &x, W &w) { static Noise_##U *q; x.outp(q, "value"); auto *o = x.nul(w.o, "obj"); auto **p = x.nul(&q, "value"); if (!p) q = 0; return Noise_##T##_add_##F(o, p); }}, \
    {#T "_insert_" #F, [](X &x, W &w) { Noise_##U *q = 0; Noise_##U##_new(&q); auto *o = x.nul(w.o, "obj"); auto *p = x.nul(q, "value"); size_t i = choose(2) ? 0 : HUGE_LEN; int rc = Noise_##T##_insert_##F(o, i, p); if (rc) Noise_##U##_free(q); return rc; }},
OBJ(Certificate) NUM(Certificate, version) MSG(Certificate, subject, SubjectInfo) REP(Certificate, signatures, Signature) ENDOBJ(Certificate)
OBJ(CertificateChain) REP(CertificateChain, certs, Certificate) ENDOBJ(CertificateChain)
OBJ(SubjectInfo) STR(SubjectInfo, id) STR(SubjectInfo, name) STR(SubjectInfo, role) REP(SubjectInfo, keys, PublicKeyInfo) REP(SubjectInfo, meta, MetaInfo) ENDOBJ(SubjectInfo)
OBJ(PublicKeyInfo) STR(PublicKeyInfo, algorithm) BYT(PublicKeyInfo, key) ENDOBJ(PublicKeyInfo)
OBJ(MetaInfo) STR(MetaInfo, name) STR(MetaInfo, value) ENDOBJ(MetaInfo)
OBJ(Signature) STR(Signature, id) STR(Signature, name) MSG(Signature, signing_key, PublicKeyInfo) STR(Signature, hash_algorithm) MSG(Signature, extra_signed_info, ExtraSignedInfo) BYT(Signature, signature) ENDOBJ(Signature)
OBJ(ExtraSignedInfo) BYT(ExtraSignedInfo, nonce) STR(ExtraSignedInfo, valid_from) STR(ExtraSignedInfo, valid_to) REP(ExtraSignedInfo, meta, MetaInfo) ENDOBJ(ExtraSignedInfo)
OBJ(EncryptedPrivateKey) NUM(EncryptedPrivateKey, version) STR(EncryptedPrivateKey, algorithm) BYT(EncryptedPrivateKey, salt) NUM(EncryptedPrivateKey, iterations) BYT(EncryptedPrivateKey, encrypted_data) ENDOBJ(EncryptedPrivateKey)
OBJ(PrivateKey) STR(PrivateKey, id) STR(PrivateKey, name) STR(PrivateKey, role) REP(PrivateKey, keys, PrivateKeyInfo) REP(PrivateKey, meta, MetaInfo) ENDOBJ(PrivateKey)
OBJ(PrivateKeyInfo) STR(PrivateKeyInfo, algorithm) BYT(PrivateKeyInfo, key) ENDOBJ(PrivateKeyInfo)

static void setup() {
    rng::install();
    WCertificate::fill = [](auto *o) { ct::build(o, ct::mkcert(2), ct::plain); };
    WCertificateChain::fill = [](auto *o) { ct::Chain c; c.certs = {ct::mkcert(1), ct::mkcert(2)}; ct::build(o, c, ct::plain); };
    WSubjectInfo::fill = [](auto *o) { ct::build(o, ct::mksubj(2), ct::plain); };
    WPublicKeyInfo::fill = [](auto *o) { ct::build(o, ct::mkkey(0), ct::plain); };
    WMetaInfo::fill = [](auto *o) { ct::build(o, ct::mkmeta(0), ct::plain); };
    WSignature::fill = [](auto *o) { ct::build(o, ct::mksig(2), ct::plain); };
    WExtraSignedInfo::fill = [](auto *o) { ct::build(o, *ct::mksig(2).extra, ct::plain); };
    WEncryptedPrivateKey::fill = [](auto *o) { Noise_EncryptedPrivateKey_set_version(o, 1); Noise_EncryptedPrivateKey_set_algorithm(o, "alg", 3); Noise_EncryptedPrivateKey_set_salt(o, "salt", 4); Noise_EncryptedPrivateKey_set_iterations(o, 1000); Noise_EncryptedPrivateKey_set_encrypted_data(o, "data", 4); };
    WPrivateKey::fill = [](auto *o) { ct::build(o, ct::mksubj(2), ct::plain); };
    WPrivateKeyInfo::fill = [](auto *o) { ct::build(o, ct::mkkey(0), ct::plain); };
}
static void body() {
    typedef void (*F)(); static const F cats[] = {cat_cipher, cat_hash, cat_rand, cat_dh, cat_sign, cat_sym, cat_hs, cat_names, cat_pb, cat_load, cat_Certificate, cat_CertificateChain, cat_SubjectInfo, cat_PublicKeyInfo, cat_MetaInfo, cat_Signature, cat_ExtraSignedInfo, cat_EncryptedPrivateKey, cat_PrivateKey, cat_PrivateKeyInfo};
    cats[choose(sizeof cats / sizeof *cats, "category")]();
}
VH_MAIN2(body, setup)
