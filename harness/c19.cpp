// C19: DHState objects.  Curves: every sequence of calls on two objects against a model whose keys come from libcrypto.
// NewHope: every history of two objects followed by an exchange that must agree.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
struct K { int kind = 0; bytes priv, pub; bool operator==(const K &o) const { return kind == o.kind && priv == o.priv && pub == o.pub; } };   // 0 none, 1 public, 2 pair
static std::string fp(const bytes &pub, size_t n) { bytes h = rc::hash(NOISE_HASH_SHA256, pub); std::string s; for (size_t i = 0; i < n; i++) s += fmt("%s%02x", i ? ":" : "", h[i]); return s; }
static void fingerprint(NoiseDHState *d, bool have, const bytes &pub, const std::string &w) {
    for (int t = 0; t < 2; t++) { size_t n = t ? 96 : 48; Block b(n); int e = noise_dhstate_format_fingerprint(d, t ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, (char *)b.p, n);
        if (have) CHECKK("fingerprint", e == 0 && fp(pub, t ? 32 : 16) == (char *)b.p, "fingerprint %s: %s", w.c_str(), lb::err(e).c_str()); else CHECKK("fingerprint without key", e == NOISE_ERROR_INVALID_STATE && !b.p[0], "fingerprint without a key %s: %s", w.c_str(), lb::err(e).c_str()); }
}
static bytes privkey(int dh, int i) { return lb::secret('k', (char)('a' + i), rc::dhlen(dh)); }
// What the object says about itself
static void observe(NoiseDHState *d, int dh, const K &m, const std::string &w) {
    size_t n = rc::dhlen(dh); op();
    CHECKK("lengths", noise_dhstate_get_dh_id(d) == dh && noise_dhstate_get_public_key_length(d) == n && noise_dhstate_get_private_key_length(d) == n && noise_dhstate_get_shared_key_length(d) == n, "identifier or lengths %s", w.c_str());
    CHECKK("has_keypair", !!noise_dhstate_has_keypair(d) == (m.kind == 2), "has_keypair is %d %s", noise_dhstate_has_keypair(d), w.c_str());
    CHECKK("has_public_key", !!noise_dhstate_has_public_key(d) == (m.kind != 0), "has_public_key is %d %s", noise_dhstate_has_public_key(d), w.c_str());
    CHECKK("is_null", !!noise_dhstate_is_null_public_key(d) == (m.kind && m.pub == bytes(n, 0)), "is_null_public_key is %d %s", noise_dhstate_is_null_public_key(d), w.c_str());
    { Block a(n), b(n); int e = noise_dhstate_get_keypair(d, a.p, n, b.p, n); if (m.kind == 2) CHECKK("keypair", e == 0 && a.get() == m.priv && b.get() == m.pub, "the keypair %s: %s", w.c_str(), lb::err(e).c_str()); else CHECKK("no keypair", e == NOISE_ERROR_INVALID_STATE && a.all(0) && b.all(0), "get_keypair without a keypair %s: %s", w.c_str(), lb::err(e).c_str()); }
    { Block a(n); int e = noise_dhstate_get_public_key(d, a.p, n); CHECKK("public key", m.kind ? e == 0 && a.get() == m.pub : a.all(0), "the public key %s: %s", w.c_str(), lb::err(e).c_str()); }
    for (size_t l : {n - 1, n + 1, (size_t)0}) { Block a(l), b(n); CHECKK("length", noise_dhstate_get_public_key(d, a.p, l) == NOISE_ERROR_INVALID_LENGTH && a.all(0xA5), "a public key of %zu bytes", l); CHECKK("length", noise_dhstate_get_keypair(d, a.p, l, b.p, n) == NOISE_ERROR_INVALID_LENGTH && noise_dhstate_get_keypair(d, b.p, n, a.p, l) == NOISE_ERROR_INVALID_LENGTH && a.all(0xA5) && b.all(0xA5), "a keypair of %zu bytes", l); }
    fingerprint(d, m.kind, m.pub, w);
}
static void calc(NoiseDHState *a, const K &ma, NoiseDHState *b, const K &mb, int dh, const std::string &w) {
    size_t n = rc::dhlen(dh); Block s(n); int e = noise_dhstate_calculate(a, b, s.p, n); op();
    if (ma.kind != 2) { CHECKK("calculate without private key", e == NOISE_ERROR_INVALID_PRIVATE_KEY, "calculating without a private key %s: %s", w.c_str(), lb::err(e).c_str()); CHECKK("nothing calculated", s.all(0xA5) || s.all(0), "a refused calculation produced a key"); }
    else if (mb.kind == 0) { CHECKK("calculate without public key", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "calculating without a public key %s: %s", w.c_str(), lb::err(e).c_str()); CHECKK("nothing calculated", s.all(0xA5) || s.all(0), "a refused calculation produced a key"); }
    else CHECKK("shared key", e == 0 && s.get() == rc::dh(dh, ma.priv, mb.pub), "the shared key %s: %s", w.c_str(), lb::err(e).c_str());
    for (size_t l : {n - 1, n + 1, (size_t)0}) { Block t(l); e = noise_dhstate_calculate(a, b, t.p, l); CHECKK("length", e == NOISE_ERROR_INVALID_LENGTH && t.all(0xA5), "a shared key of %zu bytes: %s", l, lb::err(e).c_str()); }
}
static const char *opn[] = {"keypair1", "keypair2", "mismatch", "mismatch-bit", "private3", "public2", "public-null", "set-null", "generate", "clear", "copy-from-other", "set-role", "copy-from-other-algorithm", "self-copy", "wrong-lengths", "generate-dependent"};
static const int NOPS = 16;
static void apply(NoiseDHState *t, NoiseDHState *o, K &m, const K &mo, NoiseDHState *alien, int dh, int c, int serial) {
    size_t n = rc::dhlen(dh); int e; bytes k1 = privkey(dh, 0), k2 = privkey(dh, 1), k3 = privkey(dh, 2), p1 = rc::dh_public(dh, k1), p2 = rc::dh_public(dh, k2); op();
    auto pair = [&](const bytes &a, const bytes &b) { Block x(a), y(b); int r = noise_dhstate_set_keypair(t, x.p, x.n, y.p, y.n); CHECK(x.get() == a && y.get() == b, "inputs changed"); return r; };
    switch (c) {
    case 0: e = pair(k1, p1); CHECK(e == 0, "set_keypair: %s", lb::err(e).c_str()); m = {2, k1, p1}; break;
    case 1: e = pair(k2, p2); CHECK(e == 0, "set_keypair: %s", lb::err(e).c_str()); m = {2, k2, p2}; break;
    case 2: e = pair(k1, p2); CHECKK("mismatch accepted", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "a mismatched keypair: %s", lb::err(e).c_str()); m = K(); break;
    case 3: { bytes q = p1; q[(serial * 37) % n] ^= 1 << (serial * 3 % 8); e = pair(k1, q); CHECKK("mismatch accepted", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "a mismatched keypair: %s", lb::err(e).c_str()); m = K(); break; }
    case 4: { Block x(k3); e = noise_dhstate_set_keypair_private(t, x.p, n); CHECK(e == 0, "set_keypair_private: %s", lb::err(e).c_str()); m = {2, k3, rc::dh_public(dh, k3)}; break; }
    case 5: { Block x(p2); e = noise_dhstate_set_public_key(t, x.p, n); CHECK(e == 0, "set_public_key: %s", lb::err(e).c_str()); m = {1, bytes(), p2}; break; }
    case 6: { Block x(bytes(n, 0)); e = noise_dhstate_set_public_key(t, x.p, n); CHECK(e == 0, "a null public key: %s", lb::err(e).c_str()); m = {1, bytes(), bytes(n, 0)}; break; }
    case 7: e = noise_dhstate_set_null_public_key(t); CHECK(e == 0, "set_null_public_key: %s", lb::err(e).c_str()); m = {1, bytes(), bytes(n, 0)}; break;
    case 8: case 15: {
        rng::reset(1000 + serial * 16 + c); bytes before = m.priv; e = c == 8 ? noise_dhstate_generate_keypair(t) : noise_dhstate_generate_dependent_keypair(t, o); CHECK(e == 0, "generating: %s", lb::err(e).c_str());
        Block a(n), b(n); e = noise_dhstate_get_keypair(t, a.p, n, b.p, n); CHECK(e == 0, "no keypair after generating: %s", lb::err(e).c_str()); m = {2, a.get(), b.get()}; CHECKK("generated", m.pub == rc::dh_public(dh, m.priv), "the generated public key does not belong to the private key"); CHECKK("generated new", m.priv != before && m.priv != mo.priv && m.priv != bytes(n, 0), "the generated key is not new"); break; }
    case 9: e = noise_dhstate_clear_key(t); CHECK(e == 0, "clear: %s", lb::err(e).c_str()); m = K(); break;
    case 10: e = noise_dhstate_copy(t, o); CHECK(e == 0, "copy: %s", lb::err(e).c_str()); m = mo; break;
    case 11: for (int r : {NOISE_ROLE_INITIATOR, 0, NOISE_ROLE_RESPONDER}) { e = noise_dhstate_set_role(t, r); CHECK(e == 0 && noise_dhstate_get_role(t) == r, "set_role: %s", lb::err(e).c_str()); } CHECK(noise_dhstate_set_role(t, NOISE_ROLE_INITIATOR + 77) == NOISE_ERROR_INVALID_PARAM && noise_dhstate_get_role(t) == NOISE_ROLE_RESPONDER, "a bad role"); break;
    case 12: { e = noise_dhstate_copy(t, alien); CHECK(e == NOISE_ERROR_NOT_APPLICABLE, "copying from another algorithm: %s", lb::err(e).c_str()); Block s(n); e = noise_dhstate_calculate(t, alien, s.p, n); CHECK(e == NOISE_ERROR_INVALID_PARAM && s.all(0xA5), "calculating with another algorithm: %s", lb::err(e).c_str()); e = noise_dhstate_generate_dependent_keypair(t, alien); CHECK(e == NOISE_ERROR_INVALID_PARAM, "depending on another algorithm: %s", lb::err(e).c_str()); break; }
    case 13: e = noise_dhstate_copy(t, t); CHECK(e == 0, "copying to itself: %s", lb::err(e).c_str()); break;
    default: for (size_t l : {(size_t)0, n - 1, n + 1, (size_t)(n == 32 ? 56 : 32)}) { Block x(l), y(n); int r[] = {noise_dhstate_set_keypair(t, x.p, l, y.p, n), noise_dhstate_set_keypair(t, y.p, n, x.p, l), noise_dhstate_set_keypair_private(t, x.p, l), noise_dhstate_set_public_key(t, x.p, l)}; for (int k = 0; k < 4; k++) CHECKK("length", r[k] == NOISE_ERROR_INVALID_LENGTH, "function %d with %zu bytes: %s", k, l, lb::err(r[k]).c_str()); }
    }
}
static void sequences() {
    int dh = flag("448") ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519; int depth = 1 + choose(g().thorough ? 4 : 3, "depth"); bool small = depth == 4 || (depth == 3 && dh == NOISE_DH_CURVE448 && !g().thorough);
    static const int few[] = {0, 2, 4, 5, 7, 8, 9, 10, 15, 14}; int w = small ? 2 * 10 : 2 * NOPS;
    int c0 = choose(w, "call"), c1 = depth > 1 ? choose(w, "call") : -1; shard();
    lb::DSt A, B_, X; int e = noise_dhstate_new_by_id(A.out(), dh); CHECK(e == 0, "new"); e = noise_dhstate_new_by_id(B_.out(), dh); CHECK(e == 0, "new"); noise_dhstate_new_by_id(X.out(), dh == NOISE_DH_CURVE448 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448);
    { bytes k = privkey(noise_dhstate_get_dh_id(X), 5); noise_dhstate_set_keypair_private(X, k.data(), k.size()); }
    K ma, mb; std::string tr;
    for (int d = 0; d < depth; d++) {
        int c = d == 0 ? c0 : d == 1 ? c1 : choose(w, "call"); bool onB = c & 1; c = small ? few[c / 2] : c / 2; tr += fmt("%s%s(%c)", d ? ", " : "", opn[c], onB ? 'B' : 'A'); note(tr);
        if (onB) apply(B_, A, mb, ma, X, dh, c, d); else apply(A, B_, ma, mb, X, dh, c, d);
    }
    observe(A, dh, ma, "of A after " + tr); observe(B_, dh, mb, "of B after " + tr);
    calc(A, ma, B_, mb, dh, "of A with B after " + tr); calc(B_, mb, A, ma, dh, "of B with A after " + tr); calc(A, ma, A, ma, dh, "of A with itself after " + tr);
    observe(A, dh, ma, "of A after calculating, " + tr); observe(B_, dh, mb, "of B after calculating, " + tr);
    state(mix(mix(dh, hash_bytes(ma.priv.data(), ma.priv.size(), ma.kind)), mix(hash_bytes(ma.pub.data(), ma.pub.size()), hash_bytes(mb.pub.data(), mb.pub.size(), mb.kind)))); distinct(hash_str(tr, dh)); outcome(fmt("model state %d,%d", ma.kind, mb.kind)); if (c0 == 4 && depth == 2) sample(tr);
}
// Private and public values at the edges, and single bits everywhere
static void values() {
    int dh = flag("448") ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519; size_t n = rc::dhlen(dh); int sl = choose(16, "slice"); shard();
    std::vector<bytes> privs, pubs; auto le = [&](uint8_t low, uint8_t fill, uint8_t top) { bytes b(n, fill); b[0] = low; b[n - 1] = top; return b; };
    for (size_t i = 0; i < n * 8; i++) { bytes b(n, 0); b[i / 8] |= 1 << (i % 8); privs.push_back(b); b = bytes(n, 0xff); b[i / 8] ^= 1 << (i % 8); privs.push_back(b); b = privkey(dh, 3); b[i / 8] ^= 1 << (i % 8); if (g().thorough || i % 8 == 0) privs.push_back(b); }
    privs.push_back(bytes(n, 0)); privs.push_back(bytes(n, 0xff)); privs.push_back(bytes(n, 0x55)); privs.push_back(bytes(n, 0xaa));
    bytes base(n, 0); base[0] = dh == NOISE_DH_CURVE448 ? 5 : 9; pubs.push_back(base); pubs.push_back(rc::dh_public(dh, privkey(dh, 1))); pubs.push_back(rc::dh_public(dh, bytes(n, 0xff)));
    if (dh == NOISE_DH_CURVE25519) { for (int x : {0xec, 0xed, 0xee, 0xef, 0xf0, 0xf6, 0xfe, 0xff}) { pubs.push_back(le(x, 0xff, 0x7f)); pubs.push_back(le(x, 0xff, 0xff)); } bytes q = base; q[31] |= 0x80; pubs.push_back(q); for (int x : {0, 1, 2, 3, 4}) { pubs.push_back(le(x, 0, 0)); pubs.push_back(le(x, 0, 0x80)); } }
    else { for (int x : {0, 1, 2, 3, 4, 6}) pubs.push_back(le(x, 0, 0)); for (int x : {0xfc, 0xfd, 0xfe, 0xff}) { bytes q(n, 0xff); q[0] = x; q[28] = 0xfe; pubs.push_back(q); } }
    for (size_t i = sl; i < n * 8; i += g().thorough ? 16 : 64) { bytes b(n, 0); b[i / 8] |= 1 << (i % 8); pubs.push_back(b); b = pubs[1]; b[i / 8] ^= 1 << (i % 8); pubs.push_back(b); }
    for (size_t i = sl; i < privs.size(); i += 16) {
        lb::DSt A, P; noise_dhstate_new_by_id(A.out(), dh); noise_dhstate_new_by_id(P.out(), dh); int e = noise_dhstate_set_keypair_private(A, privs[i].data(), n); CHECK(e == 0, "private key %s: %s", hex(privs[i]).c_str(), lb::err(e).c_str());
        K m{2, privs[i], rc::dh_public(dh, privs[i])}; observe(A, dh, m, "of " + hex(privs[i], 64)); e = noise_dhstate_set_keypair(P, m.priv.data(), n, m.pub.data(), n); CHECK(e == 0, "set_keypair: %s", lb::err(e).c_str());
        for (size_t j = 0; j < pubs.size(); j++) {
            if (!g().thorough && j > 2 && (i / 16 + j) % 8) continue;
            e = noise_dhstate_set_public_key(P, pubs[j].data(), n); if (e == NOISE_ERROR_INVALID_PUBLIC_KEY) { outcome("public key refused"); CHECK(rc::dh(dh, m.priv, pubs[j]) == bytes(n, 0) && pubs[j] != bytes(n, 0), "a good public key was refused: %s", hex(pubs[j]).c_str()); continue; } CHECK(e == 0, "set_public_key: %s", lb::err(e).c_str());
            Block s(n); e = noise_dhstate_calculate(A, P, s.p, n); op(); bytes want = rc::dh(dh, m.priv, pubs[j]); if (e == NOISE_ERROR_INVALID_PUBLIC_KEY && want == bytes(n, 0) && pubs[j] != bytes(n, 0)) { outcome("weak public key refused when used"); continue; }
            CHECKK("shared key value", e == 0 && s.get() == want, "private %s public %s: %s", hex(privs[i], 64).c_str(), hex(pubs[j], 64).c_str(), lb::err(e).c_str()); distinct(mix(hash_bytes(privs[i].data(), n), hash_bytes(pubs[j].data(), n)));
        }
    }
    outcome("key values");
}
// Every single-bit error in a keypair's public half is refused
static void mismatches() {
    int dh = flag("448") ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519; size_t n = rc::dhlen(dh); int had = choose(3, "before"); int sl = choose(8, "slice"); shard();
    bytes k = privkey(dh, 0), p = rc::dh_public(dh, k); lb::DSt A; noise_dhstate_new_by_id(A.out(), dh); lb::DSt O; noise_dhstate_new_by_id(O.out(), dh); noise_dhstate_set_public_key(O, p.data(), n);
    for (size_t i = sl; i < n * 8; i += 8) {
        if (had == 1) { bytes q = privkey(dh, 2); noise_dhstate_set_keypair_private(A, q.data(), n); } if (had == 2) noise_dhstate_set_public_key(A, p.data(), n);
        bytes q = p; q[i / 8] ^= 1 << (i % 8); int e = noise_dhstate_set_keypair(A, k.data(), n, q.data(), n); CHECKK("mismatch accepted", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "public key with bit %zu changed: %s", i, lb::err(e).c_str()); K m; observe(A, dh, m, fmt("after a mismatch in bit %zu", i)); calc(A, m, O, {1, bytes(), p}, dh, "after a mismatch"); calc(O, {1, bytes(), p}, A, m, dh, "after a mismatch"); distinct(mix(dh, mix(had, i)));
    }
    outcome("mismatched keypairs");
}
// NewHope: anything may have happened to the objects before; the exchange works, both ends agree, and the keys are those of the reference
static const char *nn[] = {"none", "role initiator", "role responder", "role 0", "generate", "private 64", "private 32", "public (Alice's)", "public (Bob's)", "clear", "copy", "set_null", "null public key", "dependent"};
static const int NN = 14;
static bytes nh_seed(int i, size_t n) { return lb::secret('n', (char)('a' + i), n); }
static void nh_op(NoiseDHState *t, NoiseDHState *o, int c) {
    bytes ap = rn::nh_alice_public(nh_seed(0, 64)), bp, sh; rn::nh_bob(nh_seed(1, 32), ap, bp, sh); int e; op(); size_t pl = noise_dhstate_get_public_key_length(t), vl = noise_dhstate_get_private_key_length(t); bool had = noise_dhstate_has_keypair(t), hp = noise_dhstate_has_public_key(t);
    auto set = [&](const bytes &p) { Block x(p); e = noise_dhstate_set_public_key(t, x.p, x.n); if (x.n != pl) CHECK(e == NOISE_ERROR_INVALID_LENGTH, "a public key of %zu bytes: %s", x.n, lb::err(e).c_str()); else CHECK(e == 0 && noise_dhstate_has_public_key(t) && !noise_dhstate_has_keypair(t), "a public key of %zu bytes: %s", x.n, lb::err(e).c_str()); };
    auto priv = [&](const bytes &p) { Block x(p); e = noise_dhstate_set_keypair_private(t, x.p, x.n); if (x.n != vl) CHECK(e == NOISE_ERROR_INVALID_LENGTH, "a private key of %zu bytes: %s", x.n, lb::err(e).c_str()); else CHECK(e == 0 && noise_dhstate_has_keypair(t), "a private key of %zu bytes: %s", x.n, lb::err(e).c_str()); };
    switch (c) {
    case 0: break; case 1: noise_dhstate_set_role(t, NOISE_ROLE_INITIATOR); break; case 2: noise_dhstate_set_role(t, NOISE_ROLE_RESPONDER); break; case 3: noise_dhstate_set_role(t, 0); break;
    case 4: e = noise_dhstate_generate_keypair(t); if (noise_dhstate_get_role(t) == NOISE_ROLE_RESPONDER) CHECK(e != 0 && !!noise_dhstate_has_keypair(t) == had, "generating Bob's key alone: %s", lb::err(e).c_str()); else CHECK(e == 0 && noise_dhstate_has_keypair(t), "generate: %s", lb::err(e).c_str()); break;
    case 5: priv(nh_seed(2, 64)); break; case 6: priv(nh_seed(3, 32)); break; case 7: set(ap); break; case 8: set(bp); break;
    case 9: e = noise_dhstate_clear_key(t); CHECK(e == 0 && !noise_dhstate_has_keypair(t) && !noise_dhstate_has_public_key(t), "clear"); break;
    case 10: e = noise_dhstate_copy(t, o); CHECK(e == 0 && noise_dhstate_has_keypair(t) == noise_dhstate_has_keypair(o) && noise_dhstate_has_public_key(t) == noise_dhstate_has_public_key(o), "copy: %s", lb::err(e).c_str()); break;
    case 11: e = noise_dhstate_set_null_public_key(t); CHECK(e == NOISE_ERROR_INVALID_PARAM && !!noise_dhstate_has_keypair(t) == had && !!noise_dhstate_has_public_key(t) == hp, "a null NewHope key: %s", lb::err(e).c_str()); break;
    case 12: { Block z(bytes(pl, 0)); e = noise_dhstate_set_public_key(t, z.p, pl); CHECK(e == NOISE_ERROR_INVALID_PUBLIC_KEY && !!noise_dhstate_has_keypair(t) == had && !!noise_dhstate_has_public_key(t) == hp, "an all-zero NewHope key: %s", lb::err(e).c_str()); break; }
    default: if (noise_dhstate_get_role(t) == NOISE_ROLE_RESPONDER && noise_dhstate_has_public_key(o)) { e = noise_dhstate_generate_dependent_keypair(t, o); CHECK(e == 0 && noise_dhstate_has_keypair(t), "dependent keypair: %s", lb::err(e).c_str()); } else if (noise_dhstate_get_role(t) == NOISE_ROLE_RESPONDER) { e = noise_dhstate_generate_dependent_keypair(t, o); CHECK(e != 0, "dependent on no key: %s", lb::err(e).c_str()); }
    }
    CHECKK("is_null", !noise_dhstate_is_null_public_key(t) || noise_dhstate_has_public_key(t), "null without a key");
}
static void newhope() {
    int depth = g().thorough ? 3 : 2; std::vector<int> h; for (int d = 0; d < depth; d++) h.push_back(choose(NN * 2, "earlier call")); shard(); int how = choose(3, "exchange");
    std::string tr; for (int c : h) tr += fmt("%s(%c) ", nn[c / 2], c & 1 ? 'B' : 'A'); note(tr); rng::reset(hash_str(tr) & 0xffff);
    lb::DSt A, B_, RA, RB, CA; for (auto *x : {&A, &B_, &RA, &RB, &CA}) { int e = noise_dhstate_new_by_id(x->out(), NOISE_DH_NEWHOPE); CHECK(e == 0, "new"); }
    for (int c : h) nh_op(c & 1 ? B_ : A, c & 1 ? A : B_, c / 2);
    // the exchange, as the handshake does it
    noise_dhstate_set_role(A, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(RB, NOISE_ROLE_RESPONDER); noise_dhstate_set_role(B_, NOISE_ROLE_RESPONDER); noise_dhstate_set_role(RA, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(CA, NOISE_ROLE_INITIATOR);
    CHECK(noise_dhstate_get_public_key_length(A) == 1824 && noise_dhstate_get_public_key_length(B_) == 2048 && noise_dhstate_get_private_key_length(A) == 64 && noise_dhstate_get_private_key_length(B_) == 32 && noise_dhstate_get_shared_key_length(A) == 32, "NewHope lengths");
    int e; bytes seedA, seedB; Block ap(1824), bp(2048), pa(64), pb(32), s1(32), s2(32), s3(32);
    if (how == 0) e = noise_dhstate_generate_keypair(A); else { bytes s = nh_seed(7, 64); e = noise_dhstate_set_keypair_private(A, s.data(), 64); seedA = s; } CHECK(e == 0, "Alice's key: %s", lb::err(e).c_str());
    e = noise_dhstate_get_keypair(A, pa.p, 64, ap.p, 1824); CHECK(e == 0, "Alice's keypair: %s", lb::err(e).c_str()); if (seedA.empty()) seedA = pa.get(); CHECKK("NewHope keypair", pa.get() == seedA && ap.get() == rn::nh_alice_public(seedA), "Alice's keypair is not that of the reference after %s", tr.c_str());
    e = noise_dhstate_set_public_key(RA, ap.p, 1824); CHECK(e == 0, "Alice's public key: %s", lb::err(e).c_str());
    e = noise_dhstate_copy(CA, A); CHECK(e == 0, "copy: %s", lb::err(e).c_str());
    if (how < 2) { e = noise_dhstate_generate_dependent_keypair(B_, RA); CHECK(e == 0, "Bob's key: %s", lb::err(e).c_str()); } else { bytes s = nh_seed(8, 32); e = noise_dhstate_set_keypair_private(B_, s.data(), 32); CHECK(e == 0, "Bob's key: %s", lb::err(e).c_str()); }
    e = noise_dhstate_calculate(B_, RA, s2.p, 32); CHECK(e == 0, "Bob's shared secret: %s", lb::err(e).c_str()); e = noise_dhstate_get_keypair(B_, pb.p, 32, bp.p, 2048); CHECK(e == 0, "Bob's keypair: %s", lb::err(e).c_str());
    bytes wp, ws; rn::nh_bob(pb.get(), ap.get(), wp, ws); CHECKK("NewHope keypair", wp == bp.get(), "Bob's keypair is not that of the reference after %s", tr.c_str()); CHECKK("NewHope secret", s2.get() == ws, "Bob's shared secret is not that of the reference after %s", tr.c_str());
    e = noise_dhstate_set_public_key(RB, bp.p, 2048); CHECK(e == 0, "Bob's public key: %s", lb::err(e).c_str()); e = noise_dhstate_calculate(A, RB, s1.p, 32); CHECK(e == 0 && s1.get() == ws, "the two ends do not agree after %s", tr.c_str());
    e = noise_dhstate_calculate(CA, RB, s3.p, 32); CHECK(e == 0 && s3.get() == ws, "a copy of Alice's object does not agree after %s", tr.c_str());
    noise_dhstate_clear_key(A); e = noise_dhstate_calculate(CA, RB, s3.p, 32); CHECK(e == 0 && s3.get() == ws, "the copy changed with the original"); e = noise_dhstate_calculate(A, RB, s3.p, 32); CHECK(e == NOISE_ERROR_INVALID_PRIVATE_KEY, "a cleared key calculates: %s", lb::err(e).c_str()); e = noise_dhstate_calculate(CA, A, s3.p, 32); CHECK(e == NOISE_ERROR_INVALID_PUBLIC_KEY, "a cleared public key is used: %s", lb::err(e).c_str());
    fingerprint(RA, true, ap.get(), "of Alice's key"); fingerprint(RB, true, bp.get(), "of Bob's key"); fingerprint(A, false, bytes(), "of a cleared object"); CHECK(noise_dhstate_is_ephemeral_only(A) && !noise_dhstate_is_null_public_key(A), "NewHope is ephemeral only");
    outcome("NewHope exchanges"); distinct(hash_str(tr, how));
}
static void body() { switch (choose(4, "part")) { case 0: sequences(); break; case 1: values(); break; case 2: mismatches(); break; default: newhope(); } }
VH_MAIN2(body, rng::install)
