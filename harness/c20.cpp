// C20: SignState objects.  Every sequence of calls on two objects against a model whose keys and signatures come from libcrypto; every
// message length; every single-bit change of a signature, key or message; the other encodings of the same signature.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
struct K { int kind = 0; bytes priv, pub; };   // 0 none, 1 public, 2 pair
static bytes seed(int i) { return lb::secret('e', (char)('a' + i), 32); }
static K pairof(int i) { return K{2, seed(i), rc::ed_public(seed(i))}; }
static std::string fp(const bytes &pub, size_t n) { bytes h = rc::hash(NOISE_HASH_SHA256, pub); std::string s; for (size_t i = 0; i < n; i++) s += fmt("%s%02x", i ? ":" : "", h[i]); return s; }
// signing with a model key, remembered
static const bytes &sig_of(const bytes &priv, const bytes &m) { static std::map<std::pair<bytes, bytes>, bytes> c; if (c.size() > 5000) c.clear(); bytes &s = c[{priv, m}]; if (s.empty()) s = rc::ed_sign(priv, m); return s; }
static int verify(const NoiseSignState *s, const bytes &m, const bytes &sig) { Block a(m.empty() ? bytes(1, 0) : m), b(sig); op(); int e = noise_signstate_verify(s, a.p, m.size(), b.p, b.n); CHECK(a.get() == (m.empty() ? bytes(1, 0) : m) && b.get() == sig, "verifying changed its inputs"); return e; }
static void sign(NoiseSignState *s, const K &m, const bytes &msg, const std::string &w) {
    Block a(msg.empty() ? bytes(1, 0) : msg), o(64); op(); int e = noise_signstate_sign(s, a.p, msg.size(), o.p, 64); CHECK(a.get() == (msg.empty() ? bytes(1, 0) : msg), "signing changed the message");
    if (m.kind != 2) { CHECKK("signed without a private key", e == NOISE_ERROR_INVALID_PRIVATE_KEY && (o.all(0xA5) || o.all(0)), "signing without a private key %s: %s", w.c_str(), lb::err(e).c_str()); }
    else { CHECKK("signature", e == 0 && o.get() == sig_of(m.priv, msg), "the signature of %zu bytes %s is not the Ed25519 signature: %s", msg.size(), w.c_str(), lb::err(e).c_str()); }
}
static void observe(NoiseSignState *s, const K &m, const std::string &w) {
    op(); CHECKK("lengths", noise_signstate_get_sign_id(s) == NOISE_SIGN_ED25519 && noise_signstate_get_public_key_length(s) == 32 && noise_signstate_get_private_key_length(s) == 32 && noise_signstate_get_signature_length(s) == 64, "identifier or lengths %s", w.c_str());
    CHECKK("has_keypair", !!noise_signstate_has_keypair(s) == (m.kind == 2), "has_keypair is %d %s", noise_signstate_has_keypair(s), w.c_str());
    CHECKK("has_public_key", !!noise_signstate_has_public_key(s) == (m.kind != 0), "has_public_key is %d %s", noise_signstate_has_public_key(s), w.c_str());
    { Block a(32), b(32); int e = noise_signstate_get_keypair(s, a.p, 32, b.p, 32); if (m.kind == 2) CHECKK("keypair", e == 0 && a.get() == m.priv && b.get() == m.pub, "the keypair %s: %s", w.c_str(), lb::err(e).c_str()); else CHECKK("no keypair", e == NOISE_ERROR_INVALID_STATE && a.all(0) && b.all(0), "get_keypair without a keypair %s: %s", w.c_str(), lb::err(e).c_str()); }
    { Block a(32); int e = noise_signstate_get_public_key(s, a.p, 32); CHECKK("public key", m.kind ? e == 0 && a.get() == m.pub : e == NOISE_ERROR_INVALID_STATE && (a.all(0xA5) || a.all(0)), "the public key %s: %s", w.c_str(), lb::err(e).c_str()); }
    for (size_t l : {(size_t)31, (size_t)33, (size_t)0, (size_t)64}) { Block a(l), b(32); CHECKK("length", noise_signstate_get_public_key(s, a.p, l) == NOISE_ERROR_INVALID_LENGTH && noise_signstate_get_keypair(s, a.p, l, b.p, 32) == NOISE_ERROR_INVALID_LENGTH && noise_signstate_get_keypair(s, b.p, 32, a.p, l) == NOISE_ERROR_INVALID_LENGTH && a.all(0xA5) && b.all(0xA5), "a key of %zu bytes", l); }
    for (size_t l : {(size_t)63, (size_t)65, (size_t)0, (size_t)32}) { Block a(l), b(4); CHECKK("length", noise_signstate_sign(s, b.p, 4, a.p, l) == NOISE_ERROR_INVALID_LENGTH && a.all(0xA5) && noise_signstate_verify(s, b.p, 4, a.p, l) == NOISE_ERROR_INVALID_LENGTH, "a signature of %zu bytes", l); }
    for (int t = 0; t < 2; t++) { size_t n = t ? 96 : 48; Block b(n); int e = noise_signstate_format_fingerprint(s, t ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, (char *)b.p, n); if (m.kind) CHECKK("fingerprint", e == 0 && fp(m.pub, t ? 32 : 16) == (char *)b.p, "fingerprint %s: %s", w.c_str(), lb::err(e).c_str()); else CHECKK("fingerprint", e == NOISE_ERROR_INVALID_STATE && !b.p[0], "a fingerprint of no key %s: %s", w.c_str(), lb::err(e).c_str()); }
}
static const bytes M1 = B("the message"), M2 = B("another one"), M0;
// Which of the known signatures verify
static void verifies(NoiseSignState *s, const K &m, const std::vector<K> &signers, const std::string &w) {
    for (auto &k : signers) for (const bytes &msg : {M1, M0}) {
        const bytes &g = sig_of(k.priv, msg);
        for (const bytes &v : {msg, M2}) { int e = verify(s, v, g); if (!m.kind) CHECKK("verified without a key", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "verifying without a key %s: %s", w.c_str(), lb::err(e).c_str()); else if (k.pub == m.pub && v == msg) CHECKK("good signature refused", e == 0, "a good signature %s: %s", w.c_str(), lb::err(e).c_str()); else CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "a bad signature %s: %s", w.c_str(), lb::err(e).c_str()); }
    }
}
static const char *opn[] = {"keypair1", "keypair2", "mismatch", "mismatch-bit", "private3", "public2", "generate", "clear", "copy-from-other", "self-copy", "wrong-lengths", "sign", "verify"};
static const int NOPS = 13;
static void apply(NoiseSignState *t, NoiseSignState *o, K &m, const K &mo, int c, int serial) {
    int e; op(); K k1 = pairof(0), k2 = pairof(1), k3 = pairof(2);
    auto pair = [&](const bytes &a, const bytes &b) { Block x(a), y(b); int r = noise_signstate_set_keypair(t, x.p, 32, y.p, 32); CHECK(x.get() == a && y.get() == b, "inputs changed"); return r; };
    // a refused key leaves the object with the key it had, or with none: never with half of the new one
    auto refused = [&] { if (m.kind && !noise_signstate_has_public_key(t)) { outcome("a refused key clears the object"); m = K(); } };
    switch (c) {
    case 0: e = pair(k1.priv, k1.pub); CHECK(e == 0, "set_keypair: %s", lb::err(e).c_str()); m = k1; break;
    case 1: e = pair(k2.priv, k2.pub); CHECK(e == 0, "set_keypair: %s", lb::err(e).c_str()); m = k2; break;
    case 2: e = pair(k1.priv, k2.pub); CHECKK("mismatch accepted", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "a mismatched keypair: %s", lb::err(e).c_str()); refused(); break;
    case 3: { bytes q = k1.pub; q[serial * 13 % 32] ^= 1 << (serial * 3 % 8); e = pair(k1.priv, q); CHECKK("mismatch accepted", e == NOISE_ERROR_INVALID_PUBLIC_KEY, "a mismatched keypair: %s", lb::err(e).c_str()); refused(); break; }
    case 4: { Block x(k3.priv); e = noise_signstate_set_keypair_private(t, x.p, 32); CHECK(e == 0, "set_keypair_private: %s", lb::err(e).c_str()); m = k3; break; }
    case 5: { Block x(k2.pub); e = noise_signstate_set_public_key(t, x.p, 32); CHECK(e == 0, "set_public_key: %s", lb::err(e).c_str()); m = K{1, bytes(), k2.pub}; break; }
    case 6: { rng::reset(3000 + serial); bytes before = m.priv; e = noise_signstate_generate_keypair(t); CHECK(e == 0, "generate: %s", lb::err(e).c_str()); Block a(32), b(32); e = noise_signstate_get_keypair(t, a.p, 32, b.p, 32); CHECK(e == 0, "no keypair after generating: %s", lb::err(e).c_str()); m = K{2, a.get(), b.get()}; CHECKK("generated", m.pub == rc::ed_public(m.priv), "the generated public key does not belong to the private key"); CHECKK("generated new", m.priv != before && m.priv != mo.priv && m.priv != bytes(32, 0), "the generated key is not new"); break; }
    case 7: e = noise_signstate_clear_key(t); CHECK(e == 0, "clear: %s", lb::err(e).c_str()); m = K(); break;
    case 8: e = noise_signstate_copy(t, o); CHECK(e == 0, "copy: %s", lb::err(e).c_str()); m = mo; break;
    case 9: e = noise_signstate_copy(t, t); CHECK(e == 0, "copying to itself: %s", lb::err(e).c_str()); break;
    case 10: for (size_t l : {(size_t)0, (size_t)31, (size_t)33, (size_t)64}) { Block x(l), y(32); int r[] = {noise_signstate_set_keypair(t, x.p, l, y.p, 32), noise_signstate_set_keypair(t, y.p, 32, x.p, l), noise_signstate_set_keypair_private(t, x.p, l), noise_signstate_set_public_key(t, x.p, l)}; for (int k = 0; k < 4; k++) CHECKK("length", r[k] == NOISE_ERROR_INVALID_LENGTH, "function %d with %zu bytes: %s", k, l, lb::err(r[k]).c_str()); } break;
    case 11: sign(t, m, M2, "in the sequence"); break;
    default: { e = verify(t, M1, sig_of(k2.priv, M1)); CHECKK("verify in the sequence", e == (!m.kind ? NOISE_ERROR_INVALID_PUBLIC_KEY : m.pub == k2.pub ? 0 : NOISE_ERROR_INVALID_SIGNATURE), "verify: %s", lb::err(e).c_str()); }
    }
}
static void sequences() {
    int depth = 1 + choose(g().thorough ? 4 : 3, "depth"); bool small = depth == 4; static const int few[] = {0, 2, 4, 5, 6, 7, 8, 11}; int w = small ? 16 : 2 * NOPS;
    int c0 = choose(w, "call"), c1 = depth > 1 ? choose(w, "call") : -1; shard();
    lb::SSt A, B_; int e = noise_signstate_new_by_id(A.out(), NOISE_SIGN_ED25519); CHECK(e == 0, "new"); e = noise_signstate_new_by_id(B_.out(), NOISE_SIGN_ED25519); CHECK(e == 0, "new");
    K ma, mb; std::string tr;
    for (int d = 0; d < depth; d++) { int c = d == 0 ? c0 : d == 1 ? c1 : choose(w, "call"); bool onB = c & 1; c = small ? few[c / 2] : c / 2; tr += fmt("%s%s(%c)", d ? ", " : "", opn[c], onB ? 'B' : 'A'); note(tr); if (onB) apply(B_, A, mb, ma, c, d); else apply(A, B_, ma, mb, c, d); }
    std::vector<K> signers = {pairof(1)}; if (ma.kind == 2) signers.push_back(ma); if (mb.kind == 2 && depth < 3) signers.push_back(mb);
    observe(A, ma, "of A after " + tr); observe(B_, mb, "of B after " + tr); sign(A, ma, M1, "by A after " + tr); sign(B_, mb, M0, "by B after " + tr); verifies(A, ma, signers, "by A after " + tr); if (depth < 3) verifies(B_, mb, signers, "by B after " + tr); observe(A, ma, "of A after use, " + tr); observe(B_, mb, "of B after use, " + tr);
    state(mix(hash_bytes(ma.pub.data(), ma.pub.size(), ma.kind), hash_bytes(mb.pub.data(), mb.pub.size(), mb.kind))); distinct(hash_str(tr)); outcome(fmt("model state %d,%d", ma.kind, mb.kind)); if (c0 == 8 && depth == 2) sample(tr);
}
// Every message length, and messages that the signature does not depend on by accident
static void lengths() {
    int sl = choose(32, "slice"); shard(); K k = pairof(3); lb::SSt A, P; noise_signstate_new_by_id(A.out(), NOISE_SIGN_ED25519); noise_signstate_new_by_id(P.out(), NOISE_SIGN_ED25519); noise_signstate_set_keypair_private(A, k.priv.data(), 32); noise_signstate_set_public_key(P, k.pub.data(), 32);
    size_t top = g().thorough ? 5000 : 1100; std::vector<size_t> ls; for (size_t n = sl; n <= top; n += 32) ls.push_back(n); if (sl == 1) ls.push_back(65535); if (sl == 2) ls.push_back(65536); if (sl == 3) ls.push_back(300000);
    for (size_t n : ls) { bytes m = pattern(n, n, 7); sign(A, k, m, "at this length"); const bytes s = rc::ed_sign(k.priv, m); int e = verify(P, m, s); CHECKK("good signature refused", e == 0, "a good signature of %zu bytes: %s", n, lb::err(e).c_str()); bytes q = m; q.push_back(0); e = verify(P, q, s); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "a longer message verifies: %zu", n); if (n) { e = verify(P, m.substr(0, n - 1), s); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "a shorter message verifies: %zu", n); q = m; q[n - 1] ^= 0x80; e = verify(P, q, s); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "the last bit does not count: %zu", n); q = m; q[0] ^= 1; e = verify(P, q, s); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "the first bit does not count: %zu", n); q = m; q[n / 2] ^= 0x10; e = verify(P, q, s); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "the middle does not count: %zu", n); } distinct(mix(1, n)); }
    outcome("message lengths");
}
// Every single-bit change of signature, public key and message
static void flips() {
    static const size_t ml[] = {0, 1, 32, 33, 130}; int what = choose(3, "what"), mi = choose(5, "message"), ki = choose(g().thorough ? 4 : 2, "key"), sl = choose(8, "slice"); size_t n = ml[mi]; shard();
    K k = pairof(ki); bytes m = pattern(n, 5 + ki, 3), s = sig_of(k.priv, m); lb::SSt P; noise_signstate_new_by_id(P.out(), NOISE_SIGN_ED25519); noise_signstate_set_public_key(P, k.pub.data(), 32); CHECKK("good signature refused", verify(P, m, s) == 0, "a good signature is refused");
    size_t bits = 8 * (what == 0 ? 64 : what == 1 ? 32 : n); if (!bits) skip();
    for (size_t i = sl; i < bits; i += 8) {
        bytes mm = m, ss = s, pp = k.pub; (what == 0 ? ss : what == 1 ? pp : mm)[i / 8] ^= 1 << (i % 8); int e;
        if (what == 1) { e = noise_signstate_set_public_key(P, pp.data(), 32); if (e == NOISE_ERROR_INVALID_PUBLIC_KEY) { outcome("public key refused"); continue; } CHECK(e == 0, "set_public_key: %s", lb::err(e).c_str()); }
        e = verify(P, mm, ss); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE || (what == 1 && e == NOISE_ERROR_INVALID_PUBLIC_KEY), "bit %zu of the %s changed: %s", i, what == 0 ? "signature" : what == 1 ? "public key" : "message", lb::err(e).c_str()); distinct(mix(mix(what, mi), mix(ki, i)));
    }
    if (what == 2) CHECK(noise_signstate_set_public_key(P, k.pub.data(), 32) == 0 && verify(P, m, s) == 0, "the good signature is refused after bad ones");
    outcome(what == 0 ? "signature bits" : what == 1 ? "public key bits" : "message bits");
}
// Signatures that differ by a multiple of the group order, and other encodings of R: none but the signature itself verifies
static void encodings() {
    int ki = choose(4, "key"), mi = choose(4, "message"); shard(); static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
    K k = pairof(ki); bytes m = pattern(mi * 40, 9, 5), s = sig_of(k.priv, m); lb::SSt P; noise_signstate_new_by_id(P.out(), NOISE_SIGN_ED25519); noise_signstate_set_public_key(P, k.pub.data(), 32);
    bytes t = s; for (int mult = 1; mult <= 15; mult++) { int carry = 0; for (int i = 0; i < 32; i++) { int v = t[32 + i] + L[i] + carry; t[32 + i] = (uint8_t)v; carry = v >> 8; } if (carry) break; int e = verify(P, m, t); CHECKK("altered signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "the signature with %d times the group order added to S: %s", mult, lb::err(e).c_str()); distinct(mix(mix(ki, mi), mult)); }
    t = s; { int carry = 0; for (int i = 0; i < 32; i++) { int v = L[i] - s[32 + i] - carry; carry = v < 0; t[32 + i] = (uint8_t)v; } } CHECKK("altered signature accepted", verify(P, m, t) == NOISE_ERROR_INVALID_SIGNATURE, "S replaced by -S");
    for (int i = 0; i < 8; i++) { t = s; t[63] |= 0x20 << (i % 3); if (i > 3) t[31] ^= 0x80; if (t != s) CHECKK("altered signature accepted", verify(P, m, t) == NOISE_ERROR_INVALID_SIGNATURE, "high bits set"); }
    for (const bytes &r : {bytes(32, 0), bytes(32, 0xff), k.pub, B("\x01", 1) + bytes(31, 0)}) { t = r + s.substr(32); CHECKK("altered signature accepted", verify(P, m, t) == NOISE_ERROR_INVALID_SIGNATURE, "R replaced"); t = s.substr(0, 32) + r; CHECKK("altered signature accepted", verify(P, m, t) == NOISE_ERROR_INVALID_SIGNATURE, "S replaced"); t = r + bytes(32, 0); CHECKK("altered signature accepted", verify(P, m, t) == NOISE_ERROR_INVALID_SIGNATURE, "R replaced and S zero"); }
    outcome("encodings");
}
// Private key values: every single bit, edges; the public key and signature are those of the standard
static void values() {
    int sl = choose(32, "slice"); shard(); std::vector<bytes> ks; for (int i = 0; i < 256; i++) { bytes b(32, 0); b[i / 8] |= 1 << (i % 8); ks.push_back(b); b = bytes(32, 0xff); b[i / 8] ^= 1 << (i % 8); ks.push_back(b); } for (int x : {0, 0xff, 0x55, 0xaa, 0x80, 0x7f}) ks.push_back(bytes(32, x));
    lb::SSt A, P; noise_signstate_new_by_id(A.out(), NOISE_SIGN_ED25519); noise_signstate_new_by_id(P.out(), NOISE_SIGN_ED25519);
    for (size_t i = sl; i < ks.size(); i += 32) {
        K m{2, ks[i], rc::ed_public(ks[i])}; int e = noise_signstate_set_keypair_private(A, ks[i].data(), 32); CHECK(e == 0, "private key: %s", lb::err(e).c_str()); observe(A, m, "of " + hex(ks[i])); sign(A, m, M1, "of " + hex(ks[i])); e = noise_signstate_set_keypair(P, m.priv.data(), 32, m.pub.data(), 32); CHECK(e == 0, "keypair: %s", lb::err(e).c_str()); verifies(P, m, {m, pairof(1)}, "by " + hex(ks[i]));
        for (int b = g().thorough ? 0 : (int)(i % 8); b < 256; b += g().thorough ? 1 : 8) { bytes q = m.pub; q[b / 8] ^= 1 << (b % 8); lb::SSt X; noise_signstate_new_by_id(X.out(), NOISE_SIGN_ED25519); e = noise_signstate_set_keypair(X, m.priv.data(), 32, q.data(), 32); CHECKK("mismatch accepted", e == NOISE_ERROR_INVALID_PUBLIC_KEY && !noise_signstate_has_public_key(X), "public key with bit %d changed: %s", b, lb::err(e).c_str()); }
        distinct(mix(7, hash_bytes(ks[i].data(), 32)));
    }
    outcome("key values");
}
// The message and the signature anywhere in memory: next to each other in either order, a gap between them, at every alignment
static void layouts() {
    static const size_t ml[] = {0, 1, 7, 31, 32, 63, 64, 65, 127, 128, 200, 1000}; size_t n = pick(ml, "length"); int off = choose(16, "offset"), gap = choose(4, "gap"); bool first = flag("signature first"); shard(); static const int gaps[] = {0, 1, 3, 8}; size_t gp = gaps[gap];
    K k = pairof(4); bytes m = pattern(n, 9 + off, 3), s = sig_of(k.priv, m); lb::SSt A; noise_signstate_new_by_id(A.out(), NOISE_SIGN_ED25519); noise_signstate_set_keypair_private(A, k.priv.data(), 32);
    Block b(off + n + gp + 64, 0x3c); uint8_t *sp = first ? b.p + off : b.p + off + n + gp, *mp = first ? sp + 64 + gp : b.p + off; if (n) memcpy(mp, m.data(), n); bytes before = b.get();
    int e = noise_signstate_sign(A, mp, n, sp, 64); op(); CHECKK("signature", e == 0 && B(sp, 64) == s, "the signature of %zu bytes at offset %d, %zu bytes %s the message: %s", n, off, gp, first ? "before" : "after", lb::err(e).c_str());
    memcpy(&before[sp - b.p], s.data(), 64); CHECK(b.get() == before, "signing changed other bytes");
    e = noise_signstate_verify(A, mp, n, sp, 64); op(); CHECKK("good signature refused", e == 0 && b.get() == before, "a good signature of %zu bytes at offset %d, %zu bytes %s the message: %s", n, off, gp, first ? "before" : "after", lb::err(e).c_str());
    for (size_t i = 0; i < 64 + n; i += i < 64 ? 1 : 1 + n / 20) { uint8_t *q = i < 64 ? sp + i : mp + i - 64; *q ^= 1 << (i + off) % 8; e = noise_signstate_verify(A, mp, n, sp, 64); op(); CHECKK("bad signature accepted", e == NOISE_ERROR_INVALID_SIGNATURE, "byte %zu changed, offset %d, %zu bytes %s the message: %s", i, off, gp, first ? "before" : "after", lb::err(e).c_str()); *q ^= 1 << (i + off) % 8; }
    distinct(mix(9, mix(n * 16 + off, gap * 2 + first))); outcome("layouts in memory");
}
static void body() { switch (choose(6, "part")) { case 5: layouts(); break; case 0: sequences(); break; case 1: lengths(); break; case 2: flips(); break; case 3: encodings(); break; default: values(); } }
VH_MAIN2(body, rng::install)
