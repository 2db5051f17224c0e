// C23: the same calls in every build.  Each execution records what the library returned; the driver (lib/xconf.py) runs the same tree of
// executions in every build and compares the records.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
static uint64_t H; static FILE *logf_;
static void ev(const std::string &what, int code) { H = mix(hash_str(what, H), (uint64_t)(int64_t)code); tracef("%s: %s", what.c_str(), code > 255 ? lb::err(code).c_str() : fmt("%d", code).c_str()); op(); }
static void ev(const std::string &what, const bytes &b) { H = hash_bytes(b.data(), b.size(), hash_str(what, H)); tracef("%s: %s", what.c_str(), hex(b, 200).c_str()); }
static void ev(const std::string &what, const char *s) { ev(what, B(s ? s : "(null)")); }
static bytes secretn(int i, size_t n) { return lb::secret('z', (char)('a' + i), n); }
// All handshakes
static void handshakes() {
    static const auto P = lb::all_protos(); const auto &p = P[choose((int)P.size(), "protocol")]; int shape = choose(g().thorough ? 4 : 1, "shape"); shard();
    lb::Pair m = lb::model_pair(p, shape & 1 ? bytes() : B("prologue"), shape); lb::HSt a, b; ev("new", lb::create(a, p, true, shape < 2)); ev("new", lb::create(b, p, false, shape < 2)); ev("configure", lb::configure(a, m.i, true)); ev("configure", lb::configure(b, m.r, true)); ev("start", noise_handshakestate_start(a)); ev("start", noise_handshakestate_start(b));
    for (int k = 0; k < 8; k++) { int act = noise_handshakestate_get_action(a); ev("action", act); ev("action", noise_handshakestate_get_action(b)); if (act != NOISE_ACTION_WRITE_MESSAGE && act != NOISE_ACTION_READ_MESSAGE) break; NoiseHandshakeState *s = act == NOISE_ACTION_WRITE_MESSAGE ? a : b, *r = act == NOISE_ACTION_WRITE_MESSAGE ? b : a; bytes msg, pl; ev("write", lb::write(s, pattern(shape == 2 ? 0 : 10 + 33 * k + shape), msg, 6000)); ev("message", msg); ev("read", lb::read(r, msg, pl, 6000)); ev("payload", pl); }
    bytes hh; ev("hash", lb::hs_hash(a, p.hash, hh)); ev("hash", hh); ev("hash", lb::hs_hash(b, p.hash, hh)); ev("hash", hh);
    NoiseCipherState *x = 0, *y = 0, *z = 0, *w = 0; ev("split", noise_handshakestate_split(a, &x, &y)); ev("split", noise_handshakestate_split(b, &z, &w)); lb::CSt c1, c2, c3, c4; c1.p = x; c2.p = y; c3.p = z; c4.p = w;
    for (int k = 0; k < 2; k++) { bytes ct, pt; ev("encrypt", x ? lb::encrypt(x, pattern(20 + k), ct) : 0); ev("transport", ct); ev("decrypt", w ? lb::decrypt(w, ct, pt) : 0); ev("plaintext", pt); ev("encrypt", z ? lb::encrypt(z, pattern(30 + k), ct) : 0); ev("transport", ct); ev("decrypt", y ? lb::decrypt(y, ct, pt) : 0); ev("plaintext", pt); }
    outcome("handshakes"); distinct(hash_str(p.name(), shape));
}
// Sequences of right and wrong calls on two handshake objects
static void misuse() {
    static const struct { int pat, psk, dh, hy, c, h; } Q[] = {{NOISE_PATTERN_XX, 0, NOISE_DH_CURVE25519, 0, NOISE_CIPHER_AESGCM, NOISE_HASH_SHA256}, {NOISE_PATTERN_IK, 0, NOISE_DH_CURVE25519, 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2b}, {NOISE_PATTERN_NN, 1, NOISE_DH_CURVE448, 0, NOISE_CIPHER_AESGCM, NOISE_HASH_SHA512}, {NOISE_PATTERN_N, 0, NOISE_DH_CURVE25519, 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2s}, {NOISE_PATTERN_NN_HFS, 0, NOISE_DH_CURVE25519, NOISE_DH_NEWHOPE, NOISE_CIPHER_AESGCM, NOISE_HASH_BLAKE2s}};
    auto &q = Q[choose(5, "protocol")]; int depth = g().thorough ? 4 : 3; const int N = 13; int c0 = choose(2 * N, "call"), c1 = choose(2 * N, "call"); shard(); rn::Proto p; p.pattern = q.pat; p.psk = q.psk; p.dh = q.dh; p.hybrid = q.hy; p.cipher = q.c; p.hash = q.h;
    lb::Pair m = lb::model_pair(p, B("misuse"), 3); lb::HSt h[2]; ev("new", lb::create(h[0], p, true)); ev("new", lb::create(h[1], p, false)); ev("configure", lb::configure(h[0], m.i, true)); ev("configure", lb::configure(h[1], m.r, true)); int pre = choose(2, "started"); if (pre) { ev("start", noise_handshakestate_start(h[0])); ev("start", noise_handshakestate_start(h[1])); }
    bytes last; std::string tr;
    auto call = [&](int c, const char *who) {
        NoiseHandshakeState *s = h[c & 1]; bytes o; std::string w = fmt("%s %c ", who, c & 1 ? 'B' : 'A');
        switch (c / 2) {
        case 0: ev(w + "write", lb::write(s, B("payload"), o, 5000)); ev(w + "message", o); if (o.size()) last = o; break;
        case 1: ev(w + "write small", lb::write(s, B("payload"), o, 20)); break;
        case 2: ev(w + "read", lb::read(s, last, o, 5000)); ev(w + "payload", o); break;
        case 3: ev(w + "read garbage", lb::read(s, pattern(60, 9), o, 5000)); ev(w + "payload", o); break;
        case 4: { bytes t = last; if (t.size()) t.pop_back(); ev(w + "read truncated", lb::read(s, t, o, 5000)); break; }
        case 5: { NoiseCipherState *x = 0, *y = 0; ev(w + "split", noise_handshakestate_split(s, &x, &y)); if (x) { bytes ct; ev(w + "encrypt", lb::encrypt(x, B("data"), ct)); ev(w + "ciphertext", ct); noise_cipherstate_free(x); } if (y) noise_cipherstate_free(y); break; }
        case 6: ev(w + "start", noise_handshakestate_start(s)); break;
        case 7: ev(w + "fallback", noise_handshakestate_fallback(s)); break;
        case 8: { bytes k = lb::psk_of(9); ev(w + "set psk", noise_handshakestate_set_pre_shared_key(s, k.data(), 32)); break; }
        case 9: ev(w + "hash", lb::hs_hash(s, p.hash, o)); ev(w + "hash", o); break;
        case 10: ev(w + "set prologue", noise_handshakestate_set_prologue(s, "x", 1)); break;
        case 11: { NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(s); ev(w + "has local key", d ? noise_dhstate_has_keypair(d) : -1); d = noise_handshakestate_get_remote_public_key_dh(s); Block b(32); ev(w + "remote key", d ? noise_dhstate_get_public_key(d, b.p, noise_dhstate_get_public_key_length(d) == 32 ? 32 : 0) : -1); ev(w + "remote key", b.get()); break; }
        default: ev(w + "needs", noise_handshakestate_needs_local_keypair(s) * 8 + noise_handshakestate_has_local_keypair(s) * 4 + noise_handshakestate_needs_remote_public_key(s) * 2 + noise_handshakestate_has_remote_public_key(s)); ev(w + "psk", noise_handshakestate_needs_pre_shared_key(s) * 2 + noise_handshakestate_has_pre_shared_key(s)); }
        ev(w + "action", noise_handshakestate_get_action(s));
    };
    for (int d = 0; d < depth; d++) { int c = d == 0 ? c0 : d == 1 ? c1 : choose(2 * N, "call"); tr += fmt("%d ", c); call(c, "call"); }
    for (int k = 0; k < 4; k++) { call(k & 1, "then"); call(4 + !(k & 1), "then"); } call(10, "then"); call(11, "then"); outcome("handshake misuse"); distinct(hash_str(tr, q.pat * 2 + pre));
}
// Ciphers
static const int CI[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM};
static void aead() {
    int ci = CI[choose(2, "cipher")]; size_t n = choose(g().thorough ? 600 : 160, "length"); shard(); static const uint64_t N[] = {0, 1, 0xffffffffull, 0x100000000ull, 0x123456789abcdefull, 0xfffffffffffffffeull};
    lb::CSt a, b; ev("new", noise_cipherstate_new_by_id(a.out(), ci)); noise_cipherstate_new_by_id(b.out(), ci); bytes k = secretn(1, 32);
    for (uint64_t nn : N) for (size_t al : {0, 1, 15, 16, 17, 32, 65, 256, 4096, 65535, 65536, 70001}) { if (al > 65 && (n % 53 || (nn && nn != 0x100000000ull))) continue; bytes ad = pattern(al, 3), ct, pt; noise_cipherstate_init_key(a, k.data(), 32); noise_cipherstate_init_key(b, k.data(), 32); ev("nonce", noise_cipherstate_set_nonce(a, nn)); ev("nonce", noise_cipherstate_set_nonce(b, nn)); ev("encrypt", lb::encrypt(a, pattern(n, 7), ct, &ad)); ev("ciphertext", ct); bytes bad = ct; if (bad.size()) bad[n / 2] ^= 4; ev("decrypt altered", lb::decrypt(b, bad, pt, &ad)); ev("decrypt", lb::decrypt(b, ct, pt, &ad)); ev("plaintext", pt); ev("encrypt", lb::encrypt(a, pattern(n, 7), ct, &ad)); ev("ciphertext", ct); }
    outcome("AEAD grid"); distinct(mix(ci, n));
}
static void cipherseq() {
    int ci = CI[choose(2, "cipher")]; int depth = g().thorough ? 4 : 3; const int N = 20; int c0 = choose(N, "call"); shard(); lb::CSt a, b; noise_cipherstate_new_by_id(a.out(), ci); noise_cipherstate_new_by_id(b.out(), ci); bytes k = secretn(2, 32), k2 = secretn(3, 32), good; std::string tr; bytes bk = k; noise_cipherstate_init_key(b, k.data(), 32); lb::encrypt(b, B("from the other side"), good);
    auto enc = [&](size_t n, size_t room, bool ad) { Block buf(n + room); for (size_t i = 0; i < n; i++) buf.p[i] = (uint8_t)i; NoiseBuffer nb; noise_buffer_set_inout(nb, buf.p, n, n + room); int e = ad ? noise_cipherstate_encrypt_with_ad(a, (const uint8_t *)"ad", 2, &nb) : noise_cipherstate_encrypt(a, &nb); ev(fmt("encrypt %zu+%zu", n, room), e); ev("size", (int)nb.size); if (!e) ev("ciphertext", B(nb.data, nb.size)); };
    auto dec = [&](const bytes &ct, const char *w) { Block buf(ct); NoiseBuffer nb; noise_buffer_set_input(nb, buf.p, buf.n); int e = noise_cipherstate_decrypt(a, &nb); ev(w, e); if (!e) ev("plaintext", B(nb.data, nb.size)); };
    for (int d = 0; d < depth; d++) {
        int c = d ? choose(N, "call") : c0; tr += fmt("%d ", c);
        switch (c) {
        case 0: ev("init", noise_cipherstate_init_key(a, k.data(), 32)); break; case 1: ev("init", noise_cipherstate_init_key(a, k2.data(), 32)); break; case 2: ev("init short", noise_cipherstate_init_key(a, k.data(), 31)); break; case 3: ev("init long", noise_cipherstate_init_key(a, (k + k2).data(), 33)); break;
        case 4: case 5: case 6: case 7: { uint64_t n[] = {0, 5, ~1ull, ~0ull}; ev("set nonce", noise_cipherstate_set_nonce(a, n[c - 4])); break; }
        case 8: enc(0, 16, false); break; case 9: enc(40, 16, true); break; case 10: enc(40, 15, false); break; case 11: enc(65519, 16, false); break; case 12: enc(65520, 20, false); break; case 13: enc(100, 500, false); break;
        case 14: dec(good, "decrypt good"); break; case 15: { bytes x = good; x[3] ^= 1; dec(x, "decrypt bad"); break; } case 16: dec(pattern(15), "decrypt 15"); break; case 17: dec(pattern(65536), "decrypt 65536"); break; case 18: dec(bytes(16, 0), "decrypt 16"); break;
        default: ev("state", noise_cipherstate_get_cipher_id(a)); ev("key", noise_cipherstate_has_key(a)); ev("lengths", (int)(noise_cipherstate_get_key_length(a) * 100 + noise_cipherstate_get_mac_length(a))); }
    }
    enc(20, 16, true); dec(good, "decrypt good"); ev("key", noise_cipherstate_has_key(a)); outcome("cipher sequences"); distinct(hash_str(tr, ci));
}
// Hashes
static const int HS[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
static void hashes() {
    int hi = HS[choose(4, "hash")]; static const int BIG[] = {4096, 65535, 65536, 70001, 1 << 20}; int top = g().thorough ? 1500 : 300, n = choose(top + 5, "length"); if (n >= top) n = BIG[n - top]; shard(); size_t hl = rc::hashlen(hi); lb::HaSt h; ev("new", noise_hashstate_new_by_id(h.out(), hi)); bytes d = pattern(n, 5, 11); Block o(hl), o2(hl), o3(100);
    ev("hash", noise_hashstate_hash_one(h, d.data() ? d.data() : (const uint8_t *)"", n, o.p, hl)); ev("digest", o.get()); for (int sp : {0, 1, n / 2, n}) { if (sp > n) continue; noise_hashstate_reset(h); ev("update", noise_hashstate_update(h, d.substr(0, sp).c_str(), sp)); ev("update", noise_hashstate_update(h, d.substr(sp).c_str(), n - sp)); ev("finalize", noise_hashstate_finalize(h, o.p, hl)); ev("digest", o.get()); }
    ev("two", noise_hashstate_hash_two(h, d.c_str(), n, d.c_str(), n / 3, o.p, hl)); ev("digest", o.get()); ev("hkdf", noise_hashstate_hkdf(h, d.c_str(), n, d.c_str(), n / 2, o.p, hl, o2.p, hl)); ev("hkdf", o.get() + o2.get()); ev("pbkdf2", noise_hashstate_pbkdf2(h, d.c_str(), n, d.c_str(), n / 2, 2, o3.p, 100)); ev("pbkdf2", o3.get()); ev("short", noise_hashstate_hash_one(h, d.c_str(), n, o.p, hl - 1)); ev("long", noise_hashstate_hkdf(h, d.c_str(), n, d.c_str(), 1, o.p, hl + 1, o2.p, hl)); ev("final short", noise_hashstate_finalize(h, o.p, hl - 1)); ev("ids", noise_hashstate_get_hash_id(h)); ev("lengths", (int)(noise_hashstate_get_hash_length(h) * 1000 + noise_hashstate_get_block_length(h)));
    outcome("hash lengths"); distinct(mix(hi, n));
}
static void hashseq() {
    int hi = HS[choose(4, "hash")]; int depth = g().thorough ? 5 : 4; const int N = 8; int c0 = choose(N, "call"), c1 = choose(N, "call"); shard(); size_t hl = rc::hashlen(hi); lb::HaSt h; noise_hashstate_new_by_id(h.out(), hi); std::string tr; Block o(hl), o2(hl); noise_hashstate_reset(h);
    for (int d = 0; d < depth; d++) { int c = d == 0 ? c0 : d == 1 ? c1 : choose(N, "call"); tr += fmt("%d ", c); switch (c) { case 0: noise_hashstate_reset(h); break; case 1: case 2: case 3: { static const size_t L[] = {1, 63, 200}; bytes b = pattern(L[c - 1], (uint8_t)d); ev("update", noise_hashstate_update(h, b.data(), b.size())); break; } case 4: { static int fin; fin = noise_hashstate_finalize(h, o.p, hl); ev("finalize", fin); ev("digest", o.get()); noise_hashstate_reset(h); break; } case 5: ev("one", noise_hashstate_hash_one(h, (const uint8_t *)"abc", 3, o.p, hl)); ev("digest", o.get()); noise_hashstate_reset(h); break; case 6: ev("hkdf", noise_hashstate_hkdf(h, (const uint8_t *)"key", 3, (const uint8_t *)"data", 4, o.p, hl, o2.p, 10)); ev("hkdf", o.get() + o2.get().substr(0, 10)); noise_hashstate_reset(h); break; default: ev("short", noise_hashstate_finalize(h, o.p, 5)); } }
    ev("finalize", noise_hashstate_finalize(h, o.p, hl)); ev("digest", o.get()); outcome("hash sequences"); distinct(hash_str(tr, hi));
}
// Key objects
static void dhseq() {
    static const int ids[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}; int id = ids[choose(3, "dh")]; int depth = g().thorough ? 3 : 2; const int N = 16; int c0 = choose(2 * N, "call"), c1 = choose(2 * N, "call"); shard(); lb::DSt o[2]; for (auto &x : o) ev("new", noise_dhstate_new_by_id(x.out(), id)); std::string tr; rng::reset(77); lb::DSt alien; noise_dhstate_new_by_id(alien.out(), id == NOISE_DH_CURVE448 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448);
    if (id == NOISE_DH_NEWHOPE) { noise_dhstate_set_role(o[0], NOISE_ROLE_INITIATOR); noise_dhstate_set_role(o[1], NOISE_ROLE_RESPONDER); }
    bool random = false; auto show = [&](NoiseDHState *d) { size_t a = noise_dhstate_get_private_key_length(d), b = noise_dhstate_get_public_key_length(d); Block x(a), y(b); ev("flags", noise_dhstate_has_keypair(d) * 8 + noise_dhstate_has_public_key(d) * 4 + noise_dhstate_is_null_public_key(d) * 2 + noise_dhstate_is_ephemeral_only(d)); ev("lengths", (int)(a * 10000 + b)); ev("keypair", noise_dhstate_get_keypair(d, x.p, a, y.p, b)); if (!random) ev("keypair", x.get() + y.get()); ev("public", noise_dhstate_get_public_key(d, y.p, b)); if (!random) ev("public", y.get()); };
    for (int d = 0; d < depth; d++) {
        int c = d == 0 ? c0 : d == 1 ? c1 : choose(2 * N, "call"); tr += fmt("%d ", c); NoiseDHState *t = o[c & 1], *u = o[!(c & 1)]; size_t pl = noise_dhstate_get_private_key_length(t), ul = noise_dhstate_get_public_key_length(t); bytes k = secretn(d, pl), pub = id == NOISE_DH_NEWHOPE ? (ul == 1824 ? rn::nh_alice_public(secretn(5, 64)) : pattern(2048, 3)) : rc::dh_public(id, secretn(5, pl)); Block s(noise_dhstate_get_shared_key_length(t));
        switch (c / 2) {
        case 0: ev("set private", noise_dhstate_set_keypair_private(t, k.data(), pl)); break; case 1: if (id != NOISE_DH_NEWHOPE) { bytes p = rc::dh_public(id, k); ev("set keypair", noise_dhstate_set_keypair(t, k.data(), pl, p.data(), ul)); } break; case 2: if (id != NOISE_DH_NEWHOPE) { bytes p = rc::dh_public(id, k); p[3] ^= 2; ev("set bad keypair", noise_dhstate_set_keypair(t, k.data(), pl, p.data(), ul)); } break; case 3: ev("set public", noise_dhstate_set_public_key(t, pub.data(), ul)); break; case 4: ev("set zero public", noise_dhstate_set_public_key(t, bytes(ul, 0).c_str(), ul)); break; case 5: ev("set null", noise_dhstate_set_null_public_key(t)); break; case 6: ev("clear", noise_dhstate_clear_key(t)); break; case 7: ev("copy", noise_dhstate_copy(t, u)); break; case 8: ev("copy alien", noise_dhstate_copy(t, alien)); break; case 9: ev("calculate", noise_dhstate_calculate(t, u, s.p, s.n)); if (!random) ev("shared", s.get()); break; case 10: ev("calculate short", noise_dhstate_calculate(t, u, s.p, s.n - 1)); break; case 11: ev("calculate alien", noise_dhstate_calculate(t, alien, s.p, s.n)); break; case 12: ev("role", noise_dhstate_set_role(t, d & 1 ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR)); break; case 13: ev("short", noise_dhstate_set_keypair_private(t, k.data(), pl - 1)); ev("short", noise_dhstate_set_public_key(t, pub.data(), ul - 1)); break;
        case 14: { int e = noise_dhstate_generate_keypair(t); ev("generate", e); random = true; break; } default: ev("set one public", noise_dhstate_set_public_key(t, (bytes(1, 1) + bytes(ul - 1, 0)).c_str(), ul)); }
    }
    show(o[0]); show(o[1]); Block s(noise_dhstate_get_shared_key_length(o[0])); if (noise_dhstate_get_role(o[0]) != noise_dhstate_get_role(o[1]) || id != NOISE_DH_NEWHOPE) { ev("calculate", noise_dhstate_calculate(o[0], o[1], s.p, s.n)); if (!random) ev("shared", s.get()); } outcome("DH sequences"); distinct(hash_str(tr, id));
}
static void dhvalues() {
    int id = flag("448") ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519; size_t n = rc::dhlen(id); int bit = choose((int)n * 8, "bit"); shard(); lb::DSt a, b; noise_dhstate_new_by_id(a.out(), id); noise_dhstate_new_by_id(b.out(), id); bytes k(n, 0), q(n, 0xff), u = secretn(6, n); k[bit / 8] |= 1 << (bit % 8); q[bit / 8] ^= 1 << (bit % 8); u[bit / 8] ^= 1 << (bit % 8);
    for (const bytes &p : {k, q, u}) { Block o(n), x(n); ev("private", noise_dhstate_set_keypair_private(a, p.data(), n)); ev("public", noise_dhstate_get_public_key(a, o.p, n)); ev("public", o.get()); for (const bytes &r : {k, q, u, bytes(n, 0), bytes(1, 9) + bytes(n - 1, 0)}) { ev("set public", noise_dhstate_set_public_key(b, r.data(), n)); ev("calculate", noise_dhstate_calculate(a, b, x.p, n)); ev("shared", x.get()); } } outcome("DH values"); distinct(mix(id, bit));
}
static void signs() {
    int depth = g().thorough ? 4 : 3; const int N = 12; int c0 = choose(2 * N, "call"), c1 = choose(2 * N, "call"); shard(); lb::SSt o[2]; for (auto &x : o) ev("new", noise_signstate_new_by_id(x.out(), NOISE_SIGN_ED25519)); std::string tr; rng::reset(78); bool random = false; bytes k = secretn(7, 32), pub = rc::ed_public(k), sig = rc::ed_sign(k, B("msg"));
    for (int d = 0; d < depth; d++) {
        int c = d == 0 ? c0 : d == 1 ? c1 : choose(2 * N, "call"); tr += fmt("%d ", c); NoiseSignState *t = o[c & 1], *u = o[!(c & 1)]; Block s(64); bytes bad = sig, badp = pub; bad[40] ^= 1; badp[2] ^= 8;
        switch (c / 2) { case 0: ev("set private", noise_signstate_set_keypair_private(t, k.data(), 32)); break; case 1: ev("set keypair", noise_signstate_set_keypair(t, k.data(), 32, pub.data(), 32)); break; case 2: ev("set bad keypair", noise_signstate_set_keypair(t, k.data(), 32, badp.data(), 32)); break; case 3: ev("set public", noise_signstate_set_public_key(t, pub.data(), 32)); break; case 4: ev("set other public", noise_signstate_set_public_key(t, rc::ed_public(secretn(8, 32)).c_str(), 32)); break; case 5: ev("clear", noise_signstate_clear_key(t)); break; case 6: ev("copy", noise_signstate_copy(t, u)); break; case 7: ev("sign", noise_signstate_sign(t, (const uint8_t *)"msg", 3, s.p, 64)); if (!random) ev("signature", s.get()); break; case 8: ev("verify", noise_signstate_verify(t, (const uint8_t *)"msg", 3, sig.data(), 64)); break; case 9: ev("verify bad", noise_signstate_verify(t, (const uint8_t *)"msg", 3, bad.data(), 64)); break; case 10: ev("short", noise_signstate_sign(t, (const uint8_t *)"msg", 3, s.p, 63)); ev("short", noise_signstate_set_public_key(t, pub.data(), 31)); break; default: ev("generate", noise_signstate_generate_keypair(t)); random = true; }
    }
    for (auto &x : o) { Block a(32), b(32); ev("flags", noise_signstate_has_keypair(x) * 2 + noise_signstate_has_public_key(x)); ev("keypair", noise_signstate_get_keypair(x, a.p, 32, b.p, 32)); if (!random) ev("keypair", a.get() + b.get()); ev("verify", noise_signstate_verify(x, (const uint8_t *)"msg", 3, sig.data(), 64)); } outcome("signing sequences"); distinct(hash_str(tr));
}
static void sigvalues() {
    int bit = choose(256, "bit"); shard(); lb::SSt a, b; noise_signstate_new_by_id(a.out(), NOISE_SIGN_ED25519); noise_signstate_new_by_id(b.out(), NOISE_SIGN_ED25519); bytes k = secretn(9, 32); k[bit / 8] ^= 1 << (bit % 8); Block p(32), s(64), x(32); ev("private", noise_signstate_set_keypair_private(a, k.data(), 32)); ev("keypair", noise_signstate_get_keypair(a, x.p, 32, p.p, 32)); ev("public", p.get()); bytes m = pattern(bit * 3, 1); ev("sign", noise_signstate_sign(a, m.c_str(), m.size(), s.p, 64)); ev("signature", s.get()); ev("set public", noise_signstate_set_public_key(b, p.p, 32));
    for (int i = 0; i < 512; i += g().thorough ? 1 : 8) { int j = g().thorough ? i : i + bit % 8; s.p[j / 8] ^= 1 << (j % 8); ev(fmt("verify, bit %d changed", j), noise_signstate_verify(b, m.c_str(), m.size(), s.p, 64)); s.p[j / 8] ^= 1 << (j % 8); } ev("verify", noise_signstate_verify(b, m.c_str(), m.size(), s.p, 64));
    static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}; int carry = 0; for (int i = 0; i < 32; i++) { int v = s.p[32 + i] + L[i] + carry; s.p[32 + i] = (uint8_t)v; carry = v >> 8; } ev("verify, S plus the group order", noise_signstate_verify(b, m.c_str(), m.size(), s.p, 64)); outcome("signature values"); distinct(bit);
}
// What is supported, by identifier and by name
static void support() {
    int part = choose(6, "kind"); shard(); static const char K[] = "CHDSPN"; static const char *extra[] = {"", "AESGCM", "ChaChaPoly", "chachapoly", "AESGCM ", "SHA256", "SHA512", "BLAKE2s", "BLAKE2b", "SHA1", "25519", "448", "NewHope", "Ed25519", "XX", "NoisePSK", "Noise", "none"};
    for (int v = 0; v < 256; v++) {
        int id = NOISE_ID(K[part], v); std::string w = fmt("%c %d ", K[part], v);
        if (part == 0) { lb::CSt c; ev(w + "new", noise_cipherstate_new_by_id(c.out(), id)); if (c) ev(w, (int)noise_cipherstate_get_key_length(c)); } if (part == 1) { lb::HaSt c; ev(w + "new", noise_hashstate_new_by_id(c.out(), id)); if (c) ev(w, (int)noise_hashstate_get_hash_length(c)); } if (part == 2) { lb::DSt c; ev(w + "new", noise_dhstate_new_by_id(c.out(), id)); if (c) ev(w, (int)noise_dhstate_get_public_key_length(c)); } if (part == 3) { lb::SSt c; ev(w + "new", noise_signstate_new_by_id(c.out(), id)); if (c) ev(w, (int)noise_signstate_get_signature_length(c)); } ev(w + "name", noise_id_to_name(K[part] << 8, id)); if (part == 4) { char b[100] = {0}; ev(w + "strerror", noise_strerror(NOISE_ID('E', v), b, 100)); ev(w, b); }
    }
    for (auto n : extra) { lb::CSt c; lb::HaSt h; lb::DSt d; lb::SSt s; ev(n, noise_cipherstate_new_by_name(c.out(), n)); ev(n, noise_hashstate_new_by_name(h.out(), n)); ev(n, noise_dhstate_new_by_name(d.out(), n)); ev(n, noise_signstate_new_by_name(s.out(), n)); ev(n, noise_name_to_id(0, n, strlen(n))); }
    ev("maximum lengths", (int)(noise_cipherstate_get_max_key_length() + 100 * noise_cipherstate_get_max_mac_length())); ev("maximum lengths", (int)(noise_hashstate_get_max_hash_length() * 1000 + noise_hashstate_get_max_block_length())); ev("maximum lengths", (int)(noise_signstate_get_max_key_length() * 1000 + noise_signstate_get_max_signature_length())); outcome("supported algorithms"); distinct(part);
}
static void body() {
    H = 1; switch (choose(11, "part")) { case 0: handshakes(); break; case 1: misuse(); break; case 2: aead(); break; case 3: cipherseq(); break; case 4: hashes(); break; case 5: hashseq(); break; case 6: dhseq(); break; case 7: dhvalues(); break; case 8: signs(); break; case 9: sigvalues(); break; default: support(); }
    if (logf_) { fprintf(logf_, "%s %016llx\n", vec(g().choices).c_str(), (unsigned long long)H); }
}
static void setup() { rng::install(); std::string f = g().opts.count("log") ? g().opts["log"] : ""; if (!f.empty()) { logf_ = fopen(f.c_str(), "w"); setvbuf(logf_, 0, _IOLBF, 0); } }
VH_MAIN2(body, setup)
