// C12: every capacity and every input length of every call that takes a buffer.  All buffers are exact-size heap blocks
// watched by the address sanitizer; the bytes of the block that the call was not entitled to write must be untouched.
#include "certs.hpp"
#include "rng.hpp"
using namespace vh;
using rn::Proto;

static const uint8_t FILL = 0xA7;
struct Party { lb::HSt h; rn::HS m; };
// Runs an honest handshake up to message `upto`; returns the two parties.
static void advance(const Proto &p, Party &i, Party &r, int upto) {
    rng::reset(3);
    auto mp = lb::model_pair(p, B("c12")); i.m = mp.i; r.m = mp.r;
    int e = lb::create(i.h, p, true); if (!e) e = lb::create(r.h, p, false); CHECK(e == 0, "create: %s", lb::err(e).c_str());
    e = lb::configure(i.h, i.m, true); if (!e) e = lb::configure(r.h, r.m, true); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
    e = noise_handshakestate_start(i.h); if (!e) e = noise_handshakestate_start(r.h); CHECK(e == 0, "start: %s", lb::err(e).c_str());
    i.m.start(); r.m.start();
    for (int k = 0; k < upto; k++) {
        Party &w = k & 1 ? r : i, &x = k & 1 ? i : r; bytes want = w.m.write(pattern(5, k)), msg, got, g2;
        e = lb::write(w.h, pattern(5, k), msg, want.size()); CHECK(e == 0 && msg == want, "message %d: %s", k, lb::err(e).c_str());
        e = lb::read(x.h, msg, got, 5); CHECK(e == 0, "reading message %d: %s", k, lb::err(e).c_str()); x.m.read(want, g2);
    }
}
static std::vector<Proto> protos() {
    std::vector<Proto> v; for (auto &p : lb::core_protos()) if (!rn::find(p.pattern)->fallback) v.push_back(p);
    size_t n = v.size();
    for (size_t i = 0; i < n; i++) { Proto p = v[i]; if (p.hybrid) { p.hybrid = NOISE_DH_NEWHOPE; v.push_back(p); } else if (i % 4 == 0) { p.dh = NOISE_DH_CURVE448; p.cipher = NOISE_CIPHER_AESGCM; p.hash = NOISE_HASH_SHA512; v.push_back(p); } }
    return v;
}
// A write with capacity cap inside a block of exactly cap bytes.
static void do_write(const Proto &p, int k, int plen, bool nullp, size_t cap, size_t limit) {
    Party i, r; advance(p, i, r, k); Party &w = k & 1 ? r : i;
    bytes pl = nullp ? bytes() : pattern(plen, 9), msg, want = w.m.write(pl);
    Block b(cap, FILL), in(pl); NoiseBuffer mb, pb; noise_buffer_set_output(mb, b.p, cap); noise_buffer_set_input(pb, in.p, in.n);
    int e = noise_handshakestate_write_message(w.h, &mb, nullp ? nullptr : &pb); op();
    bool fits = want.size() <= cap && want.size() <= limit;
    if (fits) { CHECK(e == 0, "a message of %zu bytes was refused with capacity %zu: %s (%s, message %d, payload %d)", want.size(), cap, lb::err(e).c_str(), p.name().c_str(), k, plen);
        CHECK(mb.size == want.size() && b.get(mb.size) == want, "the message written with capacity %zu is wrong (%s, message %d, payload %d)", cap, p.name().c_str(), k, plen);
        for (size_t x = mb.size; x < cap; x++) if (b.p[x] != FILL && x >= mb.size + 16) CHECK(b.p[x] == FILL, "byte %zu beyond the message of %zu bytes was changed", x, mb.size); }
    else { CHECK(e == NOISE_ERROR_INVALID_LENGTH, "writing a message of %zu bytes with capacity %zu returned %s (%s, message %d, payload %d)", want.size(), cap, lb::err(e).c_str(), p.name().c_str(), k, plen);
        CHECK(mb.size == 0, "a refused write left size %zu", mb.size);
        CHECK(noise_handshakestate_get_action(w.h) == NOISE_ACTION_FAILED, "a refused write left action %s", lb::act(noise_handshakestate_get_action(w.h)).c_str()); }
    distinct(mix(hash_str(p.name(), k), mix(plen + (nullp ? 77777 : 0), cap)));
}
static size_t need(const Proto &p, int k, int plen) {
    static std::map<std::string, size_t> memo; auto key = p.name() + fmt(" %d", k); auto it = memo.find(key);
    if (it == memo.end()) { auto mp = lb::model_pair(p, B("c12")); mp.i.start(); mp.r.start(); bytes x; for (int j = 0; j < k; j++) { bytes m = (j & 1 ? mp.r : mp.i).write(pattern(5, j)); (j & 1 ? mp.i : mp.r).read(m, x); } it = memo.insert({key, (k & 1 ? mp.r : mp.i).write(bytes()).size()}).first; }
    return it->second + plen;
}
static void handshake_write() {
    static std::vector<Proto> ps = protos();
    const Proto &p = pick(ps, "protocol"); int k = choose((int)rn::find(p.pattern)->msgs.size(), "message"); int pi = choose(3, "payload"); int part = choose(4, "slice"); shard();
    int plen = pi == 0 ? 0 : pi == 1 ? 0 : 17; bool nullp = pi == 0; size_t n = need(p, k, plen);
    note(fmt("%s message %d payload %d", p.name().c_str(), k, nullp ? -1 : plen));
    bool big = p.dh != NOISE_DH_CURVE25519 || p.hybrid == NOISE_DH_NEWHOPE;
    for (size_t cap = part; cap <= n + 20; cap += 4) {
        if (!g().thorough) {      // quick: all capacities for a third of the combinations, boundaries for the others
            bool all = !big && pi == 2 && p.psk == (p.hybrid == 0 && k % 2 == 0);
            bool edge = cap + 18 >= n || cap < 3 || (cap >= 30 && cap <= 34) || (cap >= 46 && cap <= 50) || (cap % 61 == 0);
            if (!all && !edge) continue;
        }
        do_write(p, k, plen, nullp, cap, 65535);
    }
    outcome("handshake message capacities"); if (part == 0 && pi == 2) sample(fmt("%s message %d needs %zu bytes", p.name().c_str(), k, n));
}
static void handshake_read() {
    static std::vector<Proto> ps = protos();
    const Proto &p = pick(ps, "protocol"); int k = choose((int)rn::find(p.pattern)->msgs.size(), "message"); int mode = choose(2, "mode"); shard();
    note(fmt("%s message %d", p.name().c_str(), k));
    if (mode == 0) {         // payload capacity
        for (int cap = 0; cap <= 25; cap++) {
            Party i, r; advance(p, i, r, k); Party &w = k & 1 ? r : i, &x = k & 1 ? i : r; bytes pl = pattern(17, 9), m = w.m.write(pl);
            Block in(m), out(cap, FILL); NoiseBuffer mb, pb; noise_buffer_set_input(mb, in.p, in.n); noise_buffer_set_output(pb, out.p, cap);
            int e = noise_handshakestate_read_message(x.h, &mb, &pb); op();
            if (cap >= 17) { CHECK(e == 0 && pb.size == 17 && out.get(17) == pl, "a payload of 17 bytes with capacity %d: %s", cap, lb::err(e).c_str()); for (int z = 17; z < cap; z++) CHECK(out.p[z] == FILL, "byte %d beyond the payload was changed", z); }
            else { CHECK(e == NOISE_ERROR_INVALID_LENGTH, "a payload of 17 bytes with capacity %d returned %s", cap, lb::err(e).c_str()); CHECK(pb.size == 0, "a refused read left payload size %zu", pb.size); for (int z = 0; z < cap; z++) CHECK(out.p[z] == FILL, "a refused read wrote to the payload buffer"); }
            distinct(mix(hash_str(p.name(), 100 + k), cap));
        }
        outcome("payload capacities");
    } else {                 // every message length: prefixes of the genuine message and longer ones
        size_t n = need(p, k, 17); bool big = p.dh != NOISE_DH_CURVE25519 || p.hybrid == NOISE_DH_NEWHOPE;
        for (size_t len = 0; len <= n + 40; len++) {
            if (!g().thorough && (big ? len % 97 && len + 40 < n : (len % 4 != (size_t)k % 4 && len + 40 < n && len != 32 && len != 48 && len != 31 && len != 47))) continue;
            Party i, r; advance(p, i, r, k); Party &w = k & 1 ? r : i, &x = k & 1 ? i : r; bytes pl = pattern(17, 9), m = w.m.write(pl); m.resize(len, 0x5c);
            Block in(m), out(n + 60, FILL); NoiseBuffer mb, pb; noise_buffer_set_input(mb, in.p, in.n); noise_buffer_set_output(pb, out.p, out.n);
            int e = noise_handshakestate_read_message(x.h, &mb, &pb); op();
            bool plain = x.m.sym.has_key == false;
            if (len == n) CHECK(e == 0 && pb.size == 17, "the genuine message: %s", lb::err(e).c_str());
            else if (e == 0) { bytes got, mm = m; rn::HS model = x.m; int me = model.read(mm, got) ? 0 : 1; CHECK(me == 0 || plain, "a message of %zu instead of %zu bytes was accepted", len, n); CHECK(pb.size == got.size() && out.get(pb.size) == got, "payload of a resized message"); }
            else CHECK(noise_handshakestate_get_action(x.h) == NOISE_ACTION_FAILED && pb.size == 0, "a refused message left action %s and payload size %zu", lb::act(noise_handshakestate_get_action(x.h)).c_str(), pb.size);
            distinct(mix(hash_str(p.name(), 200 + k), len));
        }
        outcome("message lengths");
    }
}
static void limits() {       // 65535 bytes
    static std::vector<Proto> ps = protos();
    const Proto &p = pick(ps, "protocol"); int k = choose((int)rn::find(p.pattern)->msgs.size(), "message"); shard();
    note(fmt("%s message %d", p.name().c_str(), k));
    size_t base = need(p, k, 0);
    for (size_t total : {65534, 65535, 65536, 65537, 65550, 65551, 65552, 65600, 66000}) {
        if (total < base) continue;
        for (size_t cap : {(size_t)65535, (size_t)70000}) { if (total > cap) { if (total != 65536) continue; } do_write(p, k, (int)(total - base), false, cap, 65535); }
    }
    if (65535 - base < 70000) for (size_t plen : {(size_t)65519, (size_t)65520, (size_t)65535, (size_t)65536, (size_t)69000}) do_write(p, k, (int)plen, false, 80000, 65535);
    // reading
    for (size_t total : {65534, 65535, 65536, 65552, 70000}) {
        Party i, r; advance(p, i, r, k); Party &w = k & 1 ? r : i, &x = k & 1 ? i : r;
        bytes pl = pattern(total - base, 9), m = w.m.write(pl), got;
        CHECK(m.size() == total, "model message");
        int e = lb::read(x.h, m, got, pl.size()); op();
        if (total <= 65535) CHECK(e == 0 && got == pl, "reading a genuine message of %zu bytes: %s", total, lb::err(e).c_str());
        else CHECK(e == NOISE_ERROR_INVALID_LENGTH && got.empty(), "reading a message of %zu bytes returned %s", total, lb::err(e).c_str());
        distinct(mix(hash_str(p.name(), 300 + k), total));
    }
    outcome("65535 byte limit");
}
static void cipher() {
    int cid = choose(2, "cipher") ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY, keyed = choose(2, "keyed"), dir = choose(2, "direction"); bool bigs = choose(2, "sizes"); int slice = choose(8, "slice"); shard();
    std::vector<std::pair<size_t, size_t>> v;     // (size, capacity)
    if (!bigs) for (size_t n = 0; n <= 50; n++) for (size_t c = 0; c <= 70; c++) v.push_back({n, c});
    else for (size_t n : {65502, 65503, 65504, 65518, 65519, 65520, 65521, 65534, 65535, 65536, 65537, 65551, 65552, 70000, 131072}) for (long d = -1; d <= 17; d++) v.push_back({n, n + d});
    bytes K = pattern(32, 8);
    for (size_t z = 0; z < v.size(); z++) {
        if ((int)(z % 8) != slice) continue;
        size_t n = v[z].first, cap = v[z].second;
        lb::CSt c; noise_cipherstate_new_by_id(c.out(), cid); if (keyed) noise_cipherstate_init_key(c, K.data(), 32);
        Block b(cap, FILL); bytes pt = pattern(n, 3), ct; size_t pn = n;
        if (dir && keyed && n >= 16) { pn = n - 16; pt.resize(pn); ct = rc::aead(cid, K, 0, bytes(), pt); } else ct = pt;
        const bytes &src = dir ? ct : pt; memcpy(b.p, src.data(), std::min(cap, src.size()));
        bytes before = b.get();
        NoiseBuffer nb; nb.data = b.p; nb.size = n; nb.max_size = cap;
        int e = dir ? noise_cipherstate_decrypt(c, &nb) : noise_cipherstate_encrypt(c, &nb); op();
        int want = 0; size_t outn = n;
        if (n > cap || n > 65535) want = NOISE_ERROR_INVALID_LENGTH;
        else if (keyed && !dir) { outn = n + 16; if (outn > cap || outn > 65535) want = NOISE_ERROR_INVALID_LENGTH; }
        else if (keyed && dir) { if (n < 16) want = NOISE_ERROR_INVALID_LENGTH; else outn = n - 16; }
        CHECK(e == want, "%s %s of %zu bytes with capacity %zu, %s: %s instead of %s", rn::cipher_name(cid), dir ? "decryption" : "encryption", n, cap, keyed ? "keyed" : "no key", lb::err(e).c_str(), lb::err(want).c_str());
        if (!want) { CHECK(nb.size == outn, "size %zu instead of %zu", nb.size, outn); bytes x = keyed ? (dir ? pt : rc::aead(cid, K, 0, bytes(), pt)) : src; CHECK(b.get(outn) == x, "wrong result"); for (size_t y = std::max(outn, n); y < cap; y++) CHECK(b.p[y] == FILL, "byte %zu beyond the result of %zu bytes was changed", y, outn); }
        else CHECK(nb.size == n && b.get() == before, "a refused call changed the buffer");
        distinct(mix(mix(cid * 4 + keyed * 2 + dir, n), cap));
    }
    outcome("cipher state sizes");
}
static void symmetric() {
    int keyed = choose(2, "keyed"), dir = choose(2, "direction"), bigs = choose(2, "sizes"); shard();
    Proto p = lb::core_protos()[5];
    std::vector<std::pair<size_t, size_t>> v;
    if (!bigs) for (size_t n = 0; n <= 40; n++) for (size_t c = 0; c <= 60; c++) v.push_back({n, c});
    else for (size_t n : {65519, 65520, 65535, 65536, 65552, 70000}) for (long d : {-1, 0, 15, 16, 17}) v.push_back({n, n + d});
    for (auto &q : v) {
        size_t n = q.first, cap = q.second; lb::SySt s; NoiseProtocolId id = p.id(); int e = noise_symmetricstate_new_by_id(s.out(), &id); CHECK(e == 0, "new");
        rn::Sym m; m.init(p); bytes k = pattern(32, 6); if (keyed) { noise_symmetricstate_mix_key(s, k.data(), 32); m.mix_key(k); }
        Block b(cap, FILL); bytes pt = pattern(n, 3); size_t pn = n; if (dir && keyed && n >= 16) pt.resize(pn = n - 16);
        bytes ct = pt; { rn::Sym t = m; ct = t.encrypt_and_hash(pt); }
        const bytes &src = dir && (!keyed || n >= 16) ? ct : pt; memcpy(b.p, src.data(), std::min(cap, src.size()));
        bytes before = b.get(); NoiseBuffer nb; nb.data = b.p; nb.size = n; nb.max_size = cap;
        e = dir ? noise_symmetricstate_decrypt_and_hash(s, &nb) : noise_symmetricstate_encrypt_and_hash(s, &nb); op();
        int want = 0; size_t outn = n;
        if (n > cap || n > 65535) want = NOISE_ERROR_INVALID_LENGTH; else if (keyed && !dir) { outn = n + 16; if (outn > cap || outn > 65535) want = NOISE_ERROR_INVALID_LENGTH; } else if (keyed && dir) { if (n < 16) want = NOISE_ERROR_INVALID_LENGTH; else outn = n - 16; }
        CHECK(e == want, "%s of %zu bytes with capacity %zu, %s: %s instead of %s", dir ? "decrypt_and_hash" : "encrypt_and_hash", n, cap, keyed ? "keyed" : "no key", lb::err(e).c_str(), lb::err(want).c_str());
        if (!want) { CHECK(nb.size == outn && b.get(outn) == (dir ? pt : ct), "wrong result for %zu bytes, capacity %zu", n, cap); for (size_t y = std::max(outn, n); y < cap; y++) CHECK(b.p[y] == FILL, "byte %zu beyond the result was changed", y); }
        distinct(mix(99 + keyed * 2 + dir, mix(n, cap)));
    }
    outcome("symmetric state sizes");
}
// Simple output buffers.
template <class F> static void out_exact(const char *what, size_t exact, size_t upto, F f, bool zero_ok = false) {
    for (size_t n = 0; n <= upto; n++) { Block b(n, FILL); int e = f(b.p, n); op(); if (n == exact) CHECKK(what, e == 0, "%s with %zu bytes: %s", what, n, lb::err(e).c_str()); else { CHECKK(what, e == NOISE_ERROR_INVALID_LENGTH, "%s with %zu instead of %zu bytes returned %s", what, n, exact, lb::err(e).c_str()); for (size_t z = 0; z < n; z++) CHECKK(what, b.p[z] == FILL, "%s was refused but wrote to the buffer", what); } distinct(hash_str(what, n)); }
}
static void others() {
    int what = choose(13, "call"); int v = choose(4, "variant"); shard();
    static const int hashes[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
    int H = hashes[v]; size_t L = rc::hashlen(H); bytes d = pattern(77, 3);
    int D = v == 0 ? NOISE_DH_CURVE25519 : v == 1 ? NOISE_DH_CURVE448 : NOISE_DH_NEWHOPE; int role = v == 3 ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR;
    switch (what) {
    case 0: { lb::HaSt h; noise_hashstate_new_by_id(h.out(), H);
        out_exact("noise_hashstate_hash_one", L, 140, [&](uint8_t *p, size_t n) { return noise_hashstate_hash_one(h, d.data(), d.size(), p, n); });
        out_exact("noise_hashstate_hash_two", L, 140, [&](uint8_t *p, size_t n) { return noise_hashstate_hash_two(h, d.data(), d.size(), d.data(), 3, p, n); });
        out_exact("noise_hashstate_finalize", L, 140, [&](uint8_t *p, size_t n) { noise_hashstate_reset(h); noise_hashstate_update(h, d.data(), 5); return noise_hashstate_finalize(h, p, n); }); break; }
    case 1: { lb::HaSt h; noise_hashstate_new_by_id(h.out(), H); bytes r1, r2; rc::hkdf2(H, d, d, r1, r2);
        for (size_t a = 0; a <= L + 3; a++) for (size_t b = 0; b <= L + 3; b++) { if (!g().thorough && a % 7 && b % 7 && a + 2 < L && b + 2 < L) continue; Block x(a, FILL), y(b, FILL); int e = noise_hashstate_hkdf(h, d.data(), d.size(), d.data(), d.size(), x.p, a, y.p, b); op();
            if (a > L || b > L) CHECK(e == NOISE_ERROR_INVALID_LENGTH, "hkdf with outputs of %zu and %zu bytes returned %s", a, b, lb::err(e).c_str()); else CHECK(e == 0 && x.get() == r1.substr(0, a) && y.get() == r2.substr(0, b), "hkdf with outputs of %zu and %zu bytes: %s", a, b, lb::err(e).c_str()); distinct(mix(1, mix(a, mix(b, v)))); } break; }
    case 2: { lb::HaSt h; noise_hashstate_new_by_id(h.out(), H); bytes full = rc::pbkdf2(H, d, d, 2, 300);
        for (size_t n = 0; n <= 300; n++) { Block x(n, FILL); int e = noise_hashstate_pbkdf2(h, d.data(), d.size(), d.data(), d.size(), 2, x.p, n); op(); CHECK(e == 0 && x.get() == full.substr(0, n), "pbkdf2 of %zu bytes: %s", n, lb::err(e).c_str()); distinct(mix(2, mix(n, v))); } break; }
    case 3: { rng::reset(1); lb::DSt s; noise_dhstate_new_by_id(s.out(), D); noise_dhstate_set_role(s, role); size_t pl = noise_dhstate_get_private_key_length(s), ul = noise_dhstate_get_public_key_length(s), sl = noise_dhstate_get_shared_key_length(s);
        bytes k = pattern(pl, 5); noise_dhstate_set_keypair_private(s, k.data(), pl); lb::DSt o; noise_dhstate_new_by_id(o.out(), D); noise_dhstate_set_role(o, role == NOISE_ROLE_INITIATOR ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR);
        bytes ou = D == NOISE_DH_NEWHOPE ? pattern(noise_dhstate_get_public_key_length(o), 1) : rc::dh_public(D, pattern(pl, 99)); int e = noise_dhstate_set_public_key(o, ou.data(), ou.size()); CHECK(e == 0, "set_public_key: %s", lb::err(e).c_str());
        out_exact("noise_dhstate_get_public_key", ul, ul + 3, [&](uint8_t *p, size_t n) { return noise_dhstate_get_public_key(s, p, n); });
        out_exact("noise_dhstate_calculate", sl, sl + 20, [&](uint8_t *p, size_t n) { return noise_dhstate_calculate(s, o, p, n); });
        out_exact("noise_dhstate_get_keypair (private)", pl, pl + 3, [&](uint8_t *p, size_t n) { Block u(ul); return noise_dhstate_get_keypair(s, p, n, u.p, ul); });
        out_exact("noise_dhstate_get_keypair (public)", ul, ul + 3, [&](uint8_t *p, size_t n) { Block u(pl); return noise_dhstate_get_keypair(s, u.p, pl, p, n); });
        for (size_t n = 0; n <= ul + 40; n++) { Block in(pattern(n, 1)); lb::DSt t; noise_dhstate_new_by_id(t.out(), D); noise_dhstate_set_role(t, role); e = noise_dhstate_set_public_key(t, in.p, n); op(); CHECK((n == ul) == (e == 0) && (n == ul || e == NOISE_ERROR_INVALID_LENGTH), "set_public_key with %zu bytes: %s", n, lb::err(e).c_str());
            if (n <= pl + 40) { e = noise_dhstate_set_keypair_private(t, in.p, n); CHECK((n == pl) == (e == 0) && (n == pl || e == NOISE_ERROR_INVALID_LENGTH), "set_keypair_private with %zu bytes: %s", n, lb::err(e).c_str()); Block u(ul); if (n != pl) { e = noise_dhstate_set_keypair(t, in.p, n, u.p, ul); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "set_keypair with a private key of %zu bytes: %s", n, lb::err(e).c_str()); } }
            if (n != ul) { Block u(pl); e = noise_dhstate_set_keypair(t, u.p, pl, in.p, n); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "set_keypair with a public key of %zu bytes: %s", n, lb::err(e).c_str()); } } break; }
    case 4: { lb::SSt s; noise_signstate_new_by_id(s.out(), NOISE_SIGN_ED25519); bytes k = pattern(32, 7 + v); noise_signstate_set_keypair_private(s, k.data(), 32); bytes sg = rc::ed_sign(k, d), u = rc::ed_public(k);
        out_exact("noise_signstate_sign", 64, 90, [&](uint8_t *p, size_t n) { return noise_signstate_sign(s, d.data(), d.size(), p, n); });
        out_exact("noise_signstate_get_public_key", 32, 40, [&](uint8_t *p, size_t n) { return noise_signstate_get_public_key(s, p, n); });
        out_exact("noise_signstate_get_keypair (private)", 32, 40, [&](uint8_t *p, size_t n) { Block x(32); return noise_signstate_get_keypair(s, p, n, x.p, 32); });
        out_exact("noise_signstate_get_keypair (public)", 32, 40, [&](uint8_t *p, size_t n) { Block x(32); return noise_signstate_get_keypair(s, x.p, 32, p, n); });
        for (size_t n = 0; n <= 90; n++) { bytes q = sg; q.resize(n, 0); Block in(q); int e = noise_signstate_verify(s, d.data(), d.size(), in.p, n); op(); CHECK((n == 64) == (e == 0) && (n == 64 || e == NOISE_ERROR_INVALID_LENGTH), "verifying a signature of %zu bytes: %s", n, lb::err(e).c_str());
            if (n != 32) { Block x(32); e = noise_signstate_set_public_key(s, in.p, n); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "set_public_key of %zu bytes: %s", n, lb::err(e).c_str()); e = noise_signstate_set_keypair_private(s, in.p, n); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "set_keypair_private of %zu bytes: %s", n, lb::err(e).c_str()); e = noise_signstate_set_keypair(s, in.p, n, x.p, 32); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "set_keypair: %s", lb::err(e).c_str()); e = noise_signstate_set_keypair(s, x.p, 32, in.p, n); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "set_keypair: %s", lb::err(e).c_str()); } } break; }
    case 5: { lb::CSt c; noise_cipherstate_new_by_id(c.out(), v & 1 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY); for (size_t n = 0; n <= 70; n++) { Block in(pattern(n, 1)); int e = noise_cipherstate_init_key(c, in.p, n); op(); CHECK((n == 32) == (e == 0) && (n == 32 || e == NOISE_ERROR_INVALID_LENGTH), "init_key with %zu bytes: %s", n, lb::err(e).c_str()); } 
        Proto p = lb::core_protos()[10]; p.psk = true; lb::HSt h; int e = lb::create(h, p, true); CHECK(e == 0, "create"); for (size_t n = 0; n <= 70; n++) { Block in(pattern(n, 1)); e = noise_handshakestate_set_pre_shared_key(h, in.p, n); CHECK((n == 32) == (e == 0) && (n == 32 || e == NOISE_ERROR_INVALID_LENGTH), "set_pre_shared_key with %zu bytes: %s", n, lb::err(e).c_str()); } break; }
    case 6: { static std::vector<Proto> ps = lb::all_protos(); for (size_t z = v; z < ps.size(); z += g().thorough ? 4 : 28) { NoiseProtocolId id = ps[z].id(); std::string nm = ps[z].name(); for (size_t n = 0; n <= nm.size() + 3; n++) { Block b(n, FILL); int e = noise_protocol_id_to_name((char *)b.p, n, &id); op(); distinct(hash_str(nm, n));
        if (n >= nm.size() + 1) CHECK(e == 0 && B(b.p, nm.size() + 1) == B(nm) + bytes(1, 0), "%s with capacity %zu: %s", nm.c_str(), n, lb::err(e).c_str()); else { CHECK(e == NOISE_ERROR_INVALID_LENGTH, "%s with capacity %zu returned %s", nm.c_str(), n, lb::err(e).c_str()); if (n) CHECK(memchr(b.p, 0, n) != nullptr && b.p[0] == 0, "a refused name was left in the buffer"); } }
        // names with an explicit length and no terminator
        Block nb(B(nm)); NoiseProtocolId got; int e = noise_protocol_name_to_id(&got, (const char *)nb.p, nb.n); CHECK(e == 0 && !memcmp(&got, &id, sizeof id), "%s does not parse: %s", nm.c_str(), lb::err(e).c_str());
        for (size_t n = 0; n < nm.size(); n++) { Block cut(B(nm).substr(0, n)); e = noise_protocol_name_to_id(&got, (const char *)cut.p, n); op(); CHECK(e != 0, "the prefix of %zu bytes of %s was accepted", n, nm.c_str()); } } break; }
    case 7: { int ft = v & 1 ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC; size_t need = ft == NOISE_FINGERPRINT_FULL ? 96 : 48; bytes u = v & 2 ? pattern(56, 4) : pattern(32, 4);
        for (size_t n = 0; n <= 110; n++) { Block b(n, FILL), in(u); int e = noise_format_fingerprint(ft, (char *)b.p, n, in.p, in.n); op(); CHECK((n >= need) == (e == 0) && (n >= need || e == NOISE_ERROR_INVALID_LENGTH), "a fingerprint with capacity %zu: %s", n, lb::err(e).c_str()); if (n) CHECK(memchr(b.p, 0, n) != nullptr, "no terminator"); for (size_t z = need; z < n; z++) CHECK(b.p[z] == FILL, "byte %zu beyond the fingerprint was changed", z);
            lb::DSt s; noise_dhstate_new_by_id(s.out(), u.size() == 32 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448); noise_dhstate_set_public_key(s, u.data(), u.size()); Block b2(n, FILL); int e2 = noise_dhstate_format_fingerprint(s, ft, (char *)b2.p, n); CHECK(e == e2, "the two formatting calls disagree"); distinct(mix(7, mix(n, v))); } break; }
    case 8: { for (int e : {0, NOISE_ERROR_NO_MEMORY, NOISE_ERROR_INVALID_SIGNATURE, 0x1234567, -5}) { Block full(300); noise_strerror(e, (char *)full.p, 300); std::string text = (char *)full.p; for (size_t n = 0; n <= text.size() + 5; n++) { Block b(n, FILL); int r = noise_strerror(e, (char *)b.p, n); op(); if (!n) CHECK(r == -1, "noise_strerror with no room returned %d", r); else CHECK(r == 0 && std::string((char *)b.p) == text.substr(0, n - 1), "noise_strerror with capacity %zu", n); } } break; }
    case 9: { Proto p = lb::core_protos()[12]; p.hash = H; Party i, r; advance(p, i, r, (int)rn::find(p.pattern)->msgs.size()); bytes h = i.m.sym.h; for (size_t n = 0; n <= 140; n++) { Block b(n, FILL); int e = noise_handshakestate_get_handshake_hash(i.h, b.p, n); op(); bytes want = h; want.resize(n, 0); CHECK(e == 0 && b.get() == want, "get_handshake_hash with %zu bytes: %s", n, lb::err(e).c_str()); distinct(mix(9, mix(n, v))); } break; }
    case 10: { rng::reset(2); lb::RSt r; noise_randstate_new(r.out()); for (size_t n = 0; n <= 400; n++) { Block b(n, 0); int e = noise_randstate_generate(r, b.p, n); op(); CHECK(e == 0, "generate %zu", n); Block c(n, 0); e = noise_randstate_generate_simple(c.p, n); CHECK(e == 0, "generate_simple %zu", n);
        for (size_t m = 0; m <= n && m < 60; m += 7) { Block q(n, FILL); bytes before = q.get(); e = noise_randstate_pad(r, q.p, m, n, v & 1 ? NOISE_PADDING_RANDOM : NOISE_PADDING_ZERO); CHECK(e == 0 && q.get(m) == before.substr(0, m), "pad %zu to %zu", m, n); } } break; }
    case 11: {  // saving to a buffer of every capacity
        if (v > 2) break; bytes want; 
        ct::Cert c = ct::mkcert(2); ct::Chain ch; ch.certs = {ct::mkcert(1), ct::mkcert(2)}; ct::CertO co; ct::ChainO cho; Noise_Certificate_new(co.out()); ct::build(co, c, ct::plain); Noise_CertificateChain_new(cho.out()); ct::build(cho, ch, ct::plain);
        ct::PrivO po; Noise_PrivateKey_new(po.out()); ct::PrivKey pk = ct::mksubj(1); ct::build(po, pk, ct::plain);
        if (v == 0) want = c.enc(); else if (v == 1) want = ch.enc();
        size_t n = v < 2 ? want.size() : 0;
        if (v == 2) { rng::reset(4); Block b(2000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); int e = noise_save_private_key_to_buffer(po, &pb, "x", 1, "ChaChaPoly_BLAKE2s_PBKDF2"); CHECK(e == 0, "save: %s", lb::err(e).c_str()); uint8_t *dd; noise_protobuf_finish_output(&pb, &dd, &n); }
        for (size_t cap = 0; cap <= n + 4; cap++) {
            if (v == 2 && !g().thorough && cap % 29 && cap != n && cap != n - 1 && cap != n + 1) continue;
            rng::reset(4); Block b(cap, FILL); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, cap); int e = v == 0 ? noise_save_certificate_to_buffer(co, &pb) : v == 1 ? noise_save_certificate_chain_to_buffer(cho, &pb) : noise_save_private_key_to_buffer(po, &pb, "x", 1, "ChaChaPoly_BLAKE2s_PBKDF2"); op();
            uint8_t *dd = 0; size_t dn = 0; int e2 = e ? 0 : noise_protobuf_finish_output(&pb, &dd, &dn);
            if (v < 2) { if (cap >= n) CHECK(e == 0 && e2 == 0 && B(dd, dn) == want, "saving %zu bytes with capacity %zu: %s", n, cap, lb::err(e).c_str()); else CHECK(e == NOISE_ERROR_INVALID_LENGTH, "saving %zu bytes with capacity %zu returned %s", n, cap, lb::err(e).c_str()); }
            else if (cap < n) CHECK(e != 0, "saving %zu bytes with capacity %zu succeeded", n, cap); else CHECK(e == 0 && dn == n, "saving %zu bytes with capacity %zu: %s", n, cap, lb::err(e).c_str());
            distinct(mix(11, mix(cap, v)));
        }
        break; }
    case 12: {  // strings and byte strings of a protobuf read into buffers of every capacity; lengths that the input does not have
        bool str = v & 1, sz = (v & 2) || !str; std::vector<size_t> ns; for (size_t n = 0; n <= 40; n++) ns.push_back(n); for (size_t n : {(size_t)126, (size_t)127, (size_t)128, (size_t)129, (size_t)255, (size_t)256, (size_t)257, (size_t)16383, (size_t)16384, (size_t)65535, (size_t)65536}) ns.push_back(n);
        auto vint = [](uint64_t x) { bytes o; do { o.push_back((uint8_t)((x & 127) | (x > 127 ? 128 : 0))); x >>= 7; } while (x); return o; };
        for (size_t n : ns) {
            bytes c = bytes(n, 'x'), f = bytes(1, 0x1A) + vint(n) + c, rest = B("\x20\x05"); std::vector<size_t> caps; for (size_t k = 0; k <= 3; k++) caps.push_back(k); for (size_t k = n > 44 ? n - 3 : 4; k <= n + 4; k++) caps.push_back(k);
            for (size_t cap : caps) { Block in(f + rest), b(cap, FILL); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, in.p, in.n); size_t got = 777; op();
                int e = str ? noise_protobuf_read_string(&pb, 3, (char *)b.p, cap, sz ? &got : 0) : noise_protobuf_read_bytes(&pb, 3, b.p, cap, sz ? &got : 0); bool fits = str ? cap > n : cap >= n && (cap || !n);
                if (str && !cap) { CHECK(e == NOISE_ERROR_INVALID_PARAM, "reading a string with no room: %s", lb::err(e).c_str()); continue; }
                if (!str && !cap) { CHECK(e == 0 ? !n : true, "reading %zu bytes with no room succeeded", n); continue; }
                if (fits) CHECK(e == 0 && b.get(n) == c && (!str || b.p[n] == 0) && (!sz || got == n), "reading %zu bytes with capacity %zu: %s", n, cap, lb::err(e).c_str()); else CHECK(e == NOISE_ERROR_INVALID_FORMAT && (!sz || got == 0), "reading %zu bytes with capacity %zu returned %s", n, cap, lb::err(e).c_str());
                distinct(mix(12, mix(n, mix(cap, v)))); }
            for (uint64_t claim : {(uint64_t)n + 1, (uint64_t)n + 2, (uint64_t)n + 100, ((uint64_t)1 << 31) + n, ((uint64_t)1 << 32) + n, ((uint64_t)1 << 63) + n, ~(uint64_t)0, ~(uint64_t)0 - 1, ~(uint64_t)0 - n}) { bytes g2 = bytes(1, 0x1A) + vint(claim) + c; Block in(g2), b(n + 300, FILL); NoiseProtobuf pb; size_t got = 777; void *m = 0; op(2);
                noise_protobuf_prepare_input(&pb, in.p, in.n); int e = str ? noise_protobuf_read_string(&pb, 3, (char *)b.p, b.n, sz ? &got : 0) : noise_protobuf_read_bytes(&pb, 3, b.p, b.n, sz ? &got : 0); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "a length of %llu with %zu bytes left returned %s", (unsigned long long)claim, n, lb::err(e).c_str());
                noise_protobuf_prepare_input(&pb, in.p, in.n); e = str ? noise_protobuf_read_alloc_string(&pb, 3, (char **)&m, sz ? 0 : 1000000, &got) : noise_protobuf_read_alloc_bytes(&pb, 3, &m, sz ? 0 : 1000000, &got); CHECK(e == NOISE_ERROR_INVALID_FORMAT && !m, "allocating a length of %llu with %zu bytes left returned %s", (unsigned long long)claim, n, lb::err(e).c_str());
                noise_protobuf_prepare_input(&pb, in.p, in.n); size_t end = 0; e = noise_protobuf_read_start_element(&pb, 3, &end); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "an element of %llu with %zu bytes left returned %s", (unsigned long long)claim, n, lb::err(e).c_str());
                noise_protobuf_prepare_input(&pb, in.p, in.n); e = noise_protobuf_read_skip(&pb); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "skipping %llu bytes with %zu left returned %s", (unsigned long long)claim, n, lb::err(e).c_str()); }
        }
        break; }
    }
    static const char *names[] = {"hashing", "hkdf", "pbkdf2", "DH keys", "signatures", "cipher keys and PSKs", "protocol names", "fingerprints", "noise_strerror", "handshake hash", "random bytes", "saving to a buffer", "reading elements"};
    outcome(names[what]);
}
static void body() {
    switch (choose(6, "part")) { case 0: handshake_write(); break; case 1: handshake_read(); break; case 2: limits(); break; case 3: cipher(); break; case 4: symmetric(); break; default: others(); }
}
VH_MAIN2(body, rng::install)
