// C01: every honest handshake of every supported protocol name, compared byte for byte with the reference model.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
using rn::Proto;

static const int LEN = 1000, FULL = 999;     // LEN + n: n bytes; FULL: as many as make the message as large as it may be
static bytes payload_shape(int s, size_t msg) {
    if (s >= LEN) return pattern((size_t)(s - LEN), (uint8_t)(msg + 1), 3);
    switch (s) { case 0: return bytes(); case 1: return pattern(1, (uint8_t)(9 + msg)); case 2: return pattern(15, (uint8_t)msg); case 3: return pattern(16, (uint8_t)(msg + 3)); case 4: return pattern(17, 250); case 5: return pattern(63, 1); case 6: return pattern(64, 2); case 7: return pattern(65, 3); case 8: return pattern(127, 4); case 9: return pattern(128, 5); case 10: return pattern(300, 6); default: return pattern(1000, 7); }
}
static bytes prologue_shape(int s) { switch (s) { case 0: return bytes(); case 1: return bytes(); case 2: return pattern(1, 77); case 3: return pattern(64, 11); case 4: return pattern(200, 5); case 5: return pattern(65536, 3); default: return pattern(100003, 9, 5); } }

static std::set<bytes> ephemerals_seen;

// Find the private key that the library drew, from the entropy log.
static bool explain(int dh, bool alice, const rn::Key &other, const bytes &pub, bytes &seed) {
    if (dh == NOISE_DH_NEWHOPE) {
        for (auto it = rng::r().log.rbegin(); it != rng::r().log.rend(); ++it) if (it->size() == (alice ? 64u : 32u)) {
            bytes p, s; if (alice) p = rn::nh_alice_public(*it); else rn::nh_bob(*it, other.pub, p, s);
            if (p == pub) { seed = *it; return true; }
        }
        return false;
    }
    size_t l = rc::dhlen(dh);
    for (auto it = rng::r().log.rbegin(); it != rng::r().log.rend(); ++it) for (size_t o = 0; o + l <= it->size(); o += 8) {
        bytes c = it->substr(o, l);
        if (rc::dh_public(dh, c) == pub) { seed = c; return true; }   // X25519/X448 clamp inside
    }
    return false;
}

// Keys that happen to be equal, and special values of the pre-shared key and the prologue: nothing in the protocol treats them differently.
static const int SAME = 16;
static void coincide(lb::Pair &m, const Proto &p, int same) {
    if (!same) return;
    bool nh = p.dh == NOISE_DH_NEWHOPE, st = m.i.s.have() && m.r.s.have(); rn::Key &si = m.i.s, &sr = m.r.s;
    auto statics = [&](const rn::Key &k) { if (si.have()) si = k; if (sr.have()) sr = k; };
    auto from = [&](const bytes &x) { rn::Key k; k.priv = x; k.pub = rc::dh_public(p.dh, x); return k; };
    switch (same) {
    case 1: if (!st) skip(); statics(si); break;                                     // one static key for both
    case 2: if (nh) skip(); m.r.e_seed = m.i.e_seed; break;                          // one ephemeral key for both
    case 3: if (!st || nh) skip(); statics(si); m.r.e_seed = m.i.e_seed; break;
    case 4: if (nh || !si.have()) skip(); si = from(m.i.e_seed); break;              // the initiator's static is its ephemeral
    case 5: if (nh || !sr.have()) skip(); sr = from(m.r.e_seed); break;
    case 6: if (nh || !sr.have()) skip(); sr = from(m.i.e_seed); break;              // the responder's static is the initiator's ephemeral
    case 7: if (nh || !si.have()) skip(); si = from(m.r.e_seed); break;
    case 8: if (nh || (!si.have() && !sr.have())) skip(); statics(from(m.i.e_seed)); m.r.e_seed = m.i.e_seed; break;
    case 9: if (!p.hybrid || p.hybrid == NOISE_DH_NEWHOPE) skip(); m.r.f_seed = m.i.f_seed; break;
    case 10: if (!p.hybrid || p.hybrid != p.dh || nh) skip(); m.i.f_seed = m.i.e_seed; m.r.f_seed = m.r.e_seed; break;
    case 11: if (!p.psk) skip(); m.i.psk = m.r.psk = bytes(32, 0); break;
    case 12: if (!p.psk) skip(); m.i.psk = m.r.psk = bytes(32, 255); break;
    case 13: if (!p.psk) skip(); m.i.psk = m.r.psk = bytes(1, 1) + bytes(31, 0); break;
    case 14: if (!p.psk) skip(); m.i.psk = m.r.psk = bytes(31, 0) + bytes(1, 128); break;
    case 15: if (!p.psk) skip(); m.i.prologue = m.r.prologue = m.i.psk; break;         // the prologue is the pre-shared key
    default: { bytes z(m.i.prologue.size() ? m.i.prologue.size() : 40, 0); m.i.prologue = m.r.prologue = z; break; }
    }
    if (m.i.rs.have()) m.i.rs.pub = sr.pub;
    if (m.r.rs.have()) m.r.rs.pub = si.pub;
}

static void run(const Proto &p, int mode, int pro, const std::vector<int> &shapes, bool null_empty, bool by_id, int keyset, int again = 0, int same = 0) {
    note(same ? fmt("%s coincidence %d", p.name().c_str(), same) : p.name());
    bytes prologue = prologue_shape(pro);
    lb::Pair m = lb::model_pair(p, prologue);
    coincide(m, p, same);
    lb::HSt hi, hr;
    int e = lb::create(hi, p, true, by_id);
    CHECK(e == 0 && hi.p, "cannot create initiator: %s", lb::err(e).c_str());
    e = lb::create(hr, p, false, by_id);
    CHECK(e == 0 && hr.p, "cannot create responder: %s", lb::err(e).c_str());
    bool fixed = mode == 0;
    // Everything that can be set may be set again: the last value counts.
    for (int k = 0; k < again / 6 + (again % 6 ? 1 : 0); k++) {
        int v = again % 6; bytes old = v == 1 ? pattern(prologue.size(), 201, 7) : v == 2 ? prologue + pattern(40, 3) : v == 3 ? prologue.substr(0, prologue.size() / 2) : v == 4 ? bytes() : prologue;
        lb::Pair o = lb::model_pair(p, old, 2 + k);
        e = lb::configure(hi, o.i, true, true, (keyset + k) % 2); CHECK(e == 0, "configure initiator the first time: %s", lb::err(e).c_str());
        e = lb::configure(hr, o.r, true, true, (keyset + k + 1) % 2); CHECK(e == 0, "configure responder the first time: %s", lb::err(e).c_str());
        op(2);
    }
    e = lb::configure(hi, m.i, fixed, pro != 0, keyset); CHECK(e == 0, "configure initiator: %s", lb::err(e).c_str());
    e = lb::configure(hr, m.r, fixed, pro != 0, keyset); CHECK(e == 0, "configure responder: %s", lb::err(e).c_str());
    e = noise_handshakestate_start(hi); CHECK(e == 0, "start initiator: %s", lb::err(e).c_str());
    e = noise_handshakestate_start(hr); CHECK(e == 0, "start responder: %s", lb::err(e).c_str());
    m.i.start(); m.r.start();
    op(2);
    bool comparable = true, large = false;
    for (int x : shapes) if (x == FULL) large = true;
    for (size_t k = 0; k < m.i.pat->msgs.size(); k++) {
        bool from_i = k % 2 == 0;
        NoiseHandshakeState *w = from_i ? hi.p : hr.p, *r = from_i ? hr.p : hi.p;
        rn::HS &mw = from_i ? m.i : m.r, &mr = from_i ? m.r : m.i;
        CHECK(noise_handshakestate_get_action(w) == NOISE_ACTION_WRITE_MESSAGE, "message %zu: writer action %s", k, lb::act(noise_handshakestate_get_action(w)).c_str());
        CHECK(noise_handshakestate_get_action(r) == NOISE_ACTION_READ_MESSAGE, "message %zu: reader action %s", k, lb::act(noise_handshakestate_get_action(r)).c_str());
        bytes pl = shapes[k] == FULL ? pattern(65535 - mw.layout(0).back().off - mw.layout(0).back().len, (uint8_t)k) : payload_shape(shapes[k], k), msg, got, want;
        size_t need = mw.layout(pl.size()).back().off + mw.layout(pl.size()).back().len;
        bool nul = null_empty && pl.empty();
        size_t logmark = rng::r().log.size(); (void)logmark;
        e = lb::write(w, pl, msg, need, nul);
        op();
        CHECK(e == 0, "message %zu: write_message into exactly %zu bytes: %s", k, need, lb::err(e).c_str());
        CHECK(msg.size() == need, "message %zu has %zu bytes, the specification says %zu", k, msg.size(), need);
        if (!fixed) {
            // learn the ephemeral the library generated
            auto lay = mw.layout(pl.size());
            for (auto &f : lay) if (f.token == "e") {
                bytes pub = msg.substr(f.off, f.len), seed;
                CHECK(ephemerals_seen.insert(pub).second, "message %zu: ephemeral public key was already used in an earlier session: %s", k, hex(pub).c_str());
                if (comparable && explain(p.dh, p.dh == NOISE_DH_NEWHOPE ? mw.e_alice() : true, mw.re, pub, seed)) mw.e_seed = seed; else comparable = false;
            } else if (f.token == "f" && comparable) {
                // encrypted maybe: try every logged entropy block
                comparable = false;
                bool alice = !mw.rf.have();
                std::vector<bytes> cand;
                size_t l = rn::priv_len(p.hybrid, alice);
                for (auto &b : rng::r().log) for (size_t o = 0; o + l <= b.size(); o += 8) cand.push_back(b.substr(o, l));
                std::reverse(cand.begin(), cand.end());
                if (cand.size() > 12) cand.resize(12);
                for (auto &c : cand) { rn::HS t = mw; t.f_seed = c; bytes x = t.write(pl); if (x == msg) { mw.f_seed = c; comparable = true; break; } }
                if (!comparable) { outcome("hybrid key not explained by entropy log"); }
            }
        }
        if (comparable) {
            want = mw.write(pl);
            CHECKK("wire bytes differ from the specification", msg == want, "message %zu of %s: library %s, specification %s", k, p.name().c_str(), hex(msg, 3000).c_str(), hex(want, 3000).c_str());
        }
        // reader
        bool nullread = nul;
        e = lb::read(r, msg, got, pl.size(), nullread);
        op();
        CHECK(e == 0, "message %zu: read_message: %s", k, lb::err(e).c_str());
        if (!nullread) CHECK(got == pl, "message %zu: payload %s, sent %s", k, hex(got).c_str(), hex(pl).c_str());
        if (comparable) { bytes x; bool ok = mr.read(msg, x); CHECK(ok && x == pl, "the model reader rejects message %zu", k); state(hash_bytes(mw.sym.h.data(), mw.sym.h.size())); }
    }
    CHECK(noise_handshakestate_get_action(hi) == NOISE_ACTION_SPLIT && noise_handshakestate_get_action(hr) == NOISE_ACTION_SPLIT, "not both at split: %s %s", lb::act(noise_handshakestate_get_action(hi)).c_str(), lb::act(noise_handshakestate_get_action(hr)).c_str());
    // static keys learned
    if (m.r.s.have() && noise_handshakestate_get_remote_public_key_dh(hi)) {
        NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(hi); bytes k(m.r.s.pub.size(), 0);
        e = noise_dhstate_get_public_key(d, &k[0], k.size()); CHECK(e == 0 && k == m.r.s.pub, "the initiator learned a wrong responder static key");
    }
    if (m.i.s.have() && noise_handshakestate_get_remote_public_key_dh(hr)) {
        NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(hr); bytes k(m.i.s.pub.size(), 0);
        e = noise_dhstate_get_public_key(d, &k[0], k.size()); CHECK(e == 0 && k == m.i.s.pub, "the responder learned a wrong initiator static key");
    }
    bytes h1, h2;
    e = lb::hs_hash(hi, p.hash, h1); CHECK(e == 0, "handshake hash (initiator): %s", lb::err(e).c_str());
    e = lb::hs_hash(hr, p.hash, h2); CHECK(e == 0, "handshake hash (responder): %s", lb::err(e).c_str());
    CHECK(h1 == h2, "handshake hashes differ: %s %s", hex(h1).c_str(), hex(h2).c_str());
    if (comparable) CHECK(h1 == m.i.sym.h, "handshake hash %s, specification %s", hex(h1).c_str(), hex(m.i.sym.h).c_str());
    lb::CSt is, ir, rs, rr;
    e = noise_handshakestate_split(hi, is.out(), ir.out()); CHECK(e == 0, "split initiator: %s", lb::err(e).c_str());
    e = noise_handshakestate_split(hr, rs.out(), rr.out()); CHECK(e == 0, "split responder: %s", lb::err(e).c_str());
    CHECK(is.p && ir.p && rs.p && rr.p, "split did not return all cipher states");
    op(2);
    bytes h3; e = lb::hs_hash(hi, p.hash, h3); CHECK(e == 0 && h3 == h1, "the handshake hash changed after split");
    bytes k1, k2; m.i.sym.split(k1, k2);
    for (int n = 0; n < (large ? 4 : 3); n++) for (int dir = 0; dir < 2; dir++) {
        bytes pt = n == 0 ? pattern(5, (uint8_t)(1 + dir)) : n == 3 ? pattern(65519, 9) : n == 1 ? bytes() : pattern(70, (uint8_t)(40 + dir)), ct, back;
        e = lb::encrypt(dir ? rs : is, pt, ct); CHECK(e == 0, "transport encrypt: %s", lb::err(e).c_str());
        if (comparable) { bytes want = rc::aead(p.cipher, dir ? k2 : k1, n, bytes(), pt); CHECKK("transport bytes differ from the specification", ct == want, "transport message %d direction %d of %s: %s, specification %s", n, dir, p.name().c_str(), hex(ct).c_str(), hex(want).c_str()); }
        e = lb::decrypt(dir ? ir : rr, ct, back); CHECK(e == 0 && back == pt, "transport decrypt: %s", lb::err(e).c_str());
        op(2);
    }
    outcome(comparable ? "compared with the specification" : "agreement only");
    sample(fmt("%s prologue=%zu payload shapes %d,%d,%d mode=%s hash=%s", p.name().c_str(), prologue.size(), shapes[0], shapes.size() > 1 ? shapes[1] : -1, shapes.size() > 2 ? shapes[2] : -1, fixed ? "fixed" : "generated", hex(h1, 8).c_str()));
    g().nontrivial++;
}

static void body() {
    static std::vector<Proto> all = [] { std::vector<Proto> v; for (auto &p : lb::all_protos()) if (!rn::find(p.pattern)->fallback) v.push_back(p); return v; }();
    static std::vector<Proto> core = [] { std::vector<Proto> v; for (auto &p : lb::core_protos()) if (!rn::find(p.pattern)->fallback) v.push_back(p); return v; }();
    int part = choose(g().thorough ? 9 : 8, "part");
    Proto p; int mode = 0, pro = 0; bool nul = false, by_id = true; int keyset = 0, again = 0, same = 0; std::vector<int> sh;
    if (part == 0) {            // every name, a few shapes, fixed ephemerals
        p = all[choose((int)all.size(), "protocol")];
        int v = choose(3, "variant");
        static const int shapes[3][3] = {{0, 3, 1}, {2, 0, 10}, {7, 9, 0}};
        pro = v == 0 ? 0 : v == 1 ? 3 : 4; nul = v == 0; by_id = v != 1; keyset = v == 2;
        sh.assign(shapes[v], shapes[v] + 3);
    } else if (part == 1) {     // every name, generated ephemerals
        p = all[choose((int)all.size(), "protocol")];
        mode = 1; sh = {1, 0, 3}; pro = 2; by_id = true;
    } else if (part == 2) {     // one name per pattern and prefix: every prologue x every assignment of payload shapes
        p = core[choose((int)core.size(), "protocol")];
        const rn::Pattern *pt = rn::find(p.pattern);
        static const int al[] = {0, 1, 3, 4, 10};
        pro = choose(5, "prologue");
        for (size_t k = 0; k < pt->msgs.size(); k++) sh.push_back(al[choose(g().thorough || pt->msgs.size() < 3 ? 5 : 3, "payload")]);
        nul = choose(2, "null payload");
        if (!nul && pro == 0) { mode = 0; }
    } else if (part == 3) {     // all payload lengths 0..80 in every message of three cipher/hash choices
        static const int pats[] = {NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_NN, NOISE_PATTERN_N};
        static const int hs[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
        p.pattern = pick(pats, "pattern"); p.dh = NOISE_DH_CURVE25519; p.cipher = choose(2, "cipher") ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY; p.hash = pick(hs, "hash");
        int len = choose(12, "length");
        sh = {len, len, len};
    } else if (part == 4) {     // every length of payload
        static const int pats[] = {NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_NN, NOISE_PATTERN_N};
        p.pattern = pick(pats, "pattern"); p.dh = NOISE_DH_CURVE25519; p.cipher = choose(2, "cipher") ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY; p.hash = choose(2, "hash") ? NOISE_HASH_BLAKE2b : NOISE_HASH_SHA256;
        int len = LEN + choose(g().thorough ? 1100 : 280, "length");
        sh = {len, len, len};
    } else if (part == 5) {     // large payloads and prologues
        p = core[choose((int)core.size(), "protocol")];
        if (choose(2, "other algorithms")) { p.cipher = NOISE_CIPHER_AESGCM; p.hash = NOISE_HASH_SHA512; }
        static const int big[] = {LEN + 4095, LEN + 4096, LEN + 16384, LEN + 32768, LEN + 65000, FULL};
        size_t n = rn::find(p.pattern)->msgs.size(); size_t k = choose((int)n, "message"); pro = choose(3, "prologue"); if (pro) pro += 4;
        sh.assign(n, 0); sh[k] = pick(big, "size"); if (pro == 6) sh.assign(n, sh[k]);
    } else if (part == 6) {     // prologue, pre-shared key, keys and ephemerals set two or three times with different values
        p = core[choose((int)core.size(), "protocol")];
        static const int pros[] = {2, 3, 4, 1};
        again = 1 + choose(5, "the earlier prologue"); pro = pick(pros, "prologue"); keyset = choose(2, "keyset"); if (choose(2, "three times")) again += 6;
        sh = {0, 3, 1};
    } else if (part == 7) {     // keys that are equal, special pre-shared keys and prologues
        p = core[choose((int)core.size(), "protocol")]; int a = choose(3, "other algorithms");
        if (a) { if (p.dh == NOISE_DH_CURVE25519 && a == 1) { p.dh = NOISE_DH_CURVE448; if (p.hybrid) p.hybrid = NOISE_DH_CURVE448; } p.cipher = NOISE_CIPHER_AESGCM; p.hash = a == 1 ? NOISE_HASH_SHA512 : NOISE_HASH_SHA256; }
        same = 1 + choose(SAME, "coincidence"); pro = 2 + same % 3; keyset = same & 1; sh = {1, 0, 3};
    } else {                    // thorough: every name x every shape
        p = all[choose((int)all.size(), "protocol")];
        int s = choose(12, "shape"); pro = choose(5, "prologue");
        mode = choose(2, "mode"); sh = {s, (s + 3) % 12, (s + 7) % 12}; keyset = choose(2, "keyset");
    }
    while (sh.size() < 3) sh.push_back(0);
    shard();
    rng::reset(hash_str(vec(g().choices)) ^ g().seed);
    run(p, mode, pro, sh, nul, by_id, keyset, again, same);
}
VH_MAIN2(body, rng::install)
