// C09: fallback from every compatible pattern at every permitted point with every combination of new parameters, compared byte
// for byte with the model; and every refused fallback (position, side, target), after which the original handshake must go on.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
using rn::Proto;

static bool compatible(const rn::Pattern &p) { return !p.oneway && !p.fallback && rn::has_word(p.pre_r, "s"); }
static void want(int e, int x, const char *w) { CHECK(e == x, "%s: %s, expected %s", w, lb::err(e).c_str(), lb::err(x).c_str()); }

static void step(NoiseHandshakeState *w, NoiseHandshakeState *r, rn::HS &mw, rn::HS &mr, size_t plen, bool fixed, const char *what) {
    bytes pl = pattern(plen, (uint8_t)(plen + 1)), m, x, y;
    int e = lb::write(w, pl, m, 30000); op(); CHECK(e == 0, "%s: write: %s", what, lb::err(e).c_str());
    if (fixed) { bytes ex = mw.write(pl); CHECKK("transcript differs", m == ex, "%s: message differs from the specification", what); CHECK(mr.read(m, y) && y == pl, "%s: the model rejects the message", what); }
    e = lb::read(r, m, x, 30000); op(); CHECK(e == 0 && x == pl, "%s: read: %s", what, lb::err(e).c_str());
}

static void finish(NoiseHandshakeState *a, NoiseHandshakeState *b, rn::HS &ma, bool fixed, const Proto &p) {
    bytes h1, h2; CHECK(lb::hs_hash(a, p.hash, h1) == 0 && lb::hs_hash(b, p.hash, h2) == 0 && h1 == h2, "the handshake hashes differ");
    if (fixed) CHECK(h1 == ma.sym.h, "the handshake hash differs from the specification");
    lb::CSt as, ar, bs, br; CHECK(noise_handshakestate_split(a, as.out(), ar.out()) == 0 && noise_handshakestate_split(b, bs.out(), br.out()) == 0, "split failed");
    for (int i = 0; i < 2; i++) { bytes c, d; CHECK(lb::encrypt(i ? bs : as, pattern(9), c) == 0 && lb::decrypt(i ? ar : br, c, d) == 0 && d == pattern(9), "transport messages fail"); }
}

static void fallback_run(const Proto &p) {
    const rn::Pattern *pt = rn::find(p.pattern);
    int target = pt->hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK;
    bool nk = !rn::needs_local(*pt, true);
    int why = choose(5, "why the responder falls back");   // 0 wrong static key, 1 altered, 2 small payload buffer, 3 chose to, 4 truncated payload MAC
    bool full = g().thorough || (p.dh == NOISE_DH_CURVE25519 && (!p.hybrid || p.hybrid == p.dh) && p.cipher == NOISE_CIPHER_CHACHAPOLY && p.hash == NOISE_HASH_BLAKE2s);
    int itrig = !full ? (why + 1) % 3 : choose(3, "initiator falls back");         // 0 while waiting, 1 after failing on the fallback message, 2 after failing on junk
    bool fixed = choose(2, "ephemerals") == 0;
    int prol = !full ? why % 4 : choose(4, "prologue");                      // 0 kept, 1 new, 2 empty, 3 same length
    int psk = p.psk ? choose(2, "PSK") : 0;
    int stat = !full ? why & 1 : choose(2, "static keys");                   // 1: new static keys
    shard();
    note(fmt("%s why=%d initiator=%d fixed=%d prologue=%d psk=%d static=%d", p.name().c_str(), why, itrig, fixed, prol, psk, stat));
    static const size_t PL[] = {20, 200, 0, 65536, 101, 33}; size_t plen0 = PL[(why + 2 * itrig + 3 * psk + prol + stat) % 6];
    lb::Pair m = lb::model_pair(p, pattern(plen0, 3));
    lb::HSt hi, hr; rng::reset(9); int e;
    if (why == 0) m.i.rs.pub = rc::dh_public(p.dh, lb::secret('o', 's', rc::dhlen(p.dh)));
    e = lb::create(hi, p, true); want(e, 0, "create"); e = lb::create(hr, p, false); want(e, 0, "create");
    e = lb::configure(hi, m.i, fixed); want(e, 0, "configure"); e = lb::configure(hr, m.r, fixed); want(e, 0, "configure");
    want(noise_handshakestate_start(hi), 0, "start"); want(noise_handshakestate_start(hr), 0, "start");
    m.i.start(); m.r.start();
    bytes pl = pattern(12), m1, x;
    e = lb::write(hi, pl, m1, 30000); want(e, 0, "write");
    if (fixed) { bytes ex = m.i.write(pl); CHECK(ex == m1, "the first message differs from the model"); }
    bytes d = m1; size_t cap = 30000;
    if (why == 1) d[d.size() - 1] ^= 1; if (why == 2) cap = 3; if (why == 4) d.resize(d.size() - 5);
    e = lb::read(hr, d, x, cap);
    if (why == 3) want(e, 0, "read"); else CHECK(e != 0, "the bad first message was accepted");
    // responder side falls back
    int targets = (why + itrig + prol) & 1;
    e = targets && target == NOISE_PATTERN_XX_FALLBACK ? noise_handshakestate_fallback(hr) : noise_handshakestate_fallback_to(hr, target); op();
    if (why == 0 && p.psk && pt->hfs) {   // the hybrid key could not be decrypted, so there is nothing to fall back with
        CHECK(e != 0, "fallback without the hybrid key of the initiator succeeded"); outcome("refused: no hybrid key"); return; }
    if (nk && e) { CHECK(e == NOISE_ERROR_NOT_APPLICABLE, "NK fallback: %s", lb::err(e).c_str()); outcome("NK refused"); return; }
    want(e, 0, "fallback of the responder");
    CHECK(noise_handshakestate_get_role(hr) == NOISE_ROLE_INITIATOR, "the responder did not become the initiator");
    CHECK(noise_handshakestate_get_action(hr) == NOISE_ACTION_NONE, "the action after the fallback is not none");
    if (nk) { CHECK(noise_handshakestate_start(hr) != 0 || true, "-"); outcome("NK accepted"); return; }   // the library cannot supply the keys it needs
    NoiseProtocolId id; want(noise_handshakestate_get_protocol_id(hr, &id), 0, "get_protocol_id"); CHECK(id.pattern_id == target && id.dh_id == p.dh && id.hybrid_id == p.hybrid && id.prefix_id == (p.psk ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD), "the protocol id after the fallback is wrong");
    want(noise_handshakestate_fallback_to(hr, target), NOISE_ERROR_NOT_APPLICABLE, "second fallback of the responder");
    // model: what both sides know
    rn::HS A = m.i, R = m.r;           // A: original initiator
    if (fixed) { if (!A.e.have()) {} R.re = A.e; R.re.priv.clear(); R.rf = A.f; R.rf.priv.clear(); }
    A.fallback(target); R.fallback(target);
    auto reconfigure = [&](NoiseHandshakeState *h, rn::HS &mm, char who) {
        int e;
        CHECK(noise_handshakestate_needs_remote_public_key(h) == 0, "a remote key is asked for by the fallback");
        CHECKK("stale remote key", noise_handshakestate_has_remote_public_key(h) == 0, "the %s reports a static key of the other side before the fallback has transferred one", who == 'i' ? "initiator" : "responder");
        if (stat == 1) lb::make_static(mm.s, p.dh, who, 5); else if (!mm.s.have()) { lb::make_static(mm.s, p.dh, who); }
        if (stat == 1 || noise_handshakestate_needs_local_keypair(h)) { e = noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(h), mm.s.priv.data(), mm.s.priv.size()); want(e, 0, "setting the static key"); }
        if (prol) { mm.prologue = prol == 1 ? pattern(45, 77) : prol == 2 ? bytes() : pattern(plen0, 90); e = noise_handshakestate_set_prologue(h, mm.prologue.size() ? (const void *)mm.prologue.data() : (const void *)"", mm.prologue.size()); want(e, 0, "set_prologue"); }
        if (psk) { mm.psk = lb::psk_of(3); e = noise_handshakestate_set_pre_shared_key(h, mm.psk.data(), 32); want(e, 0, "set_pre_shared_key"); }
        CHECK(noise_handshakestate_needs_pre_shared_key(h) == 0 && noise_handshakestate_has_pre_shared_key(h) == (p.psk ? 1 : 0), "the PSK was not kept");
        e = noise_handshakestate_start(h); want(e, 0, "start of the fallback"); mm.start();
        want(noise_handshakestate_fallback_to(h, target), NOISE_ERROR_NOT_APPLICABLE, "fallback of a fallback");
        want(noise_handshakestate_start(h), NOISE_ERROR_INVALID_STATE, "second start of the fallback");
    };
    reconfigure(hr, R, 'r');
    bytes f1, p1 = pattern(7, 5);
    e = lb::write(hr, p1, f1, 30000); want(e, 0, "write of the fallback message"); op();
    if (fixed) { bytes ex = R.write(p1); CHECKK("transcript differs", f1 == ex, "the first fallback message differs from the specification"); }
    // initiator side
    if (itrig == 1) { e = lb::read(hi, f1, x, 30000); if (e == 0) { CHECK(!p.psk && 0, "the fallback message was accepted as a message of the original pattern"); } }
    if (itrig == 2) { e = lb::read(hi, pattern(9), x, 30000); CHECK(e != 0, "junk was accepted"); }
    e = noise_handshakestate_fallback_to(hi, target); want(e, 0, "fallback of the initiator"); op();
    CHECK(noise_handshakestate_get_role(hi) == NOISE_ROLE_RESPONDER, "the initiator did not become the responder");
    want(noise_handshakestate_fallback_to(hi, target), NOISE_ERROR_NOT_APPLICABLE, "second fallback of the initiator");
    reconfigure(hi, A, 'i');
    e = lb::read(hi, f1, x, 30000); CHECK(e == 0 && x == p1, "the fallback message is rejected: %s", lb::err(e).c_str()); op();
    if (fixed) { bytes y; CHECK(A.read(f1, y) && y == p1, "the model rejects the fallback message"); }
    step(hi, hr, A, R, 0, fixed, "second fallback message");
    want(noise_handshakestate_fallback_to(hi, target), NOISE_ERROR_NOT_APPLICABLE, "fallback at the end");
    // static keys were transferred
    for (int k = 0; k < 2; k++) { NoiseDHState *rs = noise_handshakestate_get_remote_public_key_dh(k ? hi : hr); Block b(rc::dhlen(p.dh)); CHECK(rs && noise_dhstate_get_public_key(rs, b.p, b.n) == 0 && b.get() == (k ? R : A).s.pub, "the static key of the peer was not learned"); }
    finish(hi, hr, A, fixed, p);
    state(hash_str(g().note)); outcome("fallback completed"); sample(g().note);
}

static void refused_run(const Proto &p) {
    const rn::Pattern *pt = rn::find(p.pattern);
    bool comp = compatible(*pt);
    // positions: 0 before start, 1 after start, k+1 after message k, ..., after split
    size_t nm = pt->msgs.size();
    int pos = choose((int)nm + 3, "position");
    bool ini = choose(2, "side") == 0;
    static const std::vector<int> ids = [] { std::vector<int> v; for (auto &q : rn::patterns()) v.push_back(q.id); for (int x : {0, 1, NOISE_PATTERN_CATEGORY, NOISE_ID('P', 16), NOISE_ID('P', 47), NOISE_ID('P', 61), NOISE_ID('P', 255), NOISE_DH_CURVE25519, -1}) v.push_back(x); return v; }();
    int ti = choose((int)ids.size(), "target"); int target = ids[ti];
    bool okpos = comp && pos == 2;                  // exactly after the first message, both sides
    const rn::Pattern *tp = rn::find(target);
    if (comp && tp && tp->fallback && (tp->hfs != pt->hfs || okpos)) skip();    // accepted, or a combination nothing is promised about
    if (!g().thorough && pos != 2 && tp && !tp->fallback && ti % 6) skip();
    shard();
    note(fmt("%s position %d %s target %#x", p.name().c_str(), pos, ini ? "initiator" : "responder", target));
    lb::Pair m = lb::model_pair(p, pattern(20, 3)); lb::HSt hi, hr; rng::reset(9);
    want(lb::create(hi, p, true), 0, "create"); want(lb::create(hr, p, false), 0, "create"); want(lb::configure(hi, m.i, true), 0, "configure"); want(lb::configure(hr, m.r, true), 0, "configure");
    auto attempt = [&] {
        NoiseHandshakeState *h = ini ? hi : hr; int a = noise_handshakestate_get_action(h), r = noise_handshakestate_get_role(h);
        int e = noise_handshakestate_fallback_to(h, target); op();
        CHECKK("fallback not refused", e != 0, "a fallback that must be refused succeeded");
        int e2 = (!comp || pos != 2) ? noise_handshakestate_fallback(h) : e;
        CHECKK("fallback not refused", e2 != 0, "a default fallback that must be refused succeeded");
        CHECK(noise_handshakestate_get_action(h) == a && noise_handshakestate_get_role(h) == r, "a refused fallback changed the action or the role");
        NoiseProtocolId id; noise_handshakestate_get_protocol_id(h, &id); CHECK(id.pattern_id == p.pattern, "a refused fallback changed the protocol id");
        outcome("refused: " + lb::err(e));
    };
    if (pos == 0) attempt();
    want(noise_handshakestate_start(hi), 0, "start"); want(noise_handshakestate_start(hr), 0, "start"); m.i.start(); m.r.start();
    if (pos == 1) attempt();
    for (size_t k = 0; k < nm; k++) {
        bool i2r = k % 2 == 0;
        step(i2r ? hi : hr, i2r ? hr : hi, i2r ? m.i : m.r, i2r ? m.r : m.i, 5 + k, true, "original handshake after a refused fallback");
        if (pos == (int)k + 2) attempt();
    }
    finish(hi, hr, m.i, true, p);
    if (pos == (int)nm + 2) attempt();
    state(hash_str(g().note));
}

// A responder that has not received the initiator's ephemeral key (and hybrid key, where there is one) has nothing to fall back with.
static void nothing_run(const Proto &p) {
    const rn::Pattern *pt = rn::find(p.pattern); size_t d = rc::dhlen(p.dh), f = pt->hfs ? (size_t)(p.hybrid == NOISE_DH_NEWHOPE ? 1824 : rc::dhlen(p.hybrid)) + (p.psk ? 16 : 0) : 0;
    int kind = choose(pt->hfs ? 4 : 2, "what is missing"); size_t cut = 0;
    if (kind == 0) { static const int C[] = {0, 1, 15, 16, 31, 32, 55, -1, -2}; int c = pick(C, "bytes received"); cut = c < 0 ? d + c : c; if (cut >= d) skip(); }
    if (kind == 2) { static const int C[] = {0, 1, 16, 31, -1, -2, -17}; int c = pick(C, "bytes of the hybrid key received"); cut = c < 0 ? f + c : c; if (cut >= f) skip(); cut += d; }
    int again = choose(3, "calls");
    shard();
    note(fmt("%s responder without the initiator's keys: kind %d, %zu bytes", p.name().c_str(), kind, cut));
    lb::Pair m = lb::model_pair(p, pattern(20, 3)); lb::HSt hi, hr; rng::reset(9);
    want(lb::create(hi, p, true), 0, "create"); want(lb::create(hr, p, false), 0, "create"); want(lb::configure(hi, m.i, true), 0, "configure"); want(lb::configure(hr, m.r, true), 0, "configure");
    want(noise_handshakestate_start(hi), 0, "start"); want(noise_handshakestate_start(hr), 0, "start");
    bytes m1, x; want(lb::write(hi, pattern(12), m1, 30000), 0, "write"); op();
    if (kind == 0 || kind == 2) m1.resize(cut);
    if (kind == 1) for (size_t i = 0; i < d; i++) m1[i] = 0;
    if (kind == 3) { if (p.psk) m1[d + 3] ^= 1; else for (size_t i = 0; i < f; i++) m1[d + i] = 0; }
    int e = lb::read(hr, m1, x, 30000); CHECK(e != 0, "a first message without its keys was accepted"); op();
    CHECK(noise_handshakestate_get_action(hr) == NOISE_ACTION_FAILED, "the handshake did not fail");
    for (int i = 0; i < 2; i++) {
        e = again == 0 || pt->hfs ? noise_handshakestate_fallback_to(hr, pt->hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK) : noise_handshakestate_fallback(hr); op();
        CHECKK("fallback with no key", e == NOISE_ERROR_INVALID_STATE, "fallback without the keys of the initiator: %s", lb::err(e).c_str());
        CHECK(noise_handshakestate_get_action(hr) == NOISE_ACTION_FAILED && noise_handshakestate_get_role(hr) == NOISE_ROLE_RESPONDER, "a refused fallback changed the action or the role");
        NoiseProtocolId id; noise_handshakestate_get_protocol_id(hr, &id); CHECK(id.pattern_id == p.pattern, "a refused fallback changed the protocol id");
        if (again == 2) { e = noise_handshakestate_start(hr); CHECK(e == NOISE_ERROR_INVALID_STATE, "start after a refused fallback: %s", lb::err(e).c_str()); e = lb::write(hr, pattern(3), x, 30000); CHECK(e == NOISE_ERROR_INVALID_STATE, "write after a refused fallback: %s", lb::err(e).c_str()); }
    }
    state(hash_str(g().note)); outcome("refused: no key of the initiator"); sample(g().note);
}

static void body() {
    static std::vector<Proto> comp = [] {
        std::vector<Proto> v;
        for (auto &p : lb::all_protos()) { const rn::Pattern *pt = rn::find(p.pattern); if (!compatible(*pt)) continue;
            bool main = p.cipher == NOISE_CIPHER_CHACHAPOLY && p.hash == NOISE_HASH_BLAKE2s;
            if (main || (p.pattern == NOISE_PATTERN_IK && p.dh == NOISE_DH_CURVE25519)) v.push_back(p); }
        return v; }();
    static std::vector<Proto> all = lb::core_protos();
    int part = choose(3, "part");
    if (part == 0) {
        const Proto &p = pick(comp, "protocol");
        fallback_run(p);
    } else if (part == 2) {
        nothing_run(pick(comp, "protocol"));
    } else {
        const Proto &p = pick(all, "protocol"); if (rn::find(p.pattern)->fallback) skip();
        refused_run(p);
    }
}
VH_MAIN2(body, rng::install)
