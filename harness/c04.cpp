// C04: every sequence of key-supplying operations up to a bound, for every pattern, prefix and role; the needs/has queries
// after every step and the result of starting are compared with a model of what the pattern requires.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;

enum { NONE, PUB, PAIR, NUL };
struct M { int loc = NONE, rem = NONE; bool psk = false, started = false, prol = false; };
struct Op { const char *name; };
enum { O_LPRIV, O_LPAIR, O_LPUB, O_LGEN, O_LCLEAR, O_LBAD, O_LBADLEN, O_RPUB, O_RPAIR, O_RNULL, O_RCLEAR, O_RBADLEN, O_PSK, O_PSKBAD, O_START, O_PROLOGUE, O_COUNT };
static const char *oname[] = {"set local private key", "set local keypair", "set local public key only", "generate local keypair", "clear local key", "set mismatched local keypair", "set local key of wrong length",
    "set remote public key", "set remote keypair", "set null remote key", "clear remote key", "set remote key of wrong length", "set PSK", "set PSK of wrong length", "start", "set prologue"};

static void body() {
    static std::vector<rn::Proto> protos = [] {
        std::vector<rn::Proto> v = lb::core_protos();
        rn::Proto n; n.pattern = NOISE_PATTERN_NN; n.dh = NOISE_DH_NEWHOPE; n.cipher = NOISE_CIPHER_AESGCM; n.hash = NOISE_HASH_SHA512; v.push_back(n); n.psk = true; v.push_back(n);
        for (int pat : {NOISE_PATTERN_XK, NOISE_PATTERN_KK_HFS}) { rn::Proto p; p.pattern = pat; p.psk = true; p.dh = NOISE_DH_CURVE448; if (rn::find(pat)->hfs) p.hybrid = NOISE_DH_NEWHOPE; p.cipher = NOISE_CIPHER_AESGCM; p.hash = NOISE_HASH_SHA256; v.push_back(p); }
        return v; }();
    const rn::Proto &q = pick(protos, "protocol");
    bool ini = choose(2, "role") == 0;
    const rn::Pattern *pt = rn::find(q.pattern);
    int depth = g().thorough ? 4 : 3;
    int first = choose(O_COUNT + 1, "first operation");
    shard();
    note(q.name() + (ini ? " initiator" : " responder"));
    lb::Pair mp = lb::model_pair(q, pattern(20, 3));
    rn::HS m = ini ? mp.i : mp.r; 
    bool need_l = rn::needs_local(*pt, ini), need_r = rn::knows_remote_before(*pt, ini), need_p = q.psk;
    size_t dl = rc::dhlen(q.dh);
    lb::HSt h; rng::reset(3);
    int e = lb::create(h, q, ini); CHECK(e == 0, "create: %s", lb::err(e).c_str());
    NoiseDHState *L = noise_handshakestate_get_local_keypair_dh(h), *R = noise_handshakestate_get_remote_public_key_dh(h);
    CHECK(!need_l || L, "no local static key object although the pattern uses one");
    CHECK(!need_r || R, "no remote static key object although the pattern uses one");
    M s; bytes lpub, rpub; std::string hist;
    auto query = [&](const char *after) {
        bool hl = noise_handshakestate_has_local_keypair(h), nl = noise_handshakestate_needs_local_keypair(h), hr = noise_handshakestate_has_remote_public_key(h), nr = noise_handshakestate_needs_remote_public_key(h);
        bool hp = noise_handshakestate_has_pre_shared_key(h), np = noise_handshakestate_needs_pre_shared_key(h);
        CHECK(hl == (s.loc == PAIR), "after %s: has_local_keypair %d", after, hl);
        CHECK(nl == (need_l && s.loc != PAIR), "after %s: needs_local_keypair %d", after, nl);
        CHECK(hr == (s.rem != NONE), "after %s: has_remote_public_key %d", after, hr);
        CHECK(nr == (need_r && s.rem == NONE), "after %s: needs_remote_public_key %d", after, nr);
        CHECK(hp == s.psk, "after %s: has_pre_shared_key %d", after, hp);
        CHECK(np == (need_p && !s.psk), "after %s: needs_pre_shared_key %d", after, np);
        int a = noise_handshakestate_get_action(h);
        CHECK(s.started ? a == (ini ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE) : a == NOISE_ACTION_NONE, "after %s: action %s", after, lb::act(a).c_str());
    };
    auto start = [&](const char *when) {
        int e = noise_handshakestate_start(h); op();
        bool okl = !need_l || s.loc == PAIR, okr = !need_r || s.rem != NONE, okp = !need_p || s.psk;
        if (s.started) CHECK(e == NOISE_ERROR_INVALID_STATE, "second start: %s", lb::err(e).c_str());
        else if (pt->fallback) CHECKK("start of a fallback pattern", e == NOISE_ERROR_NOT_APPLICABLE, "starting a fallback pattern directly returned %s (local %d, remote %d)", lb::err(e).c_str(), s.loc, s.rem);
        else if (okl && okr && okp) { CHECK(e == 0, "start %s with everything supplied: %s", when, lb::err(e).c_str()); s.started = true; }
        else CHECK((e == NOISE_ERROR_LOCAL_KEY_REQUIRED && !okl) || (e == NOISE_ERROR_REMOTE_KEY_REQUIRED && !okr) || (e == NOISE_ERROR_PSK_REQUIRED && !okp),
                   "start %s returned %s; missing:%s%s%s", when, lb::err(e).c_str(), okl ? "" : " local", okr ? "" : " remote", okp ? "" : " psk");
        outcome(std::string("start: ") + (e ? lb::err(e) : "ok"));
    };
    query("creation");
    bytes lpriv = lb::secret(ini ? 'i' : 'r', 's', dl ? dl : 64), rpriv = lb::secret(ini ? 'r' : 'i', 's', dl ? dl : 64);
    for (int k = 0; k < depth; k++) {
        int o = k == 0 ? first : choose(O_COUNT + 1, "operation");
        if (o == O_COUNT) break;
        bool pre = !s.started;    // key objects are only changed before the start here
        tracef("%s", oname[o]); hist += std::string(hist.empty() ? "" : ", ") + oname[o];
        op();
        switch (o) {
        case O_LPRIV: case O_LPAIR: case O_LPUB: case O_LGEN: case O_LCLEAR: case O_LBAD: case O_LBADLEN: {
            if (!L || !pre) skip();
            bytes pub = rc::dh_public(q.dh, lpriv);
            if (o == O_LPRIV) { e = noise_dhstate_set_keypair_private(L, lpriv.data(), dl); s.loc = PAIR; lpub = pub; CHECK(e == 0, "%s", lb::err(e).c_str()); }
            if (o == O_LPAIR) { e = noise_dhstate_set_keypair(L, lpriv.data(), dl, pub.data(), dl); s.loc = PAIR; lpub = pub; CHECK(e == 0, "%s", lb::err(e).c_str()); }
            if (o == O_LPUB) { e = noise_dhstate_set_public_key(L, pub.data(), dl); s.loc = PUB; CHECK(e == 0, "%s", lb::err(e).c_str()); }
            if (o == O_LGEN) { e = noise_dhstate_generate_keypair(L); s.loc = PAIR; CHECK(e == 0, "%s", lb::err(e).c_str()); }
            if (o == O_LCLEAR) { e = noise_dhstate_clear_key(L); s.loc = NONE; CHECK(e == 0, "%s", lb::err(e).c_str()); }
            if (o == O_LBAD) { bytes bad = pub; bad[1] ^= 4; e = noise_dhstate_set_keypair(L, lpriv.data(), dl, bad.data(), dl); CHECK(e != 0, "a mismatched keypair was accepted"); s.loc = noise_dhstate_has_keypair(L) ? PAIR : noise_dhstate_has_public_key(L) ? PUB : NONE; }
            if (o == O_LBADLEN) { e = noise_dhstate_set_keypair_private(L, lpriv.data(), dl - 1); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "%s", lb::err(e).c_str()); }
            break; }
        case O_RPUB: case O_RPAIR: case O_RNULL: case O_RCLEAR: case O_RBADLEN: {
            if (!R || !pre) skip();
            bytes pub = rc::dh_public(q.dh, rpriv);
            if (o == O_RPUB) { e = noise_dhstate_set_public_key(R, pub.data(), dl); s.rem = PUB; }
            if (o == O_RPAIR) { e = noise_dhstate_set_keypair_private(R, rpriv.data(), dl); s.rem = PAIR; }
            if (o == O_RNULL) { e = noise_dhstate_set_null_public_key(R); s.rem = NUL; }
            if (o == O_RCLEAR) { e = noise_dhstate_clear_key(R); s.rem = NONE; }
            if (o == O_RBADLEN) { e = noise_dhstate_set_public_key(R, pub.data(), dl - 1); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "%s", lb::err(e).c_str()); e = 0; }
            CHECK(e == 0, "%s: %s", oname[o], lb::err(e).c_str());
            break; }
        case O_PSK: {
            e = noise_handshakestate_set_pre_shared_key(h, m.psk.size() ? m.psk.data() : lpriv.data(), 32);
            int x = !q.psk ? NOISE_ERROR_NOT_APPLICABLE : s.started ? NOISE_ERROR_INVALID_STATE : 0;
            CHECK(e == x, "set PSK: %s", lb::err(e).c_str()); if (!e) s.psk = true;
            break; }
        case O_PSKBAD: {
            int n = k % 2 ? 31 : 33; Block b(40);
            e = noise_handshakestate_set_pre_shared_key(h, b.p, n); CHECK(e != 0, "a PSK of %d bytes was accepted", n);
            e = noise_handshakestate_set_pre_shared_key(h, b.p, 0); CHECK(e != 0, "an empty PSK was accepted");
            break; }
        case O_START: start("early"); break;
        case O_PROLOGUE: e = noise_handshakestate_set_prologue(h, m.prologue.data(), m.prologue.size()); CHECK(e == (s.started ? NOISE_ERROR_INVALID_STATE : 0), "set_prologue: %s", lb::err(e).c_str()); if (!e) s.prol = true; break;
        }
        query(oname[o]);
        state(hash_str(fmt("%s %d %d %d %d %d", q.name().c_str(), ini, s.loc, s.rem, s.psk, s.started)));
    }
    if (!s.started) start("after these operations");
    query("start");
    if (pt->fallback) {    // also not with every item present
        if (L) noise_dhstate_set_keypair_private(L, lpriv.data(), dl);
        if (R) { bytes pub = rc::dh_public(q.dh, rpriv); noise_dhstate_set_public_key(R, pub.data(), dl); }
        if (q.psk) noise_handshakestate_set_pre_shared_key(h, m.psk.data(), 32);
        NoiseDHState *f = noise_handshakestate_get_fixed_ephemeral_dh(h); if (f) noise_dhstate_generate_keypair(f);
        e = noise_handshakestate_start(h);
        CHECKK("start of a fallback pattern", e == NOISE_ERROR_NOT_APPLICABLE, "starting a fallback pattern with every key supplied returned %s", lb::err(e).c_str());
        bytes o; e = lb::write(h, pattern(3), o, 4096); CHECK(e != 0, "a fallback pattern that was not entered by fallback wrote a message");
        sample(g().note + ": " + hist);
        return;
    }
    if (!s.started) {      // supply what is missing; nothing else may be needed, and nothing was consumed
        bytes rp = dl ? rc::dh_public(q.dh, rpriv) : bytes();
        if (need_l && s.loc != PAIR) { e = noise_dhstate_set_keypair_private(L, lpriv.data(), dl); CHECK(e == 0, "supplying the local key: %s", lb::err(e).c_str()); s.loc = PAIR; }
        if (need_r && s.rem == NONE) { e = noise_dhstate_set_public_key(R, rp.data(), dl); CHECK(e == 0, "supplying the remote key: %s", lb::err(e).c_str()); s.rem = PUB; }
        if (need_p && !s.psk) { e = noise_handshakestate_set_pre_shared_key(h, m.psk.data(), 32); CHECK(e == 0, "supplying the PSK: %s", lb::err(e).c_str()); s.psk = true; }
        query("supplying what was missing");
        start("after supplying what was missing");
        query("start");
    }
    // First message as the model prescribes for the keys now present.
    if (s.rem == NUL && need_r) { outcome("started with a null remote key"); return; }
    rn::HS p = ini ? mp.r : mp.i;
    if (L && s.loc == PAIR) { Block b(dl), b2(dl); noise_dhstate_get_keypair(L, b.p, dl, b2.p, dl); m.s.priv = b.get(); m.s.pub = b2.get(); CHECK(m.s.pub == rc::dh_public(q.dh, m.s.priv), "the local keypair is inconsistent"); p.rs.pub = rn::knows_remote_before(*pt, !ini) ? m.s.pub : bytes(); }
    if (need_r) { Block b(dl); noise_dhstate_get_public_key(R, b.p, dl); CHECK(b.get() == rc::dh_public(q.dh, rpriv), "the remote key is not the one supplied"); }
    m.prologue = s.prol ? mp.i.prologue : bytes(); p.prologue = m.prologue;
    p.start(); bytes got, out;
    if (ini) {
        e = lb::write(h, pattern(5), out, 5000); CHECK(e == 0, "first message: %s", lb::err(e).c_str());
        CHECK(p.read(out, got) && got == pattern(5), "the peer rejects the first message");
    } else {
        bytes msg = p.write(pattern(5));
        e = lb::read(h, msg, got, 5); CHECK(e == 0 && got == pattern(5), "the first message of the peer is rejected: %s", lb::err(e).c_str());
    }
    outcome("started and first message exchanged");
    sample(g().note + ": " + hist);
}
VH_MAIN2(body, rng::install)
