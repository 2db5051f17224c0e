// C05: two library parties that disagree on exactly one (or more) configuration items run against each other for every kind of
// disagreement; no encrypted payload, and no transport message, may ever be accepted.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
using rn::Proto;

enum { K_PROLOGUE, K_PSK, K_RS_OF_I, K_RS_OF_R, K_NAME, K_ROLE, K_PATTERN, K_COUNT };
static const char *kname[] = {"prologue", "PSK", "initiator's idea of the responder's key", "responder's idea of the initiator's key", "algorithm", "role", "pattern or prefix"};

struct Variant { int kind; int a, b; };

static std::vector<bytes> prologues() {
    bytes base = pattern(130, 9, 3);
    std::vector<bytes> v = {bytes(), bytes(1, 0), bytes(2, 0), base.substr(0, 31), base.substr(0, 32), base.substr(0, 64), base.substr(0, 65), base.substr(0, 129), base};
    for (int i : {0, 31, 63, 64, 65, 127, 128, 129}) for (int bit : {0, 7}) { bytes x = base; x[i] ^= 1 << bit; v.push_back(x); }
    return v;
}

// Pairs of long prologues: one a prefix of the other (cut at every power of two and at the length of a message), or different in one byte far behind.
static std::vector<std::pair<bytes, bytes>> long_pairs() {
    std::vector<std::pair<bytes, bytes>> v; bytes big = pattern(131072 + 140, 9, 3); auto flip = [&](size_t n, size_t at) { bytes x = big.substr(0, n); x[at] ^= 0x10; return x; };
    for (size_t k : {(size_t)256, (size_t)4096, (size_t)32768, (size_t)65536, (size_t)131072}) { for (size_t n : {(size_t)0, (size_t)1, (size_t)130}) v.push_back({big.substr(0, n), big.substr(0, k + n)}); v.push_back({big.substr(0, k - 1), big.substr(0, k)}); v.push_back({big.substr(0, k + 7), flip(k + 7, k + 6)}); v.push_back({big.substr(0, k + 7), flip(k + 7, k - 1)}); v.push_back({big.substr(0, k + 7), flip(k + 7, 0)}); }
    v.push_back({big.substr(0, 65535), big.substr(0, 65537)}); v.push_back({big.substr(0, 65519), big.substr(0, 65535)});
    return v;
}

static void body() {
    static const std::vector<std::pair<bytes, bytes>> longp = long_pairs();
    static std::vector<Proto> core = lb::core_protos();
    static std::vector<bytes> prol = prologues();
    static const std::set<int> rich = {NOISE_PATTERN_N, NOISE_PATTERN_NN, NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_XX_HFS, NOISE_PATTERN_K};
    // choices: protocol, kind, variant
    int pi = choose((int)core.size(), "protocol");
    Proto p = core[pi], q = p;
    const rn::Pattern *pt = rn::find(p.pattern);
    if (pt->fallback) skip();
    int kind = choose(K_COUNT, "kind of difference");
    bool deep = g().thorough || rich.count(p.pattern);
    bytes pa = pattern(20, 3), pb = pa; int psk_bit = -1; std::string what = kname[kind];
    bool ri = true, rr = false; int rsi = 0, rsr = 0;
    switch (kind) {
    case K_PROLOGUE: {
        bool lng = (g().thorough || p.pattern == NOISE_PATTERN_NN || p.pattern == NOISE_PATTERN_IK) && choose(2, "long prologues");
        if (lng) { auto &pr = pick(longp, "pair"); pa = pr.first; pb = pr.second; }
        else if (deep) { int a = choose((int)prol.size(), "prologue of the initiator"), b = choose((int)prol.size() - 1, "prologue of the responder"); if (b >= a) b++; pa = prol[a]; pb = prol[b]; }
        else { static const int pairs[][2] = {{0, 1}, {1, 0}, {4, 5}, {6, 5}, {7, 8}, {8, 9}, {8, 24}}; const int *pr = pairs[choose(7, "prologues")]; pa = prol[pr[0]]; pb = prol[pr[1]]; }
        break; }
    case K_PSK: if (!p.psk) skip(); psk_bit = choose(deep ? 256 : 3, "PSK bit"); if (!deep) psk_bit = psk_bit == 0 ? 0 : psk_bit == 1 ? 100 : 255; break;
    case K_RS_OF_I: if (!rn::knows_remote_before(*pt, true)) skip(); rsi = 1 + choose(3, "other key"); break;
    case K_RS_OF_R: if (!rn::knows_remote_before(*pt, false)) skip(); rsr = 1 + choose(3, "other key"); break;
    case K_NAME: {
        int f = choose(4, "field");
        if (f == 0) { q.dh = NOISE_DH_CURVE448; if (choose(2, "New Hope")) { q.dh = NOISE_DH_NEWHOPE; } }
        if (f == 1) { if (!pt->hfs) skip(); q.hybrid = choose(2, "hybrid") ? NOISE_DH_NEWHOPE : NOISE_DH_CURVE448; }
        if (f == 2) q.cipher = NOISE_CIPHER_AESGCM;
        if (f == 3) { static const int hs[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2b}; q.hash = pick(hs, "hash"); if (choose(2, "start from SHA256") && q.hash != NOISE_HASH_SHA256) p.hash = NOISE_HASH_SHA256; }
        if (!rn::supported(q)) skip();
        break; }
    case K_ROLE: ri = rr = choose(2, "both are") == 0; break;
    case K_PATTERN: {
        int qi = choose((int)core.size(), "protocol of the other side"); if (qi == pi) skip();
        q = core[qi]; if (rn::find(q.pattern)->fallback) skip();
        if (rn::find(q.pattern)->hfs == pt->hfs) {} 
        break; }
    }
    // message payload lengths: empty, or long enough to be parsed as whatever else the peer expects
    int plen = choose(2, "payloads") ? 150 : 0;
    bool swap = kind == K_ROLE ? false : choose(2, "which side has the odd value");
    // What the parties differ in may have been set before, to the value on which they would agree.
    bool again = deep && choose(2, "set before to the same on both sides");
    shard();
    if (swap) { std::swap(p, q); std::swap(pa, pb); }
    note(p.name() + " against " + q.name() + ": different " + what);
    rng::reset(5);
    lb::Pair ma = lb::model_pair(p, pa), mb = lb::model_pair(q, pb);
    // parties: A (initiator unless both responders), B
    rn::HS A = ri ? ma.i : ma.r, B = rr ? mb.i : mb.r;
    if (psk_bit >= 0) (swap ? A : B).psk[psk_bit / 8] ^= 1 << (psk_bit % 8);
    if (kind == K_ROLE) {   // same role on both sides: give both all keys they can have
    }
    auto otherkey = [&](int dh, int n, const bytes &right) { bytes k = n == 1 ? rc::dh_public(dh, lb::secret('z', 's', rc::dhlen(dh), 9)) : right; if (n == 2) k[0] ^= 1; if (n == 3) k[k.size() - 1] ^= 1; return k; };
    if (rsi) A.rs.pub = otherkey(p.dh, rsi, A.rs.pub);
    if (rsr) B.rs.pub = otherkey(q.dh, rsr, B.rs.pub);
    lb::HSt ha, hb; int e;
    rn::HS A0 = ri ? ma.i : ma.r, B0 = rr ? mb.i : mb.r; B0.prologue = A0.prologue;
    e = lb::create(ha, p, A.ini); CHECK(e == 0, "create: %s", lb::err(e).c_str());
    e = lb::create(hb, q, B.ini); CHECK(e == 0, "create: %s", lb::err(e).c_str());
    if (again) {
        e = lb::configure(ha, A0, true); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
        e = lb::configure(hb, B0, true); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
    }
    e = lb::configure(ha, A, true); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
    e = lb::configure(hb, B, true); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
    e = noise_handshakestate_start(ha); CHECK(e == 0, "start: %s", lb::err(e).c_str());
    e = noise_handshakestate_start(hb); CHECK(e == 0, "start: %s", lb::err(e).c_str());
    A.start(); B.start();
    // which messages carry an encrypted payload in the reader's eyes
    auto payload_key = [](const rn::HS &m) { std::vector<bool> v; bool k = m.sym.has_key; for (auto &ms : m.pat->msgs) { for (auto &t : ms) if (t.size() == 2 || (t == "e" && m.proto.psk)) k = true; v.push_back(k); } return v; };
    auto ka = payload_key(A), kb = payload_key(B);
    size_t na = 0, nb = 0;   // messages processed
    std::string log;
    for (int guard = 0; guard < 12; guard++) {
        int aa = noise_handshakestate_get_action(ha), ab = noise_handshakestate_get_action(hb);
        bool a2b;
        if (aa == NOISE_ACTION_WRITE_MESSAGE && ab == NOISE_ACTION_READ_MESSAGE) a2b = true;
        else if (ab == NOISE_ACTION_WRITE_MESSAGE && aa == NOISE_ACTION_READ_MESSAGE) a2b = false;
        else if (aa == NOISE_ACTION_WRITE_MESSAGE) {   // nobody reads: the other side must refuse
            bytes m, x; e = lb::write(ha, pattern(plen), m, 60000); op(); if (e) break; na++;
            e = lb::read(hb, m, x, 60000); CHECK(e != 0, "a message was accepted by a party that does not expect one"); break;
        } else break;
        bytes m, x; NoiseHandshakeState *w = a2b ? ha : hb, *r = a2b ? hb : ha;
        bytes pl = pattern(plen, (uint8_t)(guard + 1));
        e = lb::write(w, pl, m, 60000); op(); CHECK(e == 0, "write: %s", lb::err(e).c_str());
        (a2b ? na : nb)++;
        e = lb::read(r, m, x, 60000); op();
        size_t &nr = a2b ? nb : na; const auto &kr = a2b ? kb : ka;
        log += e ? "x" : "k";
        if (e) { CHECK(x.empty(), "a rejected message returned a payload"); break; }
        bool enc = nr < kr.size() ? kr[nr] : true;
        CHECK(!enc, "message %zu with an encrypted payload was accepted across a different %s", nr, what.c_str());
        nr++;
    }
    int aa = noise_handshakestate_get_action(ha), ab = noise_handshakestate_get_action(hb);
    state(hash_str(p.name() + q.name() + what + log + char('0' + ri) + char('0' + rr)));
    distinct(hash_str(g().note + log));
    outcome(what + ": " + (aa == NOISE_ACTION_SPLIT && ab == NOISE_ACTION_SPLIT ? "both reach the split" : "handshake fails"));
    if (aa == NOISE_ACTION_SPLIT || ab == NOISE_ACTION_SPLIT) {
        bytes h1, h2; int e1 = lb::hs_hash(ha, p.hash, h1), e2 = lb::hs_hash(hb, q.hash, h2);
        CHECK(e1 || e2 || h1 != h2, "equal handshake hashes across a different %s", what.c_str());
    }
    if (aa == NOISE_ACTION_SPLIT && ab == NOISE_ACTION_SPLIT) {
        lb::CSt as, ar, bs, br;
        CHECK(noise_handshakestate_split(ha, as.out(), ar.out()) == 0 && noise_handshakestate_split(hb, bs.out(), br.out()) == 0, "split failed");
        NoiseCipherState *snd[] = {as, bs}, *rcv[] = {br, ar, bs, as};
        for (auto *s : snd) for (auto *r : rcv) { if (s == r) continue; bytes c, d; noise_cipherstate_set_nonce(s, 0); e = lb::encrypt(s, pattern(24), c); if (e) continue; op(); e = lb::decrypt(r, c, d); CHECK(e != 0, "a transport message was accepted across a different %s", what.c_str()); }
    }
    sample(g().note + " [" + log + "]");
}
VH_MAIN2(body, rng::install)
