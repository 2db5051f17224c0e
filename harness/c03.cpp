// C03: every single attacker action on every handshake message (and every pair of representative ones),
// between two library parties; plus replay, reordering, reflection and splicing.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
using rn::Proto;

static bytes pay(size_t k) { return pattern(k == 1 ? 0 : 4 + 13 * k, (uint8_t)(50 + k)); }

struct Session {
    Proto p; lb::HSt hi, hr; lb::Pair m; std::vector<bytes> sent;     // honest message k as written
    std::vector<bool> enc;                                            // payload of message k was encrypted
};
static std::map<std::string, std::vector<bytes>> other_cache;
// Messages of another session between the same static keys (computed by the model).
static const std::vector<bytes> &other(const Proto &p, int kind) {
    std::string key = p.name() + char('0' + kind);
    auto it = other_cache.find(key);
    if (it != other_cache.end()) return it->second;
    lb::Pair m = lb::model_pair(p, pattern(10, 1));
    if (kind == 0 || kind == 1) m.i.e_seed = lb::secret('x', 'e', m.i.e_seed.size(), 1);
    if (kind == 0 || kind == 2) m.r.e_seed = lb::secret('y', 'e', m.r.e_seed.size(), 1);
    m.i.start(); m.r.start();
    std::vector<bytes> v;
    for (size_t k = 0; k < m.i.pat->msgs.size(); k++) { bytes x; v.push_back((k % 2 ? m.r : m.i).write(pay(k))); (k % 2 ? m.i : m.r).read(v.back(), x); }
    return other_cache[key] = v;
}

enum { A_FLIP, A_TRUNC, A_EXT, A_REPLAY, A_SPLICE, A_SPLICE_FIELD, A_ZERO_FIELD, A_SWAP_FIELDS, A_DUP, A_EMPTY, A_COUNT };
static const char *aname[] = {"flip", "truncate", "extend", "deliver an earlier message instead", "splice", "splice one field", "zero one field", "exchange two fields", "deliver twice", "deliver nothing"};

static void body() {
    static std::vector<Proto> protos = [] {
        std::vector<Proto> v; for (auto &p : lb::core_protos()) if (!rn::find(p.pattern)->fallback) v.push_back(p);
        for (int pat : {NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_X}) { Proto p; p.pattern = pat; p.dh = NOISE_DH_CURVE448; p.cipher = NOISE_CIPHER_AESGCM; p.hash = NOISE_HASH_SHA512; v.push_back(p); }
        for (int pat : {NOISE_PATTERN_NN, NOISE_PATTERN_KK}) { Proto p; p.pattern = pat; p.dh = NOISE_DH_CURVE25519; p.cipher = NOISE_CIPHER_AESGCM; p.hash = NOISE_HASH_SHA256; v.push_back(p); }
        return v; }();
    bool small = g().opts.count("small");
    int part = choose(2, "part");           // 0: single actions, 1: pairs of byte changes (one byte per field)
    const Proto &p = pick(protos, "protocol");
    if (small && p.pattern != NOISE_PATTERN_XX && p.pattern != NOISE_PATTERN_IK && p.pattern != NOISE_PATTERN_N && p.pattern != NOISE_PATTERN_KK) skip();
    const rn::Pattern *pt = rn::find(p.pattern);
    size_t nm = pt->msgs.size();
    note(p.name());
    static std::map<std::string, std::vector<std::vector<rn::HS::Field>>> lays;
    auto &lay = lays[p.name()];
    if (lay.empty()) {
        lb::Pair m = lb::model_pair(p, pattern(10, 1)); m.i.start(); m.r.start();
        for (size_t k = 0; k < nm; k++) { bytes x; rn::HS &w = k % 2 ? m.r : m.i; lay.push_back(w.layout(pay(k).size())); x = w.write(pay(k)); bytes y; (k % 2 ? m.i : m.r).read(x, y); }
    }
    auto total = [&](size_t k) { return lay[k].back().off + lay[k].back().len; };
    struct Action { int kind; size_t msg; size_t a, b; };
    std::vector<Action> acts;
    if (part == 0) {
        size_t k = choose((int)nm, "message");
        int kind = choose(A_COUNT, "action");
        if (kind == A_FLIP && total(k) > 64) choose(1); // placeholder to keep the shape simple
        if (kind == A_FLIP) { size_t pos = choose((int)total(k), "byte"); shard(); static const int two[] = {0, 7}; int bit = g().thorough || !small ? choose(8, "bit") : two[choose(2, "bit")]; acts.push_back({kind, k, pos, (size_t)bit}); }
        else if (kind == A_TRUNC) { acts.push_back({kind, k, (size_t)choose((int)total(k), "length"), 0}); shard(); }
        else if (kind == A_EXT) { static const int ext[] = {1, 15, 16, 17, 32, 100}; acts.push_back({kind, k, (size_t)pick(ext, "extra"), (size_t)choose(2, "fill")}); shard(); }
        else if (kind == A_REPLAY) { if (k == 0) skip(); acts.push_back({kind, k, (size_t)choose((int)k, "which"), 0}); shard(); }
        else if (kind == A_SPLICE) { acts.push_back({kind, k, (size_t)choose((int)nm, "which"), (size_t)choose(3, "session")}); shard(); }
        else if (kind == A_SPLICE_FIELD) { acts.push_back({kind, k, (size_t)choose((int)lay[k].size(), "field"), (size_t)choose(3, "session")}); shard(); }
        else if (kind == A_ZERO_FIELD) { acts.push_back({kind, k, (size_t)choose((int)lay[k].size(), "field"), 0}); shard(); }
        else if (kind == A_SWAP_FIELDS) { size_t n = lay[k].size(); if (n < 2) skip(); size_t a = choose((int)n - 1, "field a"); size_t b = a + 1 + choose((int)(n - a - 1), "field b"); acts.push_back({kind, k, a, b}); shard(); }
        else { acts.push_back({kind, k, 0, 0}); shard(); }
    } else {
        if (nm < 2) skip();
        size_t k1 = choose((int)nm, "message 1"), f1 = choose((int)lay[k1].size(), "field 1");
        size_t k2 = k1 + choose((int)(nm - k1), "message 2"), f2 = choose((int)lay[k2].size(), "field 2");
        if (k1 == k2 && f2 <= f1) skip();
        shard();
        if (!lay[k1][f1].len || !lay[k2][f2].len) skip();
        int w1 = choose(3, "where 1"), w2 = choose(3, "where 2");
        auto at = [&](size_t k, size_t f, int w) { auto &x = lay[k][f]; return x.off + (w == 0 ? 0 : w == 1 ? x.len - 1 : x.len / 2); };
        acts.push_back({A_FLIP, k1, at(k1, f1, w1), 7}); acts.push_back({A_FLIP, k2, at(k2, f2, w2), 7});
    }
    // run; the reader may ask for the payload or not
    bool nopay = choose(2, "payload wanted") == 1;
    Session s; s.p = p; s.m = lb::model_pair(p, pattern(10, 1));
    int e = lb::create(s.hi, p, true); CHECK(e == 0, "create"); e = lb::create(s.hr, p, false); CHECK(e == 0, "create");
    CHECK(!lb::configure(s.hi, s.m.i, true) && !lb::configure(s.hr, s.m.r, true), "configure");
    CHECK(!noise_handshakestate_start(s.hi) && !noise_handshakestate_start(s.hr), "start");
    bool tampered = false, spliced = false, ifail = false, rfail = false;
    std::string what;
    for (size_t k = 0; k < nm && !ifail && !rfail; k++) {
        NoiseHandshakeState *w = k % 2 ? s.hr.p : s.hi.p, *r = k % 2 ? s.hi.p : s.hr.p;
        bytes pl = pay(k), msg, got;
        e = lb::write(w, pl, msg, 8192); op();
        CHECK(e == 0, "an untouched writer failed: %s", lb::err(e).c_str());
        s.sent.push_back(msg);
        bool enc = lay[k].back().mac != 0;
        bytes deliver = msg; int times = 1; bool skip_delivery = false; bool this_spliced = false;
        for (auto &a : acts) if (a.msg == k) {
            what += fmt("%s message %zu (%zu,%zu); ", aname[a.kind], k, a.a, a.b);
            switch (a.kind) {
            case A_FLIP: deliver[a.a] ^= (uint8_t)(1 << a.b); break;
            case A_TRUNC: deliver.resize(a.a); break;
            case A_EXT: deliver.append(a.a, a.b ? 0x5b : 0); break;
            case A_REPLAY: deliver = s.sent[a.a]; break;
            case A_SPLICE: deliver = other(p, (int)a.b)[a.a]; this_spliced = true; break;
            case A_SPLICE_FIELD: { auto &f = lay[k][a.a]; deliver.replace(f.off, f.len, other(p, (int)a.b)[k].substr(f.off, f.len)); break; }
            case A_ZERO_FIELD: { auto &f = lay[k][a.a]; for (size_t i = 0; i < f.len; i++) deliver[f.off + i] = 0; break; }
            case A_SWAP_FIELDS: { auto &f = lay[k][a.a], &f2 = lay[k][a.b]; deliver = msg.substr(0, f.off) + msg.substr(f2.off, f2.len) + msg.substr(f.off + f.len, f2.off - f.off - f.len) + msg.substr(f.off, f.len) + msg.substr(f2.off + f2.len); break; }
            case A_DUP: times = 2; break;
            case A_EMPTY: deliver.clear(); break;
            }
        }
        bool changed = deliver != msg;
        if (changed) { tampered = true; spliced |= this_spliced; }
        for (int t = 0; t < times && !skip_delivery; t++) {
            e = lb::read(r, deliver, got, 8192, nopay); op();
            if (t == 1) {       // the duplicate must be refused; nothing else may change
                CHECK(e != 0, "the same message was accepted twice");
                CHECK(got.empty(), "a refused duplicate returned a payload");
                continue;
            }
            if (e == 0) {
                if (enc && !this_spliced && !nopay) CHECKK("forged payload accepted", got == pl, "%s: a payload that was not sent was accepted: %s", what.c_str(), hex(got).c_str());
                if (!changed && !tampered && !nopay) CHECK(got == pl, "untouched message gave a wrong payload");
            } else {
                CHECK(changed || tampered, "an untouched message was rejected: %s (%s)", lb::err(e).c_str(), what.c_str());
                CHECK(got.empty(), "a rejected message returned a payload of %zu bytes", got.size());
                (k % 2 ? ifail : rfail) = true;
                CHECK(noise_handshakestate_get_action(r) == NOISE_ACTION_FAILED, "after a rejected message the action is %s", lb::act(noise_handshakestate_get_action(r)).c_str());
            }
        }
        if (changed && e == 0 && enc && !this_spliced) failk("altered encrypted message accepted", "%s: accepted although the message was altered and its payload is encrypted", what.c_str());
    }
    lb::CSt a, b, c, d;
    int ei = noise_handshakestate_split(s.hi, a.out(), b.out()), er = noise_handshakestate_split(s.hr, c.out(), d.out());
    if (ifail) CHECK(ei != 0 && !a.p && !b.p, "split succeeded after a failed read");
    if (rfail) CHECK(er != 0 && !c.p && !d.p, "split succeeded after a failed read");
    if (!tampered && acts[0].kind != A_DUP) CHECK(ei == 0 && er == 0, "an untouched handshake did not complete");
    if (acts[0].kind == A_DUP && !tampered) CHECK(ei == 0 && er == 0, "a refused duplicate disturbed the handshake");
    if (ei == 0 && er == 0) {
        bytes h1, h2; lb::hs_hash(s.hi, p.hash, h1); lb::hs_hash(s.hr, p.hash, h2);
        if (tampered) {
            CHECKK("agreement despite tampering", h1 != h2, "%s: both parties completed with the same handshake hash", what.c_str());
            bytes ct, x; e = lb::encrypt(a, pattern(8), ct); CHECK(e == 0, "encrypt");
            CHECKK("transport accepted despite tampering", lb::decrypt(d, ct, x) != 0, "%s: the responder accepts the initiator's transport message", what.c_str());
            e = lb::encrypt(c, pattern(8), ct); CHECK(e == 0, "encrypt");
            CHECKK("transport accepted despite tampering", lb::decrypt(b, ct, x) != 0, "%s: the initiator accepts the responder's transport message", what.c_str());
        } else CHECK(h1 == h2, "hashes differ without tampering");
    }
    outcome(tampered ? (ifail || rfail ? "tampered: rejected" : "tampered: disagreement") : "untouched");
    distinct(hash_str(p.name() + what));
    state(hash_str(fmt("%s %d %zu %d %d %d %d", p.name().c_str(), acts[0].kind, acts[0].msg, ifail, rfail, ei, er)));
    sample(p.name() + ": " + what + (ifail || rfail ? "rejected" : "not rejected"));
}
VH_MAIN2(body, rng::install)
