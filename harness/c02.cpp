// C02: every API call sequence that deviates from the legal order at up to K points, for every pattern and role.
// The legal path is always completed afterwards and compared with the reference model, so a refused call that
// changed anything shows up in the bytes.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;

enum { D_NONE, D_START, D_WRITE, D_READ, D_READ_SHORT, D_SPLIT, D_SPLIT1, D_PROLOGUE, D_PSK, D_HASH, D_WRITE_NULL, D_READ_OVER, D_FALLBACK, D_SPLIT_NULL, D_READ_SMALLPAYLOAD, D_WRITE_SMALL1, D_COUNT };
static const char *dname[] = {"none", "start", "write", "read", "read-short", "split", "split-one", "set-prologue", "set-psk", "get-hash", "write-null", "read-oversize", "fallback", "split-null", "read-small-payload", "write-one-short"};

struct Party {
    rn::HS m, peer;              // my model, the peer's model
    lb::HSt h;
    bool complete = false;
    int action = NOISE_ACTION_NONE;
    bytes next_msg;              // the peer's next message once produced (peer model has advanced)
    bool have_next = false;
    bytes next_payload;
};

static bytes pay(size_t k) { return pattern(3 + 5 * k, (uint8_t)(10 + k)); }

static void peer_message(Party &p) {        // make the message that p is expected to read next
    if (p.have_next) return;
    p.next_payload = pay(p.m.msg);
    p.next_msg = p.peer.write(p.next_payload);
    p.have_next = true;
}

static void expect_action(Party &p, const char *after) {
    int a = noise_handshakestate_get_action(p.h);
    CHECK(a == p.action, "after %s: action %s, expected %s", after, lb::act(a).c_str(), lb::act(p.action).c_str());
}
static void set_action(Party &p) { p.action = p.m.failed ? NOISE_ACTION_FAILED : p.complete ? NOISE_ACTION_COMPLETE : !p.m.started ? NOISE_ACTION_NONE : lb::action_of(p.m.next()); }

static void want(int got, int exp, const char *what, Party &p) { CHECK(got == exp, "%s in state %s returned %s, expected %s", what, lb::act(p.action).c_str(), lb::err(got).c_str(), lb::err(exp).c_str()); }
static void want_fail(int got, const char *what) { CHECK(got != 0, "%s succeeded but must fail", what); }

static void check_hash(Party &p) {
    size_t hl = rc::hashlen(p.m.proto.hash);
    Block b(hl, 0x5A);
    int e = noise_handshakestate_get_handshake_hash(p.h, b.p, hl);
    if (p.action == NOISE_ACTION_SPLIT || p.action == NOISE_ACTION_COMPLETE) {
        want(e, 0, "get_handshake_hash", p);
        CHECK(b.get() == p.m.sym.h, "handshake hash differs from the model");
    } else { want(e, NOISE_ERROR_INVALID_STATE, "get_handshake_hash", p); CHECK(b.all(0x5A), "get_handshake_hash released data in state %s", lb::act(p.action).c_str()); }
}

// One deviating call.  Returns false when it does not make sense here.
static bool deviate(Party &p, int d) {
    const int A = p.action;
    int e; bytes out;
    tracef("deviation %s in %s", dname[d], lb::act(A).c_str());
    op();
    switch (d) {
    case D_START:
        if (A == NOISE_ACTION_NONE) return false;
        e = noise_handshakestate_start(p.h); want(e, NOISE_ERROR_INVALID_STATE, "start", p); break;
    case D_WRITE: case D_WRITE_SMALL1: {
        if (A == NOISE_ACTION_WRITE_MESSAGE) {
            auto lay = p.m.layout(4); size_t need = lay.back().off + lay.back().len;
            e = lb::write(p.h, pattern(4), out, d == D_WRITE ? need / 2 : need - 1); want_fail(e, "write_message into a too small buffer");
            CHECK(out.empty(), "a failed write_message left a message of %zu bytes", out.size());
            p.m.failed = true;
        } else {
            if (d == D_WRITE_SMALL1) return false;
            Block b(8192); Block pl(pattern(4)); NoiseBuffer mb, pb; noise_buffer_set_output(mb, b.p, b.n); noise_buffer_set_input(pb, pl.p, 4); mb.size = 77;
            e = noise_handshakestate_write_message(p.h, &mb, &pb); want(e, NOISE_ERROR_INVALID_STATE, "write_message", p);
            CHECK(mb.size == 0, "a refused write_message left a message size of %zu", mb.size);
            CHECK(b.all(0xA5), "a refused write_message wrote into the message buffer");
        }
        break; }
    case D_READ: case D_READ_SHORT: case D_READ_SMALLPAYLOAD: {
        if (A == NOISE_ACTION_READ_MESSAGE) {
            peer_message(p);
            bytes msg = p.next_msg; size_t cap = 8192;
            if (d == D_READ) { if (p.m.sym.has_key || p.m.layout(0).back().mac) msg[msg.size() - 1] ^= 1; else msg.resize(p.m.layout(0)[0].len - 1); }
            else if (d == D_READ_SHORT) msg.resize(p.m.overhead() ? p.m.overhead() - 1 : 0);
            else cap = p.next_payload.size() - 1;
            bytes got; e = lb::read(p.h, msg, got, cap); want_fail(e, "read_message of a bad message");
            CHECK(got.empty(), "a failed read_message returned a payload of %zu bytes", got.size());
            p.m.failed = true;
        } else {
            if (d != D_READ) return false;
            bytes msg = p.have_next ? p.next_msg : pattern(200, 1), got;
            e = lb::read(p.h, msg, got, 8192); want(e, NOISE_ERROR_INVALID_STATE, "read_message", p);
            CHECK(got.empty(), "a refused read_message returned a payload");
        }
        break; }
    case D_SPLIT: case D_SPLIT1: {
        if (A == NOISE_ACTION_SPLIT) return false;
        NoiseCipherState *a = 0, *b = 0;
        e = noise_handshakestate_split(p.h, &a, d == D_SPLIT ? &b : 0); want(e, NOISE_ERROR_INVALID_STATE, "split", p);
        CHECK(!a && !b, "a refused split released a cipher state");
        break; }
    case D_PROLOGUE:
        e = noise_handshakestate_set_prologue(p.h, "other", 5);
        if (A == NOISE_ACTION_NONE) { want(e, 0, "set_prologue", p); if ((e = noise_handshakestate_set_prologue(p.h, p.m.prologue.data(), p.m.prologue.size()))) failk("set_prologue again", "setting the prologue a second time before the start: %s", lb::err(e).c_str()); }
        else want(e, NOISE_ERROR_INVALID_STATE, "set_prologue", p);
        break;
    case D_PSK: {
        bytes k = lb::psk_of(7);
        e = noise_handshakestate_set_pre_shared_key(p.h, k.data(), 32);
        if (!p.m.proto.psk) want(e, NOISE_ERROR_NOT_APPLICABLE, "set_pre_shared_key", p);
        else if (A == NOISE_ACTION_NONE) { want(e, 0, "set_pre_shared_key", p); k = p.m.psk; e = noise_handshakestate_set_pre_shared_key(p.h, k.data(), 32); want(e, 0, "set_pre_shared_key", p); }
        else want(e, NOISE_ERROR_INVALID_STATE, "set_pre_shared_key", p);
        break; }
    case D_HASH: check_hash(p); break;
    case D_WRITE_NULL: {
        e = noise_handshakestate_write_message(p.h, 0, 0); want(e, NOISE_ERROR_INVALID_PARAM, "write_message(NULL)", p);
        NoiseBuffer mb; noise_buffer_init(mb);
        e = noise_handshakestate_write_message(p.h, &mb, 0); want(e, NOISE_ERROR_INVALID_PARAM, "write_message(NULL data)", p);
        e = noise_handshakestate_read_message(p.h, 0, 0); want(e, NOISE_ERROR_INVALID_PARAM, "read_message(NULL)", p);
        e = noise_handshakestate_read_message(p.h, &mb, 0); want(e, NOISE_ERROR_INVALID_PARAM, "read_message(NULL data)", p);
        break; }
    case D_READ_OVER: {
        Block b(100); NoiseBuffer mb; noise_buffer_set_inout(mb, b.p, 101, 100);
        e = noise_handshakestate_read_message(p.h, &mb, 0);
        want_fail(e, "read_message with a size beyond the buffer");
        // documented as an invalid length; the handshake is not consumed by it
        break; }
    case D_FALLBACK: {
        const rn::Pattern *pt = p.m.pat;
        // only where it is always refused: patterns that do not rely on the responder's static key, or not started
        if (rn::has_word(pt->pre_r, "s") && A != NOISE_ACTION_NONE && A != NOISE_ACTION_COMPLETE && A != NOISE_ACTION_SPLIT) return false;
        e = noise_handshakestate_fallback(p.h); want_fail(e, "fallback");
        break; }
    case D_SPLIT_NULL:
        e = noise_handshakestate_split(p.h, 0, 0); want(e, NOISE_ERROR_INVALID_PARAM, "split(NULL,NULL)", p); break;
    }
    set_action(p);
    expect_action(p, dname[d]);
    return true;
}

static void body() {
    static std::vector<rn::Proto> protos = [] { std::vector<rn::Proto> v; for (auto &p : lb::core_protos()) if (!rn::find(p.pattern)->fallback) v.push_back(p);
        rn::Proto n; n.pattern = NOISE_PATTERN_NN; n.dh = NOISE_DH_NEWHOPE; n.cipher = NOISE_CIPHER_AESGCM; n.hash = NOISE_HASH_SHA512; v.push_back(n); return v; }();
    static const std::set<int> deep = {NOISE_PATTERN_N, NOISE_PATTERN_NN, NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_XK, NOISE_PATTERN_XX_HFS};
    const rn::Proto &q = pick(protos, "protocol");
    bool ini = choose(2, "role") == 0;
    int budget = g().thorough && deep.count(q.pattern) ? 3 : 2;
    if (q.dh == NOISE_DH_NEWHOPE) budget = g().thorough ? 2 : 1;
    // how the legal calls are made: as usual; no payload buffer on a read and an empty payload on a write; split for one direction only
    int style = choose(4, "style");
    if (style) budget = std::min(budget, g().thorough ? 2 : 1);
    // first deviation position and kind are the work units
    lb::Pair mp;

    Party p;
    note(q.name() + (ini ? " initiator" : " responder"));
    // legal steps: start, messages..., split, after
    const rn::Pattern *pt = rn::find(q.pattern);
    int steps = 1 + (int)pt->msgs.size() + 1 + 1;
    int firstpos = choose(steps + 1, "first deviation before step"), firstd = firstpos == steps ? 0 : 1 + choose(D_COUNT - 1, "first deviation");
    shard();
    mp = lb::model_pair(q, pattern(20, 3));
    p.m = ini ? mp.i : mp.r; p.peer = ini ? mp.r : mp.i;
    rng::reset(7);
    int e = lb::create(p.h, q, ini); CHECK(e == 0, "create: %s", lb::err(e).c_str());
    e = lb::configure(p.h, p.m, true); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
    p.peer.start();
    set_action(p); expect_action(p, "creation");
    int left = budget; size_t deviated = 0;
    for (int step = 0; step < steps; step++) {
        // deviations before this step
        bool more = true;
        if (step < firstpos) more = false;
        else if (step == firstpos) { if (!deviate(p, firstd)) skip(); left--; deviated++; }
        while (more && left > 0) { int d = choose(D_COUNT, "deviation"); if (d == D_NONE) break; if (!deviate(p, d)) skip(); left--; deviated++; }
        state(hash_str(fmt("%d %d %d %d %zu %d", q.pattern, q.psk, ini, p.action, p.m.msg, p.m.failed)));
        if (step == steps - 1) break;
        // the legal call of this step (refused once the handshake has failed)
        op();
        if (step == 0) {
            e = noise_handshakestate_start(p.h);
            if (p.m.failed) want(e, NOISE_ERROR_INVALID_STATE, "start", p); else { want(e, 0, "start", p); p.m.start(); }
        } else if (step == steps - 2) {
            lb::CSt s, r;
            e = noise_handshakestate_split(p.h, style == 3 ? 0 : s.out(), style == 2 ? 0 : r.out());
            if (p.m.failed) { want(e, NOISE_ERROR_INVALID_STATE, "split", p); CHECK(!s.p && !r.p, "split of a failed handshake released a cipher state"); }
            else {
                want(e, 0, "split", p); p.complete = true;
                CHECK((s.p || style == 3) && (r.p || style == 2), "split did not return the cipher states");
                bytes k1, k2, ct; p.m.sym.split(k1, k2);
                if (s.p) { e = lb::encrypt(s, pattern(9), ct); CHECK(e == 0 && ct == rc::aead(q.cipher, ini ? k1 : k2, 0, bytes(), pattern(9)), "the sending cipher is not the one the specification gives"); }
                if (r.p) { e = lb::encrypt(r, pattern(9), ct); CHECK(e == 0 && ct == rc::aead(q.cipher, ini ? k2 : k1, 0, bytes(), pattern(9)), "the receiving cipher is not the one the specification gives"); }
            }
        } else if (p.m.failed) {
            bytes o;
            if (((step - 1) % 2 == 0) == ini) { e = lb::write(p.h, pay(0), o, 8192); want(e, NOISE_ERROR_INVALID_STATE, "write_message", p); }
            else { e = lb::read(p.h, pattern(300), o, 8192); want(e, NOISE_ERROR_INVALID_STATE, "read_message", p); }
        } else if (p.m.next() == rn::WRITE) {
            bytes out, pl = style == 1 ? bytes() : pay(p.m.msg), exp;
            auto lay = p.m.layout(pl.size());
            e = lb::write(p.h, pl, out, lay.back().off + lay.back().len, style == 1); want(e, 0, "write_message", p);
            exp = p.m.write(pl);
            CHECK(out == exp, "message %zu differs from the model after %zu deviating calls", p.m.msg - 1, deviated);
            bytes x; CHECK(p.peer.read(out, x) && x == pl, "the peer rejects the message");
        } else {
            peer_message(p);
            bytes got, x;
            e = lb::read(p.h, p.next_msg, got, p.next_payload.size(), style == 1); want(e, 0, "read_message", p);
            if (style != 1) CHECK(got == p.next_payload, "wrong payload");
            CHECK(p.m.read(p.next_msg, x), "the model rejects the message");
            p.have_next = false;
        }
        set_action(p); expect_action(p, "legal step");
    }
    check_hash(p);
    outcome(p.m.failed ? "failed" : p.complete ? "complete" : "other");
    sample(g().note + fmt(" deviations %zu, first %s before step %d -> %s", deviated, dname[firstd], firstpos, lb::act(p.action).c_str()));
}
VH_MAIN2(body, rng::install)
