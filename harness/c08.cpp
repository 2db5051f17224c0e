// C08: an attacker (the reference model, which can complete a session resting on null keys) sends null ephemeral and hybrid
// keys at every position of every pattern, and then tries every way on, including fallback.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
using rn::Proto;

static std::string run(NoiseHandshakeState *h, rn::HS &att, int &stopped) {   // until someone stops; returns a log
    std::string log; stopped = 0;
    for (int g = 0; g < 8; g++) {
        int a = noise_handshakestate_get_action(h); int e; bytes x, y;
        if (a == NOISE_ACTION_WRITE_MESSAGE && att.next() == rn::READ) { e = lb::write(h, pattern(6), x, 20000); op(); log += e ? "w!" : "w"; if (e || !att.read(x, y)) break; }
        else if (a == NOISE_ACTION_READ_MESSAGE && att.next() == rn::WRITE) { x = att.write(pattern(4)); e = lb::read(h, x, y, 20000); op(); log += e ? "r!" : "r"; if (e) { stopped = e; CHECK(y.empty(), "a rejected message returned a payload"); break; } }
        else break;
    }
    return log;
}
static void not_established(NoiseHandshakeState *h, const char *when) {
    int a = noise_handshakestate_get_action(h);
    CHECKK("session on a null key", a != NOISE_ACTION_SPLIT && a != NOISE_ACTION_COMPLETE, "%s: the victim reached %s with a null key", when, lb::act(a).c_str());
    lb::CSt c1, c2; int e = noise_handshakestate_split(h, c1.out(), c2.out());
    CHECKK("session on a null key", e != 0 && !c1.p && !c2.p, "%s: split succeeded with a null key", when);
}

static void body() {
    static std::vector<Proto> protos = [] { std::vector<Proto> v; for (auto &p : lb::all_protos()) if (!rn::find(p.pattern)->fallback && p.cipher == NOISE_CIPHER_CHACHAPOLY && p.hash == NOISE_HASH_BLAKE2s) v.push_back(p); return v; }();
    if (choose(8, "part") == 7) {           // what counts as null, on key objects
        int dh = choose(3, "dh"); dh = dh == 0 ? NOISE_DH_CURVE25519 : dh == 1 ? NOISE_DH_CURVE448 : NOISE_DH_NEWHOPE;
        int role = choose(2, "role") ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR;
        shard();
        lb::DSt d; CHECK(noise_dhstate_new_by_id(d.out(), dh) == 0, "new"); noise_dhstate_set_role(d, role);
        size_t n = noise_dhstate_get_public_key_length(d); bytes z(n, 0), o(n, 1);
        CHECK(noise_dhstate_is_null_public_key(d) == 0, "an object without key reports a null key");
        int e = noise_dhstate_set_null_public_key(d);
        if (dh == NOISE_DH_NEWHOPE) { CHECK(e != 0, "New Hope accepts a null key"); e = noise_dhstate_set_public_key(d, z.data(), n); CHECK(e != 0 || noise_dhstate_is_null_public_key(d), "an all-zeroes New Hope key is accepted unnoticed"); }
        else {
            CHECK(e == 0 && noise_dhstate_is_null_public_key(d) == 1 && noise_dhstate_has_public_key(d) == 1, "set_null_public_key: %s", lb::err(e).c_str());
            e = noise_dhstate_get_public_key(d, &o[0], n); CHECK(e == 0 && o == z, "the null key is not all zeroes");
        }
        for (size_t i = 0; i < n * 8; i++) {
            bytes k = z; k[i / 8] = (uint8_t)(1 << (i % 8));
            e = noise_dhstate_set_public_key(d, k.data(), n); op();
            if (e == 0) CHECK(noise_dhstate_is_null_public_key(d) == 0, "a key with bit %zu set is reported as null", i);
            if (dh != NOISE_DH_NEWHOPE) { e = noise_dhstate_set_public_key(d, z.data(), n); CHECK(e == 0 && noise_dhstate_is_null_public_key(d) == 1, "an all-zeroes key is not recognised as null"); }
        }
        state(dh); outcome("null recognition"); return;
    }
    if (g().choices[0] != 0 && !g().replay) skip();
    const Proto &p = pick(protos, "protocol");
    const rn::Pattern *pt = rn::find(p.pattern);
    bool victim_ini = choose(2, "victim") == 0;
    int mask = 1 + choose(pt->hfs ? 3 : 1, "null keys");       // 1 e, 2 f, 3 both
    bool sends_e = rn::has_token(*pt, !victim_ini, "e"), sends_f = rn::has_token(*pt, !victim_ini, "f");
    if (((mask & 1) && !sends_e) || ((mask & 2) && !sends_f)) skip();
    shard();
    note(p.name() + (victim_ini ? " victim is the initiator" : " victim is the responder") + fmt(" null keys %d", mask));
    lb::Pair m = lb::model_pair(p, pattern(7));
    rn::HS &vm = victim_ini ? m.i : m.r; rn::HS att = victim_ini ? m.r : m.i;
    att.zero_e = mask & 1; att.zero_f = mask & 2;
    lb::HSt h; rng::reset(11);
    int e = lb::create(h, p, victim_ini); CHECK(e == 0, "create: %s", lb::err(e).c_str());
    e = lb::configure(h, vm, false); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
    e = noise_handshakestate_start(h); CHECK(e == 0, "start: %s", lb::err(e).c_str());
    att.start();
    int stopped; std::string log = run(h, att, stopped);
    CHECKK("null key accepted", stopped != 0, "the message with the null key was not rejected (%s)", log.c_str());
    CHECK(noise_handshakestate_get_action(h) == NOISE_ACTION_FAILED, "action after the rejection: %s", lb::act(noise_handshakestate_get_action(h)).c_str());
    not_established(h, "after the rejection");
    state(hash_str(p.name() + log + char('0' + victim_ini) + char('0' + mask)));
    // every way on
    bytes x, y;
    e = lb::write(h, pattern(3), x, 9000); CHECK(e != 0, "a message was written after the rejection");
    y = pattern(3000, 1); e = lb::read(h, y, x, 9000); CHECK(e != 0, "a message was read after the rejection");
    e = noise_handshakestate_start(h); CHECK(e != 0, "the handshake was started again");
    for (int target : {NOISE_PATTERN_XX_FALLBACK, NOISE_PATTERN_XX_FALLBACK_HFS}) {
        if ((target == NOISE_PATTERN_XX_FALLBACK_HFS) != pt->hfs) continue;
        e = noise_handshakestate_fallback_to(h, target); op();
        log += e ? ",nofb" : ",fb";
        if (e) continue;
        // the attacker follows with the same (null) key
        att.fallback(target); att.prologue = bytes(); att.psk = vm.psk;
        lb::make_static(att.s, p.dh, victim_ini ? 'r' : 'i'); 
        NoiseDHState *L = noise_handshakestate_get_local_keypair_dh(h); bytes sk = lb::secret('v', 's', rc::dhlen(p.dh));
        if (noise_handshakestate_needs_local_keypair(h) && L) noise_dhstate_set_keypair_private(L, sk.data(), sk.size());
        if (noise_handshakestate_needs_pre_shared_key(h)) noise_handshakestate_set_pre_shared_key(h, vm.psk.data(), 32);
        noise_handshakestate_set_prologue(h, "", 0);
        e = noise_handshakestate_start(h); log += e ? "nostart" : "start";
        if (e == 0) {
            // attacker keys at the start of the fallback: its ephemeral is what it sent (null), or the victim's for an initiator victim
            if (!victim_ini) { if (mask & 1) att.e.pub.assign(rn::pub_len(p.dh, true), 0); } 
            att.start(); log += run(h, att, stopped);
        }
        not_established(h, "after falling back");
        break;
    }
    outcome(log); sample(g().note + ": " + log);
}
VH_MAIN2(body, rng::install)
