// C11: no secret is left in memory that is returned to the heap or in objects that were cleared or re-keyed.
// Every block freed by the library is inspected at the moment of free, and the blocks it still owns are inspected after
// clearing operations.  (a) known secrets are searched for; (b) each object scenario is run twice with different secrets:
// what still differs afterwards must be public.
#include "certs.hpp"
#include "rng.hpp"
#include "alloc.hpp"
#include <sys/stat.h>
using namespace vh;
using rn::Proto;

struct Scan {
    std::vector<bytes> secrets;
    std::unordered_set<uint64_t> needles; std::vector<bool> bloom = std::vector<bool>(1 << 16);
    std::vector<bytes> freed;              // contents of freed blocks (when recording)
    bool record = false, active = false; std::string hit; long blocks = 0; size_t total = 0;
    void clear() { secrets.clear(); needles.clear(); std::fill(bloom.begin(), bloom.end(), false); freed.clear(); hit.clear(); active = record = false; }
    void add(const bytes &s) {
        if (s.size() < 8) return;
        secrets.push_back(s);
        for (size_t i = 0; i + 8 <= s.size(); i += 4) { uint64_t v; memcpy(&v, s.data() + i, 8); int z = 0; for (int k = 0; k < 8; k++) z += s[i + k] == 0; if (z > 3) continue; needles.insert(v); bloom[v & 0xffff] = true; }
    }
    bool find(const void *p, size_t n, size_t &at) const {
        const uint8_t *b = (const uint8_t *)p;
        for (size_t i = 0; i + 8 <= n; i++) { uint64_t v; memcpy(&v, b + i, 8); if (bloom[v & 0xffff] && needles.count(v)) { at = i; return true; } }
        return false;
    }
};
static Scan S;
static const char *doing = "";
static void on_free(void *p, size_t n) {
    al::Pause q; S.blocks++; S.total += n;
    size_t at;
    if (S.active && S.hit.empty() && S.find(p, n, at)) S.hit = fmt("a block of %zu bytes was freed with secret bytes at offset %zu (%s) during %s", n, at, hex((uint8_t *)p + at, 8).c_str(), doing);
    if (S.record) S.freed.push_back(B(p, n));
}
static void begin() { al::start(); al::a().on_free = on_free; S.clear(); }
static void end() { al::stop(); al::a().on_free = nullptr; S.active = false; S.record = false; g().checks++; if (!S.hit.empty()) failk("freed", "%s", S.hit.c_str()); }
static void live_clean(const char *after) {
    al::Pause q; g().checks++;
    for (auto &e : al::a().live) { size_t at; if (S.find(e.first, e.second.size, at)) failk("left behind", "after %s a live block of %zu bytes still holds secret bytes at offset %zu (%s)", after, e.second.size, at, hex((uint8_t *)e.first + at, 8).c_str()); }
}
static std::vector<bytes> live_blocks() { al::Pause q; std::map<long, bytes> m; for (auto &e : al::a().live) m[e.second.serial] = B(e.first, e.second.size); std::vector<bytes> v; for (auto &x : m) v.push_back(x.second); return v; }
// Two runs: words that differ and are neither pointers nor part of a public string.
struct Snap { std::vector<bytes> live, freed, pub; };
static bool pointerish(uint64_t w) { return (w >> 47) == 0 && (w >> 32) != 0; }
static void compare(const Snap &a, const Snap &b, const char *what) {
    auto one = [&](const std::vector<bytes> &x, const std::vector<bytes> &y, const char *kind) {
        if (x.size() != y.size()) return;           // different shape: only the search applies
        for (size_t i = 0; i < x.size(); i++) {
            if (x[i].size() != y[i].size()) continue;
            for (size_t o = 0; o + 8 <= x[i].size(); o += 8) {
                uint64_t u, v; memcpy(&u, x[i].data() + o, 8); memcpy(&v, y[i].data() + o, 8);
                if (u == v || (pointerish(u) && pointerish(v))) continue;
                int differ = 0; for (int k = 0; k < 8; k++) differ += x[i][o + k] != y[i][o + k];
                if (differ < 5) continue;           // counters, lengths
                auto pub = [&](const bytes &blk, const Snap &s) { size_t lo = o >= 8 ? o - 7 : 0; for (auto &p : s.pub) for (size_t st = lo; st <= o + 4 && st + 4 <= blk.size(); st++) if (p.size() >= 4 && p.find(blk.substr(st, 4)) != bytes::npos) return true; return false; };
                if (pub(x[i], a) && pub(y[i], b)) continue;
                failk("depends on a secret", "%s: a %s block of %zu bytes still depends on the secret at offset %zu (%s, %s)", what, kind, x[i].size(), o, hex(x[i].data() + o, 8).c_str(), hex(y[i].data() + o, 8).c_str());
            }
        }
    };
    g().checks++;
    one(a.live, b.live, "live"); one(a.freed, b.freed, "freed");
}
static bytes sec(int variant, int n, size_t len) { bytes b = rc::hash(NOISE_HASH_SHA512, B(fmt("c11 %d %d", variant, n))); bytes o = b; while (o.size() < len) { b = rc::hash(NOISE_HASH_SHA512, b); o += b; } o.resize(len); return o; }

static void dh_objects() {
    static const int ids[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
    int id = pick(ids, "dh"); bool nh = id == NOISE_DH_NEWHOPE; int role = nh ? choose(2, "role") : 0;
    int how = choose(5, "load"), use = choose(3, "use"), er = choose(9, "erase");
    if (role && how == 4) how = 2;
    shard();
    Snap snap[2];
    static const char *ern[] = {"clear_key", "set_public_key", "set_null_public_key", "set_keypair_private", "a refused set_keypair", "generate_keypair", "copy from an empty object", "free", "set_role and clear_key"};
    for (int v = 0; v < 2; v++) {
        rng::reset(1000 + v);
        begin(); S.record = true; doing = ern[er];
        bytes priv, pub, shared;
        {
            lb::DSt d, other, from; int e = noise_dhstate_new_by_id(d.out(), id); CHECK(e == 0, "new");
            e = noise_dhstate_new_by_id(other.out(), id); CHECK(e == 0, "new");
            if (nh) { noise_dhstate_set_role(d, role ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR); noise_dhstate_set_role(other, role ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER); }
            size_t pl = noise_dhstate_get_private_key_length(d), ul = noise_dhstate_get_public_key_length(d), ol = noise_dhstate_get_private_key_length(other);
            // the peer: the same in both runs
            bytes op = sec(9, 1, ol);
            if (nh && !role) { lb::DSt al; noise_dhstate_new_by_id(al.out(), id); noise_dhstate_set_role(al, NOISE_ROLE_INITIATOR); noise_dhstate_set_keypair_private(al, sec(9, 2, 64).data(), 64); noise_dhstate_set_keypair_private(other, op.data(), ol); bytes s(32, 0); e = noise_dhstate_calculate(other, al, &s[0], 32); CHECK(e == 0, "peer"); }
            else { e = noise_dhstate_set_keypair_private(other, op.data(), ol); CHECK(e == 0, "peer"); }
            bytes k = sec(v, 1, pl);
            if (how == 0) e = noise_dhstate_set_keypair_private(d, k.data(), pl);
            else if (how == 1) { bytes u; if (nh) u = sec(3, 3, ul); else u = rc::dh_public(id, k); e = noise_dhstate_set_keypair(d, k.data(), pl, u.data(), ul); }
            else if (how == 2) e = noise_dhstate_generate_dependent_keypair(d, other);
            else if (how == 3) { noise_dhstate_new_by_id(from.out(), id); if (nh) noise_dhstate_set_role(from, role ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR); e = noise_dhstate_set_keypair_private(from, k.data(), pl); CHECK(e == 0, "set"); e = noise_dhstate_copy(d, from); from.reset(); }
            else e = noise_dhstate_generate_keypair(d);
            CHECK(e == 0, "loading a key: %s", lb::err(e).c_str());
            if (use) { bytes s(noise_dhstate_get_shared_key_length(d), 0); for (int i = 0; i < use; i++) { e = noise_dhstate_calculate(d, other, &s[0], s.size()); CHECK(e == 0, "calculate: %s", lb::err(e).c_str()); } shared = s; }
            { al::Pause p; Block x(pl), y(ul); e = noise_dhstate_get_keypair(d, x.p, pl, y.p, ul); CHECK(e == 0, "get_keypair"); priv = x.get(); pub = y.get(); }
            S.add(priv); if (!shared.empty()) S.add(shared);
            S.active = true; S.freed.clear();
            bytes k2 = sec(7, 1, pl), u2; if (!nh) u2 = rc::dh_public(id, k2); else u2 = sec(7, 2, ul);
            bool possible = true;
            switch (er) {
            case 0: e = noise_dhstate_clear_key(d); break;
            case 1: e = noise_dhstate_set_public_key(d, u2.data(), ul); break;
            case 2: e = nh ? NOISE_ERROR_INVALID_PARAM : noise_dhstate_set_null_public_key(d); possible = !nh; if (nh) e = 0; break;
            case 3: e = noise_dhstate_set_keypair_private(d, k2.data(), pl); break;
            case 4: if (nh) { possible = false; break; } u2[3] ^= 1; e = noise_dhstate_set_keypair(d, k2.data(), pl, u2.data(), ul); CHECK(e != 0, "mismatched keypair accepted"); if (noise_dhstate_has_keypair(d)) possible = false; e = 0; break;
            case 5: { rng::reset(55); e = noise_dhstate_generate_dependent_keypair(d, other); break; }
            case 6: { lb::DSt em; noise_dhstate_new_by_id(em.out(), id); if (nh) noise_dhstate_set_role(em, role ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR); e = noise_dhstate_copy(d, em); break; }
            case 7: d.reset(); break;
            case 8: noise_dhstate_set_role(d, nh ? (role ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER) : NOISE_ROLE_RESPONDER); e = noise_dhstate_clear_key(d); break;
            }
            CHECK(e == 0, "%s: %s", ern[er], lb::err(e).c_str());
            if (possible) { live_clean(ern[er]); snap[v].live = live_blocks(); snap[v].freed = S.freed; }
            snap[v].pub = {pub};
            S.freed.clear();
        }
        snap[v].freed.insert(snap[v].freed.end(), S.freed.begin(), S.freed.end());
        end();
        op(5);
        distinct(mix(mix(id, role * 16 + how), mix(use * 16 + er, v)));
    }
    if (er != 1 && er != 3 && er != 5 && er != 4 && er != 8) snap[0].pub.clear(), snap[1].pub.clear();     // after the others nothing of the old key remains, public or not (a role change shortens the public key area)
    snap[0].pub.push_back(bytes()); snap[1].pub.push_back(bytes());
    compare(snap[0], snap[1], fmt("DH %s after %s", rn::dh_name(id), ern[er]).c_str());
    outcome("DH objects");
    sample(fmt("%s: load %d, use %d, then %s", rn::dh_name(id), how, use, ern[er]));
}
static void sign_objects() {
    int how = choose(4, "load"), use = choose(2, "use"), er = choose(7, "erase"); shard();
    Snap snap[2];
    static const char *ern[] = {"clear_key", "set_public_key", "set_keypair_private", "set_keypair", "generate_keypair", "copy from an empty object", "free"};
    for (int v = 0; v < 2; v++) {
        rng::reset(2000 + v); begin(); S.record = true; doing = ern[er];
        bytes priv, pub;
        { lb::SSt d, from; int e = noise_signstate_new_by_id(d.out(), NOISE_SIGN_ED25519); CHECK(e == 0, "new");
            bytes k = sec(v, 2, 32), k2 = sec(7, 5, 32), u2 = rc::ed_public(k2);
            if (how == 0) e = noise_signstate_set_keypair_private(d, k.data(), 32);
            else if (how == 1) { bytes u = rc::ed_public(k); e = noise_signstate_set_keypair(d, k.data(), 32, u.data(), 32); }
            else if (how == 2) e = noise_signstate_generate_keypair(d);
            else { noise_signstate_new_by_id(from.out(), NOISE_SIGN_ED25519); noise_signstate_set_keypair_private(from, k.data(), 32); e = noise_signstate_copy(d, from); from.reset(); }
            CHECK(e == 0, "loading a key");
            { al::Pause p; Block x(32), y(32); e = noise_signstate_get_keypair(d, x.p, 32, y.p, 32); CHECK(e == 0, "get"); priv = x.get(); pub = y.get(); }
            if (use) { bytes s(64, 0); e = noise_signstate_sign(d, k2.data(), 32, &s[0], 64); CHECK(e == 0, "sign"); }
            S.add(priv); { bytes h = rc::hash(NOISE_HASH_SHA512, priv); S.add(h); h[0] &= 248; h[31] = (h[31] & 63) | 64; S.add(h); }
            S.active = true; S.freed.clear();
            switch (er) {
            case 0: e = noise_signstate_clear_key(d); break;
            case 1: e = noise_signstate_set_public_key(d, u2.data(), 32); break;
            case 2: e = noise_signstate_set_keypair_private(d, k2.data(), 32); break;
            case 3: e = noise_signstate_set_keypair(d, k2.data(), 32, u2.data(), 32); break;
            case 4: rng::reset(56); e = noise_signstate_generate_keypair(d); break;
            case 5: { lb::SSt em; noise_signstate_new_by_id(em.out(), NOISE_SIGN_ED25519); e = noise_signstate_copy(d, em); break; }
            default: d.reset();
            }
            CHECK(e == 0, "%s: %s", ern[er], lb::err(e).c_str());
            live_clean(ern[er]); snap[v].live = live_blocks(); snap[v].pub = {pub};
        }
        snap[v].freed = S.freed; end(); op(4);
    }
    compare(snap[0], snap[1], fmt("signing key after %s", ern[er]).c_str());
    outcome("signing objects"); distinct(mix(77, mix(how, use * 8 + er)));
}
static void cipher_objects() {
    int id = choose(2, "cipher") ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY, use = choose(4, "use"), er = choose(3, "erase"); shard();
    Snap snap[2];
    for (int v = 0; v < 2; v++) {
        begin(); S.record = true; doing = er ? "free" : "init_key";
        { lb::CSt c; int e = noise_cipherstate_new_by_id(c.out(), id); CHECK(e == 0, "new");
            bytes k = sec(v, 3, 32), k2 = sec(7, 6, 32), ct, pt;
            e = noise_cipherstate_init_key(c, k.data(), 32); CHECK(e == 0, "init_key");
            { al::Pause q; if (use == 1) lb::encrypt(c, pattern(100), ct); if (use == 2) { ct = rc::aead(id, k, 0, bytes(), pattern(70)); lb::decrypt(c, ct, pt); } if (use == 3) {
                ct = pattern(70); lb::decrypt(c, ct, pt);
                bytes x(ct.begin(), ct.end() - 16), ks = rc::aead(id, k, 0, bytes(), bytes(54, 0)); for (size_t i = 0; i < 54; i++) x[i] ^= ks[i];
                ct += rc::aead(id, k, 0, bytes(), x).substr(54); } }           // the tag a forger needed is not one of the secrets of the property
            snap[v].pub = {ct};                  // ciphertext is public
            S.add(k); S.active = true; S.freed.clear();
            if (er != 1) { e = noise_cipherstate_init_key(c, k2.data(), 32); CHECK(e == 0, "init_key"); live_clean("init_key"); snap[v].live = live_blocks(); if (er == 2) { al::Pause q; lb::encrypt(c, pattern(20), ct); } }
            S.freed.clear();
        }
        snap[v].freed = S.freed; end(); op(3);
    }
    compare(snap[0], snap[1], id == NOISE_CIPHER_AESGCM ? "AESGCM cipher state" : "ChaChaPoly cipher state");
    outcome("cipher objects"); distinct(mix(88, mix(id, use * 8 + er)));
}
static void hash_objects() {
    static const int ids[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
    int id = pick(ids, "hash"), what = choose(6, "operation"); size_t n = (size_t[]){1, 31, 32, 63, 64, 65, 127, 128, 129, 200}[choose(10, "length")]; shard();
    Snap snap[2];
    for (int v = 0; v < 2; v++) {
        begin(); S.record = true; doing = "free of a hash object";
        { lb::HaSt h; int e = noise_hashstate_new_by_id(h.out(), id); CHECK(e == 0, "new");
            bytes k = sec(v, 4, n); size_t L = rc::hashlen(id); bytes o1(L, 0), o2(L, 0), kd(100, 0);
            S.add(k); S.active = true;
            switch (what) {
            case 0: e = noise_hashstate_reset(h); e |= noise_hashstate_update(h, k.data(), n); break;
            case 1: e = noise_hashstate_hash_one(h, k.data(), n, &o1[0], L); break;
            case 2: e = noise_hashstate_hash_two(h, k.data(), n, k.data(), n / 2, &o1[0], L); break;
            case 3: e = noise_hashstate_hkdf(h, k.data(), n, k.data(), n, &o1[0], L, &o2[0], L); break;
            case 4: e = noise_hashstate_hkdf(h, pattern(L).data(), L, k.data(), n, &o1[0], L, &o2[0], L); break;
            case 5: e = noise_hashstate_pbkdf2(h, k.data(), n, pattern(16).data(), 16, 3, &kd[0], 100); S.add(kd); break;
            }
            CHECK(e == 0, "hash operation %d: %s", what, lb::err(e).c_str());
            if (what) { S.add(o1); S.add(o2); }
            S.freed.clear();
        }
        snap[v].freed = S.freed; end(); op(2);
    }
    compare(snap[0], snap[1], "hash state");
    outcome("hash objects"); distinct(mix(99, mix(id, what * 1000 + n)));
}
static void sym_objects() {
    int c = choose(2, "cipher"), h = choose(4, "hash"), upto = choose(6, "steps"); shard();
    Proto p; p.pattern = NOISE_PATTERN_XX; p.dh = NOISE_DH_CURVE25519; p.cipher = c ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY; p.hash = (int[]){NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b}[h];
    Snap snap[2];
    for (int v = 0; v < 2; v++) {
        begin(); S.record = true; doing = "free of a symmetric state";
        rn::Sym m; m.init(p);
        { lb::SySt s; NoiseProtocolId id = p.id(); int e = noise_symmetricstate_new_by_id(s.out(), &id); CHECK(e == 0, "new");
            lb::CSt c1, c2;
            for (int i = 0; i < upto; i++) {
                bytes k = sec(v, 10 + i, 32);
                if (i == 2) { Block b(40 + 16); NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, 40, b.n); al::Pause q; e = noise_symmetricstate_encrypt_and_hash(s, &nb); m.encrypt_and_hash(bytes(40, 0xa5)); }
                else if (i == 4) { e = noise_symmetricstate_split(s, c1.out(), c2.out()); bytes k1, k2; m.split(k1, k2); S.add(k1); S.add(k2); S.add(m.ck); }
                else if (i < 4) { e = noise_symmetricstate_mix_key(s, k.data(), 32); m.mix_key(k); S.add(m.ck); S.add(m.k); }
                else e = 0;
                CHECK(e == 0, "step %d: %s", i, lb::err(e).c_str());
            }
            S.active = true; S.freed.clear();
        }
        snap[v].freed = S.freed; end(); op(upto);
    }
    compare(snap[0], snap[1], "symmetric state");
    outcome("symmetric objects"); distinct(mix(111, mix(c * 8 + h, upto)));
}
static void rand_objects() {
    int ops = choose(4, "operations"); shard();
    Snap snap[2];
    for (int v = 0; v < 2; v++) {
        rng::reset(3000 + v); begin(); S.record = true; doing = "free of a random state"; S.active = true;
        { lb::RSt r; int e = noise_randstate_new(r.out()); CHECK(e == 0, "new"); bytes o(100, 0); 
          if (ops & 1) { noise_randstate_generate(r, &o[0], 100); S.add(o); } if (ops & 2) { noise_randstate_reseed(r); noise_randstate_generate(r, &o[0], 33); o.resize(32); S.add(o); }
          for (auto &l : rng::r().log) S.add(l); live_clean("generate"); 
          if (rng::r().calls) { al::Pause q; for (auto &e2 : al::a().live) S.add(B(e2.first, e2.second.size)); }
        }
        snap[v].freed = S.freed; S.freed.clear(); end();
    }
    compare(snap[0], snap[1], "random state"); outcome("random objects"); distinct(mix(122, ops));
}
// Sessions ----------------------------------------------------------------------------------------
static void add_model_secrets(const rn::HS &m) {
    for (auto *k : {&m.s, &m.e, &m.f}) if (!k->priv.empty()) S.add(k->priv);
    if (!m.e_seed.empty()) S.add(m.e_seed); if (!m.f_seed.empty()) S.add(m.f_seed); if (!m.psk.empty()) S.add(m.psk);
}
static void add_sym(const rn::HS &m) { if (m.sym.has_key) S.add(m.sym.k); if (m.sym.has_key || m.proto.psk) S.add(m.sym.ck); }
static void session(const Proto &p, int mode, int stop, long fault) {
    // mode 0: both ends of the session freed after `stop` steps; 1: message `stop` altered; 2: allocation `fault` fails
    auto models = lb::model_pair(p, B("prologue"));
    rng::reset(7); begin(); doing = "the session"; S.record = false;
    add_model_secrets(models.i); add_model_secrets(models.r);
    if (models.i.s.have() && models.r.s.have()) S.add(rn::agree(p.dh, models.i.s, models.r.s));
    S.active = true;
    if (fault >= 0) al::a().fail_at = fault;
    int step = 0;
    auto run = [&] {
        lb::HSt hi, hr; lb::CSt cs[4];
        int e = lb::create(hi, p, true); if (!e) e = lb::create(hr, p, false);
        if (!e) e = lb::configure(hi, models.i, true); if (!e) e = lb::configure(hr, models.r, true);
        if (!e) e = noise_handshakestate_start(hi); if (!e) e = noise_handshakestate_start(hr);
        if (fault < 0) CHECK(e == 0, "setup: %s", lb::err(e).c_str());
        if (e) return;
        models.i.start(); models.r.start(); add_sym(models.i);
        bool ini_writes = true, same = fault < 0;
        while (models.i.next() == rn::WRITE || models.i.next() == rn::READ) {
            if (mode == 0 && step == stop) return;
            rn::HS &mw = ini_writes ? models.i : models.r, &mr = ini_writes ? models.r : models.i;
            NoiseHandshakeState *w = ini_writes ? hi : hr, *r = ini_writes ? hr : hi;
            bytes pl = pattern(20, step), msg, x, want = mw.write(pl), got;
            add_model_secrets(mw); add_sym(mw);
            // the message's intermediate keys
            e = lb::write(w, pl, msg, want.size()); if (same) CHECK(e == 0 && msg == want, "write: %s", lb::err(e).c_str()); if (e) return;
            if (mode == 1 && step == stop) { bytes bad = msg; bad[bad.size() - 1] ^= 1; e = lb::read(r, bad, got, pl.size()); if (e) return; same = false; }
            else { e = lb::read(r, msg, got, pl.size()); if (same) CHECK(e == 0 && got == pl, "read: %s", lb::err(e).c_str()); if (e) return; }
            mr.read(want, x); add_sym(mr);
            step++; ini_writes = !ini_writes;
        }
        if (mode == 0 && step == stop) return;
        bytes k1, k2; models.i.sym.split(k1, k2); S.add(k1); S.add(k2);
        e = noise_handshakestate_split(hi, cs[0].out(), cs[1].out()); if (same) CHECK(e == 0, "split"); if (e) return;
        e = noise_handshakestate_split(hr, cs[2].out(), cs[3].out()); if (same) CHECK(e == 0, "split"); if (e) return;
        { al::Pause q; bytes ct, pt; if (cs[0].p) lb::encrypt(cs[0], pattern(50), ct); if (cs[3].p && stop & 1) lb::decrypt(cs[3], ct, pt); }
    };
    run();
    op(step + 2);
    end();
}
static int steps_of(const Proto &p) { return (int)rn::find(p.pattern)->msgs.size(); }
static void sessions() {
    static std::vector<Proto> protos;
    if (protos.empty()) {
        for (auto &p : lb::core_protos()) if (!rn::find(p.pattern)->fallback) protos.push_back(p);
        size_t n = protos.size();
        for (size_t i = 0; i < n; i++) { Proto p = protos[i]; if (i % 3 == 0) { p.dh = NOISE_DH_CURVE448; p.hash = NOISE_HASH_SHA512; p.cipher = NOISE_CIPHER_AESGCM; if (p.hybrid) p.hybrid = NOISE_DH_CURVE448; protos.push_back(p); } if (p.hybrid) { p.hybrid = NOISE_DH_NEWHOPE; protos.push_back(p); } }
    }
    const Proto &p = pick(protos, "protocol"); int mode = choose(3, "mode"); shard();
    if (mode < 2) { int stop = choose(steps_of(p) + (mode ? 0 : 2), "stop"); note(p.name()); session(p, mode, stop, -1); distinct(hash_str(p.name(), mode * 10 + stop)); outcome(mode ? "session with an altered message" : "session abandoned"); if (stop == 2) sample(fmt("%s %s %d steps", p.name().c_str(), mode ? "altered after" : "freed after", stop)); }
    else {
        if (!g().thorough && p.psk != (p.hybrid == 0)) skip();
        note(p.name());
        for (long f = 0; f < 200; f++) { session(p, 2, 9, f); distinct(hash_str(p.name(), 1000 + f)); if (al::a().failed == 0) break; }
        outcome("session with a failing allocation");
    }
}
// Certificates and keys -----------------------------------------------------------------------------
static bytes keyA() { return sec(0, 40, 32); }
static bytes keyB() { return sec(0, 41, 56); }
static ct::PrivKey privkey() { ct::PrivKey k = ct::mksubj(2); k.keys[0].key = keyA(); k.keys[1].key = keyB(); return k; }
static void key_files() {
    int what = choose(9, "operation"), variant = choose(6, "variant"); shard();
    static const char *wn[] = {"load from buffer", "load from buffer, wrong passphrase", "load from buffer, altered", "load a key whose contents are malformed", "load from file", "save to buffer", "save to file", "save to a small buffer", "load a truncated file"};
    bytes pass = B("correct horse battery staple!"), salt = pattern(16, 3);
    int cipher = variant & 1 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY, hash = variant / 2 == 0 ? NOISE_HASH_BLAKE2b : variant / 2 == 1 ? NOISE_HASH_SHA256 : NOISE_HASH_SHA512;
    std::string pn = fmt("%s_%s_PBKDF2", rn::cipher_name(cipher), rn::hash_name(hash));
    bytes plain = privkey().enc(); if (what == 3) plain[plain.size() - 9] = 0xff, plain = plain + B("\x22\x7f");
    uint32_t it = 3; bytes kd = rc::pbkdf2(hash, pass, salt, it, 40);
    bytes file = ct::protect(plain, pass, pn.c_str(), cipher, hash, it, salt);
    if (what == 2) file[file.size() - 1] ^= 1; if (what == 8) file.resize(file.size() - 20);
    bytes usepass = pass; if (what == 1) usepass[3] ^= 1;
    char dir[] = "vh-c11-XXXXXX"; std::string path;
    bool files = what == 4 || what == 6 || what == 8;
    if (files) { if (!mkdtemp(dir)) { printf("@error mkdtemp\n"); _exit(3); } path = std::string(dir) + "/key"; if (what != 6) { FILE *f = fopen(path.c_str(), "wb"); fwrite(file.data(), 1, file.size(), f); fclose(f); } }
    long limit = (what >= 5 && what <= 7) ? (g().thorough ? 100 : 6) : 200;        // saving derives the key with 20000 iterations
    for (long f = -1; f < limit; f++) {
        rng::reset(5); begin(); doing = wn[what];
        S.add(keyA()); S.add(keyB()); S.add(bytes(kd.begin(), kd.begin() + 32)); S.add(kd); S.add(pass);
        long failed = 0;
        {
            ct::PrivO o;
            if (what >= 5 && what <= 7) {
                al::Pause q; Noise_PrivateKey *k = 0; Noise_PrivateKey_new(&k); ct::build(k, privkey(), ct::plain); o.p = k;
            }
            S.active = true;
            if (f >= 0) al::a().fail_at = f;
            al::a().serial = 0;
            int e = 0;
            if (what <= 3) { Block in(file); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, in.p, in.n); e = noise_load_private_key_from_buffer(o.out(), &pb, usepass.data(), usepass.size()); if (f < 0) CHECK((e == 0) == (what == 0), "%s: %s", wn[what], lb::err(e).c_str()); }
            else if (what == 4 || what == 8) { e = noise_load_private_key_from_file(&o.p, path.c_str(), pass.data(), pass.size()); if (f < 0) CHECK((e == 0) == (what == 4), "%s: %s", wn[what], lb::err(e).c_str()); }
            else if (what == 5 || what == 7) {
                size_t cap = what == 5 ? 600 : (size_t[]){0, 20, 100, 160, 220, 260}[variant];
                Block out(cap, 0); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, out.p, cap); 
                e = noise_save_private_key_to_buffer(o, &pb, pass.data(), pass.size(), pn.c_str());
                if (f < 0 && what == 5) CHECK(e == 0, "%s: %s", wn[what], lb::err(e).c_str());
                size_t at; CHECKK("buffer", !S.find(out.p, cap, at), "%s left secret bytes in the caller's buffer at %zu (result %s)", wn[what], at, lb::err(e).c_str());
            } else { e = noise_save_private_key_to_file(o, path.c_str(), pass.data(), pass.size(), pn.c_str()); if (f < 0) CHECK(e == 0, "%s: %s", wn[what], lb::err(e).c_str()); }
            failed = al::a().failed; al::a().fail_at = -1;
        }
        end(); op(); distinct(mix(555, mix(what * 8 + variant, f + 1)));
        if (f >= 0 && !failed) break;
        if (what >= 5 && variant > 1 && !g().thorough) break;
    }
    if (files) { unlink(path.c_str()); rmdir(dir); }
    outcome(wn[what]);
}
static void key_messages() {   // the accessors of the private key messages
    int what = choose(8, "operation"); shard();
    static const char *wn[] = {"set_key again", "clear_key", "free of PrivateKeyInfo", "free of PrivateKey", "clear_keys", "reading a malformed PrivateKey", "adding many keys", "re-reading"};
    begin(); doing = wn[what]; S.add(keyA()); S.add(keyB());
    bytes k2 = sec(5, 1, 16);
    auto info = [&](Noise_PrivateKeyInfo *&i, const bytes &k) { Noise_PrivateKeyInfo_new(&i); Noise_PrivateKeyInfo_set_algorithm(i, "25519", 5); Noise_PrivateKeyInfo_set_key(i, k.data(), k.size()); };
    Noise_PrivateKeyInfo *i = 0; Noise_PrivateKey *k = 0; int e = 0;
    S.active = true;
    switch (what) {
    case 0: info(i, keyB()); Noise_PrivateKeyInfo_set_key(i, k2.data(), k2.size()); live_clean("set_key"); Noise_PrivateKeyInfo_free(i); break;
    case 1: info(i, keyA()); Noise_PrivateKeyInfo_clear_key(i); live_clean("clear_key"); Noise_PrivateKeyInfo_free(i); break;
    case 2: info(i, keyA()); Noise_PrivateKeyInfo_free(i); break;
    case 3: Noise_PrivateKey_new(&k); ct::build(k, privkey(), ct::plain); Noise_PrivateKey_free(k); break;
    case 4: Noise_PrivateKey_new(&k); ct::build(k, privkey(), ct::plain); Noise_PrivateKey_clear_keys(k); live_clean("clear_keys"); Noise_PrivateKey_free(k); break;
    case 5: { bytes b = privkey().enc(); for (size_t n = 1; n <= b.size(); n++) { Block x(b.substr(0, n)); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, x.p, x.n); k = 0; e = Noise_PrivateKey_read(&pb, 0, &k); if (k) Noise_PrivateKey_free(k); live_clean("read"); distinct(mix(777, n)); } break; }
    case 6: Noise_PrivateKey_new(&k); for (int n = 0; n < 140; n++) { Noise_PrivateKeyInfo *x = 0; info(x, n & 1 ? keyA() : keyB()); if (n % 3 == 0) Noise_PrivateKey_insert_keys(k, n / 2, x); else { Noise_PrivateKeyInfo *y = 0; Noise_PrivateKey_add_keys(k, &y); Noise_PrivateKeyInfo_set_key(y, keyA().data(), 32); Noise_PrivateKeyInfo_free(x); } } Noise_PrivateKey_free(k); break;
    case 7: { bytes b = privkey().enc() + privkey().enc(); Block x(b); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, x.p, x.n); e = Noise_PrivateKey_read(&pb, 0, &k); CHECK(e == 0, "read"); Noise_PrivateKey_free(k); bytes c = privkey().keys[0].enc() + privkey().keys[1].enc(); Block y(c); noise_protobuf_prepare_input(&pb, y.p, y.n); e = Noise_PrivateKeyInfo_read(&pb, 0, &i); if (i) { live_blocks(); Noise_PrivateKeyInfo_free(i); } break; }
    }
    { al::Pause q; live_clean(wn[what]); }
    end(); op(); outcome(wn[what]); distinct(mix(666, what));
}
static void body() {
    switch (choose(9, "part")) {
    case 0: dh_objects(); break; case 1: sign_objects(); break; case 2: cipher_objects(); break; case 3: hash_objects(); break; case 4: sym_objects(); break;
    case 5: rand_objects(); break; case 6: sessions(); break; case 7: key_files(); break; default: key_messages();
    }
}
VH_MAIN2(body, rng::install)
