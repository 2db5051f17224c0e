// C22: sessions do not influence each other.  A session is a script of steps over its own objects and its own stream of entropy.
// Interleaving part: the transcripts of two (three) sessions in every order of their steps, up to a number of switches, equal those of
// the sessions run alone.  Thread part (thread sanitizer): two sessions in two threads without any synchronisation; when no two accesses
// conflict all interleavings are equivalent to the one that was run.
#include "certs.hpp"
#include "rng.hpp"
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <atomic>
using namespace vh;
struct Script {
    rng::R ent; bytes tr; int bad = 0; std::vector<std::function<void()>> steps;
    virtual ~Script() {}
    void out(const bytes &b) { uint32_t n = (uint32_t)b.size(); tr += B(&n, 4) + b; }
    void out(int e) { tr += B(&e, sizeof e); if (e) bad = bad ? bad : e; }
    void step(size_t i) { rng::stream() = &ent; steps[i](); rng::stream() = nullptr; }
};
struct Handshake : Script {
    rn::Proto p; lb::Pair m; lb::HSt a, b; lb::CSt ia, ir, ra, rr; int serial; int msg = 0; bool fallback = false;
    Handshake(int pattern, int psk, int dh, int hy, int c, int h, int ser) : serial(ser) {
        p.pattern = pattern; p.psk = psk; p.dh = dh; p.hybrid = hy; p.cipher = c; p.hash = h; m = lb::model_pair(p, B(fmt("prologue %d", ser)), ser); ent.seed = 700 + ser;
        steps.push_back([this] { out(lb::create(a, p, true)); out(lb::create(b, p, false)); out(lb::configure(a, m.i, false)); out(lb::configure(b, m.r, false)); out(noise_handshakestate_start(a)); out(noise_handshakestate_start(b)); });
        int nm = pattern == NOISE_PATTERN_XX || pattern == NOISE_PATTERN_XX_FALLBACK ? 3 : 2;
        for (int i = 0; i < nm; i++) {
            steps.push_back([this] { bytes w; NoiseHandshakeState *s = msg & 1 ? b : a, *r = msg & 1 ? a : b; out(lb::write(s, pattern_of(msg), last, 5000)); out(last); (void)r; });
            steps.push_back([this] { bytes g; NoiseHandshakeState *r = msg & 1 ? a : b; out(lb::read(r, last, g, 5000)); out(g); msg++; });
        }
        steps.push_back([this] { NoiseCipherState *x = 0, *y = 0; bytes hh; out(noise_handshakestate_split(a, &x, &y)); ia.p = x; ra.p = y; out(noise_handshakestate_split(b, &x, &y)); ir.p = x; rr.p = y; out(lb::hs_hash(a, p.hash, hh)); out(hh); for (int k = 0; k < 2; k++) { bytes ct, pt; out(lb::encrypt(ia, pattern_of(k + 10), ct)); out(ct); out(lb::decrypt(rr, ct, pt)); out(pt); out(lb::encrypt(ir, pattern_of(k + 20), ct)); out(ct); out(lb::decrypt(ra, ct, pt)); out(pt); } });
    }
    bytes last; bytes pattern_of(int i) { return pattern(20 + i * 3, (uint8_t)(i + serial), 3); }
};
struct Fallback : Script {
    rn::Proto p; lb::Pair m; lb::HSt a, b; int serial; bytes msg;
    Fallback(int ser) : serial(ser) {
        p.pattern = NOISE_PATTERN_IK; p.dh = NOISE_DH_CURVE25519; p.cipher = NOISE_CIPHER_AESGCM; p.hash = NOISE_HASH_SHA256; m = lb::model_pair(p, B("fb"), ser); ent.seed = 800 + ser; lb::make_static(m.i.rs, p.dh, 'r', ser + 50); m.i.rs.priv.clear();
        steps.push_back([this] { out(lb::create(a, p, true)); out(lb::create(b, p, false)); out(lb::configure(a, m.i, false)); out(lb::configure(b, m.r, false)); out(noise_handshakestate_start(a)); out(noise_handshakestate_start(b)); });
        steps.push_back([this] { out(lb::write(a, B("early"), msg, 500)); out(msg); });
        steps.push_back([this] { bytes g; int e = lb::read(b, msg, g, 500); tr += B(&e, 4); if (e != NOISE_ERROR_MAC_FAILURE) bad = 1; out(noise_handshakestate_fallback(b)); out(noise_handshakestate_start(b)); });
        steps.push_back([this] { out(lb::write(b, B("fell back"), msg, 500)); out(msg); out(noise_handshakestate_fallback(a)); out(noise_handshakestate_start(a)); });
        steps.push_back([this] { bytes g; out(lb::read(a, msg, g, 500)); out(g); out(lb::write(a, B("fine"), msg, 500)); out(msg); });
        steps.push_back([this] { bytes g; out(lb::read(b, msg, g, 500)); out(g); bytes h; out(lb::hs_hash(a, p.hash, h)); out(h); out(lb::hs_hash(b, p.hash, h)); out(h); });
    }
};
static const int HS[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
struct Hashing : Script {
    lb::HaSt h[4]; int ser;
    Hashing(int s) : ser(s) {
        steps.push_back([this] { for (int i = 0; i < 4; i++) { out(noise_hashstate_new_by_id(h[i].out(), HS[i])); out(noise_hashstate_reset(h[i])); } });
        for (int k = 0; k < 4; k++) steps.push_back([this, k] { for (int i = 0; i < 4; i++) { bytes d = pattern(37 * (k + 1) + ser, (uint8_t)(k * 4 + i + ser)); out(noise_hashstate_update(h[i], d.data(), d.size())); } });
        steps.push_back([this] { for (int i = 0; i < 4; i++) { Block o(rc::hashlen(HS[i])); out(noise_hashstate_finalize(h[i], o.p, o.n)); out(o.get()); } });
    }
};
struct Kdf : Script {
    lb::HaSt h[4]; int ser;
    Kdf(int s) : ser(s) {
        steps.push_back([this] { for (int i = 0; i < 4; i++) out(noise_hashstate_new_by_id(h[i].out(), HS[i])); });
        for (int k = 0; k < 5; k++) steps.push_back([this, k] { for (int i = 0; i < 4; i++) { size_t n = rc::hashlen(HS[i]); bytes key = lb::secret('x', 'k', n, ser + k), d = pattern(30 * k + ser, 3), d2 = pattern(15, (uint8_t)ser); Block o1(n), o2(n), o3(50), o4(n);
            out(noise_hashstate_hkdf(h[i], key.data(), n, d.data(), d.size(), o1.p, n, o2.p, n)); out(o1.get()); out(o2.get()); out(noise_hashstate_pbkdf2(h[i], key.data(), 20 + k, d2.data(), 15, 3, o3.p, 50)); out(o3.get()); out(noise_hashstate_hash_two(h[i], d.data(), d.size(), d2.data(), 15, o4.p, n)); out(o4.get()); } });
    }
};
struct Ciphers : Script {
    lb::CSt c[4]; int ser; bytes ct[4];
    Ciphers(int s) : ser(s) {
        steps.push_back([this] { for (int i = 0; i < 4; i++) { out(noise_cipherstate_new_by_id(c[i].out(), i & 1 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY)); bytes k = lb::secret('c', 'k', 32, ser); out(noise_cipherstate_init_key(c[i], k.data(), 32)); } });
        for (int k = 0; k < 3; k++) { steps.push_back([this, k] { for (int i = 0; i < 2; i++) { bytes ad = pattern(k * 9, 2), pt = pattern(40 * k + ser + 1, (uint8_t)k); out(lb::encrypt(c[i], pt, ct[i], &ad)); out(ct[i]); } }); steps.push_back([this, k] { for (int i = 0; i < 2; i++) { bytes ad = pattern(k * 9, 2), pt; out(lb::decrypt(c[i + 2], ct[i], pt, &ad)); out(pt); } if (k == 0) for (int i = 0; i < 4; i++) { out(noise_cipherstate_set_nonce(c[i], 100 + ser)); } if (k == 1) { bytes kk = lb::secret('c', 'q', 32, ser); for (int i = 0; i < 4; i++) out(noise_cipherstate_init_key(c[i], kk.data(), 32)); } }); }
    }
};
struct Signing : Script {
    lb::SSt a, b; int ser; bytes sig;
    Signing(int s) : ser(s) {
        ent.seed = 900 + s; steps.push_back([this] { out(noise_signstate_new_by_id(a.out(), NOISE_SIGN_ED25519)); out(noise_signstate_new_by_id(b.out(), NOISE_SIGN_ED25519)); });
        steps.push_back([this] { if (ser & 1) out(noise_signstate_generate_keypair(a)); else { bytes k = lb::secret('s', 'k', 32, ser); out(noise_signstate_set_keypair_private(a, k.data(), 32)); } Block x(32), y(32); out(noise_signstate_get_keypair(a, x.p, 32, y.p, 32)); out(x.get()); out(y.get()); out(noise_signstate_set_public_key(b, y.p, 32)); });
        for (int k = 0; k < 2; k++) { steps.push_back([this, k] { bytes m = pattern(10 + 60 * k + ser); Block o(64); out(noise_signstate_sign(a, m.data(), m.size(), o.p, 64)); sig = o.get(); out(sig); }); steps.push_back([this, k] { bytes m = pattern(10 + 60 * k + ser); out(noise_signstate_verify(b, m.data(), m.size(), sig.data(), 64)); sig[5] ^= 1; int e = noise_signstate_verify(b, m.data(), m.size(), sig.data(), 64); tr += B(&e, 4); if (!e) bad = 1; }); }
    }
};
struct Dh : Script {
    lb::DSt a[3], b[3]; int ser; bytes pa[3], pb[3];
    Dh(int s) : ser(s) {
        ent.seed = 1000 + s; static const int id[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
        steps.push_back([this] { for (int i = 0; i < 3; i++) { out(noise_dhstate_new_by_id(a[i].out(), id[i])); out(noise_dhstate_new_by_id(b[i].out(), id[i])); out(noise_dhstate_set_role(a[i], NOISE_ROLE_INITIATOR)); out(noise_dhstate_set_role(b[i], NOISE_ROLE_RESPONDER)); } });
        steps.push_back([this] { for (int i = 0; i < 3; i++) { out(noise_dhstate_generate_keypair(a[i])); pub(a[i], pa[i]); } });
        steps.push_back([this] { for (int i = 0; i < 3; i++) { lb::DSt r; out(noise_dhstate_new_by_id(r.out(), id[i])); out(noise_dhstate_set_role(r, NOISE_ROLE_INITIATOR)); out(noise_dhstate_set_public_key(r, pa[i].data(), pa[i].size())); out(noise_dhstate_generate_dependent_keypair(b[i], r)); calc(b[i], r); pub(b[i], pb[i]); } });
        steps.push_back([this] { for (int i = 0; i < 3; i++) { lb::DSt r; out(noise_dhstate_new_by_id(r.out(), id[i])); out(noise_dhstate_set_role(r, NOISE_ROLE_RESPONDER)); out(noise_dhstate_set_public_key(r, pb[i].data(), pb[i].size())); calc(a[i], r); lb::DSt k; out(noise_dhstate_new_by_id(k.out(), id[i])); out(noise_dhstate_copy(k, a[i])); calc(k, r); } });
        steps.push_back([this] { for (int i = 0; i < 2; i++) { bytes k = lb::secret('d', 'k', i ? 56 : 32, ser); out(noise_dhstate_set_keypair_private(a[i], k.data(), k.size())); pub(a[i], pa[i]); calc(a[i], b[i]); out(noise_dhstate_set_keypair(b[i], k.data(), k.size(), pa[i].data(), pa[i].size())); } });
    }
    void pub(NoiseDHState *d, bytes &o) { Block x(noise_dhstate_get_public_key_length(d)); out(noise_dhstate_get_public_key(d, x.p, x.n)); o = x.get(); out(o); char f[100]; out(noise_dhstate_format_fingerprint(d, NOISE_FINGERPRINT_FULL, f, sizeof f)); out(B(f)); }
    void calc(NoiseDHState *x, NoiseDHState *y) { Block s(noise_dhstate_get_shared_key_length(x)); out(noise_dhstate_calculate(x, y, s.p, s.n)); out(s.get()); }
};
struct Random : Script {
    lb::RSt r; int ser;
    Random(int s) : ser(s) {
        ent.seed = 1100 + s; auto gen = [this](size_t n) { Block o(n); out(noise_randstate_generate(r, o.p, n)); out(o.get()); };
        steps.push_back([this] { out(noise_randstate_new(r.out())); }); steps.push_back([=] { gen(100 + ser); }); steps.push_back([=] { gen(1500); }); steps.push_back([this] { Block o(200); memset(o.p, 1, 200); out(noise_randstate_pad(r, o.p, 20, 200, NOISE_PADDING_RANDOM)); out(o.get()); out(noise_randstate_reseed(r)); }); steps.push_back([=] { gen(64); }); steps.push_back([this] { Block o(80); out(noise_randstate_generate_simple(o.p, 80)); out(o.get()); });
    }
};
struct Symmetric : Script {
    lb::SySt y; int ser; bytes ct;
    Symmetric(int s) : ser(s) {
        steps.push_back([this] { out(noise_symmetricstate_new_by_name(y.out(), ser & 1 ? "Noise_XX_25519_AESGCM_SHA256" : "Noise_XX_448_ChaChaPoly_BLAKE2b")); });
        steps.push_back([this] { bytes d = pattern(77 + ser); out(noise_symmetricstate_mix_hash(y, d.data(), d.size())); }); steps.push_back([this] { bytes d = lb::secret('y', 'k', 32, ser); out(noise_symmetricstate_mix_key(y, d.data(), 32)); });
        steps.push_back([this] { for (int k = 0; k < 3; k++) { Block b(60); memset(b.p, k, 60); NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, 40, 60); out(noise_symmetricstate_encrypt_and_hash(y, &nb)); out(b.get(nb.size <= 60 ? nb.size : 0)); } }); steps.push_back([this] { bytes d = lb::secret('y', 'q', 56, ser); out(noise_symmetricstate_mix_key(y, d.data(), 56)); });
        steps.push_back([this] { NoiseCipherState *a = 0, *b = 0; out(noise_symmetricstate_split(y, &a, &b)); bytes c; out(lb::encrypt(a, B("one"), c)); out(c); out(lb::encrypt(b, B("two"), c)); out(c); noise_cipherstate_free(a); noise_cipherstate_free(b); });
    }
};
struct Certs : Script {
    ct::CertO o, o2; int ser; ct::Cert m; bytes enc;
    Certs(int s) : ser(s), m(ct::mkcert(2 + (s & 1), s + 1)) {
        m.subject->id = B(fmt("subject %d", s)); steps.push_back([this] { out(Noise_Certificate_new(&o.p)); }); steps.push_back([this] { out(ct::build(o, m, ct::plain)); }); steps.push_back([this] { out(ct::save(Noise_Certificate_write, (const Noise_Certificate *)o.p, enc)); out(enc); });
        steps.push_back([this] { NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, enc.data(), enc.size()); out(Noise_Certificate_read(&pb, 0, &o2.p)); out(noise_protobuf_finish_input(&pb)); }); steps.push_back([this] { bytes e; out(ct::save(Noise_Certificate_write, (const Noise_Certificate *)o2.p, e)); out(e); if (e != enc) bad = 1; }); steps.push_back([this] { o.reset(); o2.reset(); });
    }
};
struct PrivKeys : Script {
    ct::PrivO o, o2; int ser; ct::PrivKey m; bytes enc;
    PrivKeys(int s) : ser(s), m(ct::mksubj(1)) {
        ent.seed = 1200 + s; m.id = B(fmt("key %d", s)); steps.push_back([this] { out(Noise_PrivateKey_new(&o.p)); out(ct::build(o, m, ct::plain)); });
        steps.push_back([this] { Block b(2000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, 2000); out(noise_save_private_key_to_buffer(o, &pb, "pass", 4, ser & 1 ? "AESGCM_SHA256_PBKDF2" : "ChaChaPoly_BLAKE2b_PBKDF2")); uint8_t *d = 0; size_t n = 0; out(noise_protobuf_finish_output(&pb, &d, &n)); enc = d ? B(d, n) : bytes(); out(enc); });
        steps.push_back([this] { NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, enc.data(), enc.size()); out(noise_load_private_key_from_buffer(&o2.p, &pb, "pass", 4)); });
        steps.push_back([this] { bytes e; out(ct::save(Noise_PrivateKey_write, (const Noise_PrivateKey *)o2.p, e)); out(e); });
    }
};
struct Names : Script {
    int ser;
    Names(int s) : ser(s) {
        for (int k = 0; k < 6; k++) steps.push_back([this, k] { static const char *nm[] = {"Noise_XX_25519_AESGCM_SHA256", "NoisePSK_NN_448_ChaChaPoly_BLAKE2b", "Noise_XXfallback+hfs_25519+NewHope_AESGCM_BLAKE2s", "Noise_K_448_AESGCM_SHA512", "Noise_IKhfs", "nothing"}; const char *n = nm[(k + ser) % 6]; NoiseProtocolId id; memset(&id, 0, sizeof id); int e = noise_protocol_name_to_id(&id, n, strlen(n)); tr += B(&e, 4) + B(&id, sizeof id); char b[100]; memset(b, 0, 100); e = noise_protocol_id_to_name(b, sizeof b, &id); tr += B(&e, 4) + B(b);
            for (int c = 0; c < 20; c++) { e = noise_strerror(NOISE_ID('E', c), b, sizeof b); tr += B(&e, 4) + B(b); } bytes d = pattern(30 + k + ser); out(noise_format_fingerprint(NOISE_FINGERPRINT_BASIC, b, sizeof b, d.data(), d.size())); out(B(b)); const char *q = noise_id_to_name(0, NOISE_HASH_SHA256 + k % 4); tr += B(q ? q : "-"); e = noise_name_to_id(0, "AESGCM", 6); tr += B(&e, 4); });
    }
};
static const int NSCRIPTS = 13, NQUICK = 12;
static const char *sn[] = {"XX", "NNpsk448", "NNhfs NewHope", "IK fallback", "hashing", "key derivation", "ciphers", "signing", "Diffie-Hellman", "random", "symmetric state", "certificates", "names", "private key files"};
static std::unique_ptr<Script> make(int k, int ser) {
    switch (k) {
    case 0: return std::make_unique<Handshake>(NOISE_PATTERN_XX, 0, NOISE_DH_CURVE25519, 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2s, ser);
    case 1: return std::make_unique<Handshake>(NOISE_PATTERN_NN, 1, NOISE_DH_CURVE448, 0, NOISE_CIPHER_AESGCM, NOISE_HASH_SHA512, ser);
    case 2: return std::make_unique<Handshake>(NOISE_PATTERN_NN_HFS, 0, NOISE_DH_CURVE25519, NOISE_DH_NEWHOPE, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2b, ser);
    case 3: return std::make_unique<Fallback>(ser); case 4: return std::make_unique<Hashing>(ser); case 5: return std::make_unique<Kdf>(ser); case 6: return std::make_unique<Ciphers>(ser); case 7: return std::make_unique<Signing>(ser);
    case 8: return std::make_unique<Dh>(ser); case 9: return std::make_unique<Random>(ser); case 10: return std::make_unique<Symmetric>(ser); case 11: return std::make_unique<Certs>(ser); case 12: return std::make_unique<Names>(ser); default: return std::make_unique<PrivKeys>(ser);
    }
}
static const bytes &alone(int k, int ser) {
    static std::map<std::pair<int, int>, bytes> c; auto it = c.find({k, ser}); if (it != c.end()) return it->second;
    auto s = make(k, ser); for (size_t i = 0; i < s->steps.size(); i++) s->step(i); CHECKK("a session fails alone", !s->bad, "the %s session fails when it runs alone: %s", sn[k], lb::err(s->bad).c_str()); return c[{k, ser}] = s->tr;
}
#ifndef VH_THREADS
static void body() {
    int n = g().opts.count("three=1") ? 3 : 2; int k[3] = {0, 0, 0}; k[0] = choose(NSCRIPTS, "first session"); k[1] = choose(NSCRIPTS, "second session"); if (k[1] < k[0]) skip(); if (n == 3) { k[2] = choose(NSCRIPTS, "third session"); if (k[2] < k[1]) skip(); } bool same = n == 2 && k[0] == k[1] && flag("with equal data"); shard();
    std::unique_ptr<Script> s[3]; const bytes *want[3]; size_t pos[3] = {0, 0, 0}; for (int i = 0; i < n; i++) { want[i] = &alone(k[i], same ? 0 : i); s[i] = make(k[i], same ? 0 : i); }
    int sw = 0, maxsw = g().thorough ? (n == 3 ? 5 : 8) : n == 3 ? 3 : 4, cur = -1; std::string tr;
    for (;;) {
        int avail[3], na = 0; for (int i = 0; i < n; i++) if (pos[i] < s[i]->steps.size()) avail[na++] = i; if (!na) break;
        bool can_stay = cur >= 0 && pos[cur] < s[cur]->steps.size(); int next;
        if (!can_stay) next = na == 1 ? avail[0] : avail[choose(na, "next session")];
        else if (sw >= maxsw || na == 1) next = cur;
        else { int c = choose(na, "next session"); std::swap(avail[0], *std::find(avail, avail + na, cur)); next = avail[c]; if (next != cur) sw++; }
        cur = next; tr += (char)('A' + cur); s[cur]->step(pos[cur]++); op();
    }
    note(fmt("%s, %s%s: %s", sn[k[0]], sn[k[1]], n == 3 ? sn[k[2]] : "", tr.c_str()));
    for (int i = 0; i < n; i++) if (s[i]->tr != *want[i]) { size_t at = 0; while (at < s[i]->tr.size() && at < want[i]->size() && s[i]->tr[at] == (*want[i])[at]) at++; failk(fmt("session %s depends on %s", sn[k[i]], sn[k[i ? 0 : 1]]), "the %s session beside %s differs from the same session alone (byte %zu of its transcript), steps %s", sn[k[i]], sn[k[i ? 0 : 1]], at, tr.c_str()); }
    distinct(hash_str(tr, k[0] * 400 + k[1] * 20 + k[2] + same * 10000)); outcome(fmt("%s beside others", sn[k[0]])); if (sw == 3) sample(tr);
}
#else
static std::atomic<int> reports{0}; static std::atomic<int> turn{0};
extern "C" void __tsan_on_report(void *) { reports++; }
struct Th { Script *s; int order; };
static void *thread_main(void *a) { Th *t = (Th *)a; while (turn.load(std::memory_order_relaxed) != t->order) sched_yield(); for (size_t i = 0; i < t->s->steps.size(); i++) t->s->step(i); turn.fetch_add(1, std::memory_order_relaxed); return nullptr; }
// The harness is not instrumented: the hand-over between the threads is invisible to the sanitizer, so any two conflicting accesses race.
static void body() {
    int a = choose(NSCRIPTS + 1, "first session"), b = choose(NSCRIPTS + 1, "second session"); if (b < a) skip(); shard(); bytes wa = alone(a, 0), wb = alone(b, 1); reports = 0; turn = 0;
    { auto x = make(a, 0), y = make(b, 1); Th ta{x.get(), 0}, tb{y.get(), 1}; pthread_t p, q; if (pthread_create(&p, 0, thread_main, &ta) || pthread_create(&q, 0, thread_main, &tb)) { fprintf(stderr, "cannot create threads\n"); _exit(2); } pthread_join(p, 0); pthread_join(q, 0);
      CHECKK(fmt("data race between %s and %s", sn[a], sn[b]), reports.load() == 0, "the thread sanitizer reported %d data races between a %s session and a %s session in different threads", reports.load(), sn[a], sn[b]); CHECKK("threads", x->tr == wa && y->tr == wb, "a session in a thread of its own differs from the session alone"); }
    op(); distinct(a * 100 + b); outcome(fmt("%s in a thread beside others", sn[a])); sample(fmt("%s and %s in two threads: no conflicting accesses", sn[a], sn[b]));
}
#endif
VH_MAIN2(body, rng::install)
