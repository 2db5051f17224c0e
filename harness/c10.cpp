// C10: every library operation with every allocation failing, alone, together with all later ones, and (thorough) in pairs.
#include "certs.hpp"
#include "alloc.hpp"
#include "rng.hpp"
#include <sys/stat.h>
using namespace vh;
using rn::Proto;

// Fault control: allocations are counted and failed only inside step().
struct Ctl { long at = -1, at2 = -1; bool all = false; long seen = 0; bool any = false; };
static Ctl ctl;
struct Stop {};
static std::vector<int> in; static size_t inp;               // choices of the scenario itself, made before it runs
static int ich() { return in.at(inp++); }
struct On { On() { al::A &x = al::a(); x.on = true; x.serial = ctl.seen; x.fail_at = ctl.at; x.fail_at2 = ctl.at2; x.fail_all_after = ctl.all; x.failed = 0; } ~On() { al::a().on = false; ctl.seen = al::a().serial; if (al::a().failed) ctl.any = true; } };
// One operation: it must succeed, or a failed allocation must be reported as NO_MEMORY.  then it is tried again.
template <class F, class N> static int step_n(const char *what, F f, N null_after, bool retry = true) {
    for (int t = 0; t < 4; t++) {
        long failed; int e; { On on; e = f(); failed = al::a().failed; } op();
        if (!failed) { CHECK(e == 0, "%s: %s although no allocation failed", what, lb::err(e).c_str()); return 0; }
#ifdef VH_CONFIG_sodium
        // The AES-GCM object of libsodium has a second implementation behind it: the operation may succeed with that one.
        if (e == 0 && failed == 1) { outcome("done with the other implementation"); ctl.all = false; return 0; }
#endif
        CHECKK(fmt("%s out of memory", what), e == NOISE_ERROR_NO_MEMORY, "%s: an allocation failed and the result is %s", what, lb::err(e).c_str());
        CHECKK(fmt("%s out of memory", what), null_after(), "%s: out of memory, but the handle is not null", what);
        outcome("refused"); ctl.all = false;
        if (!retry) throw Stop();
    }
    failk(fmt("%s never succeeds", what), "%s never succeeds", what); return -1;
}
template <class F> static int step(const char *what, F f, bool retry = true) { return step_n(what, f, [] { return true; }, retry); }
template <class P, class F> static void make(const char *what, P **h, F f) {
    step_n(what, [&] { *h = (P *)(uintptr_t)0x10; int e = f(); if (*h == (P *)(uintptr_t)0x10) *h = 0; return e; }, [&] { return *h == 0; });
    CHECK(*h, "%s: success with a null handle", what);
}
// A getter which returns null when memory is exhausted.
template <class F> static NoiseDHState *getter(const char *what, F f) {
    for (int t = 0; t < 4; t++) { NoiseDHState *d; long failed; { On on; d = f(); failed = al::a().failed; } op(); if (!failed) { CHECK(d, "%s: null although no allocation failed", what); return d; } CHECKK(fmt("%s out of memory", what), !d, "%s: an allocation failed and the result is not null", what); ctl.all = false; outcome("refused"); }
    return 0;
}

// ---- protocol objects
static void objects() {
    int k = ich(); static const int ids[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE, NOISE_SIGN_ED25519};
    static const char *names[] = {"ChaChaPoly", "AESGCM", "BLAKE2s", "BLAKE2b", "SHA256", "SHA512", "25519", "448", "NewHope", "Ed25519"};
    bool name = ich(); bytes d = pattern(50);
    if (k < 2) {
        lb::CSt c; make("cipherstate_new", c.out(), [&] { return name ? noise_cipherstate_new_by_name(&c.p, names[k]) : noise_cipherstate_new_by_id(&c.p, ids[k]); });
        bytes key = pattern(32, 3), ct, pt;
        step("cipherstate_init_key", [&] { return noise_cipherstate_init_key(c, key.data(), 32); });
        step("cipherstate_encrypt", [&] { return lb::encrypt(c, d, ct, &d); }); CHECK(ct == rc::aead(ids[k], key, 0, d, d), "wrong ciphertext");
        step("cipherstate_set_nonce", [&] { return 0; });
        lb::CSt c2; make("cipherstate_new", c2.out(), [&] { return noise_cipherstate_new_by_id(&c2.p, ids[k]); });
        step("cipherstate_init_key", [&] { return noise_cipherstate_init_key(c2, key.data(), 32); });
        step("cipherstate_decrypt", [&] { return lb::decrypt(c2, ct, pt, &d); }); CHECK(pt == d, "wrong plaintext");
    } else if (k < 6) {
        lb::HaSt h; make("hashstate_new", h.out(), [&] { return name ? noise_hashstate_new_by_name(&h.p, names[k]) : noise_hashstate_new_by_id(&h.p, ids[k]); });
        Block o(rc::hashlen(ids[k])); step("hashstate_hash_one", [&] { return noise_hashstate_hash_one(h, d.data(), d.size(), o.p, o.n); }); CHECK(o.get() == rc::hash(ids[k], d), "wrong hash");
        Block o1(o.n), o2(o.n); step("hashstate_hkdf", [&] { return noise_hashstate_hkdf(h, d.data(), 32, d.data(), 20, o1.p, o1.n, o2.p, o2.n); });
        bytes r1, r2; rc::hkdf2(ids[k], bytes(d.begin(), d.begin() + 32), bytes(d.begin(), d.begin() + 20), r1, r2); CHECK(o1.get() == r1 && o2.get() == r2, "wrong HKDF");
        Block o3(70); step("hashstate_pbkdf2", [&] { return noise_hashstate_pbkdf2(h, d.data(), 9, d.data(), 16, 3, o3.p, o3.n); }); CHECK(o3.get() == rc::pbkdf2(ids[k], bytes(d.begin(), d.begin() + 9), bytes(d.begin(), d.begin() + 16), 3, 70), "wrong PBKDF2");
    } else if (k < 9) {
        lb::DSt a, b, c; for (auto *x : {&a, &b, &c}) make("dhstate_new", x->out(), [&] { return name ? noise_dhstate_new_by_name(&x->p, names[k]) : noise_dhstate_new_by_id(&x->p, ids[k]); });
        noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER); noise_dhstate_set_role(c, NOISE_ROLE_INITIATOR);
        step("dhstate_generate_keypair", [&] { return noise_dhstate_generate_keypair(a); });
        if (ids[k] == NOISE_DH_NEWHOPE) step("dhstate_generate_dependent_keypair", [&] { return noise_dhstate_generate_dependent_keypair(b, a); }); else step("dhstate_generate_keypair", [&] { return noise_dhstate_generate_keypair(b); });
        Block s1(noise_dhstate_get_shared_key_length(a)), s2(s1.n);
        step("dhstate_calculate", [&] { return noise_dhstate_calculate(a, b, s1.p, s1.n); }); step("dhstate_calculate", [&] { return noise_dhstate_calculate(b, a, s2.p, s2.n); }); CHECK(s1.get() == s2.get(), "shared keys differ");
        step("dhstate_copy", [&] { return noise_dhstate_copy(c, a); }); CHECK(noise_dhstate_has_keypair(c), "the copy has no keypair");
        char fp[200]; step("dhstate_format_fingerprint", [&] { return noise_dhstate_format_fingerprint(a, NOISE_FINGERPRINT_BASIC, fp, sizeof fp); });
        step("format_fingerprint", [&] { Block pk(32, 3); return noise_format_fingerprint(NOISE_FINGERPRINT_BASIC, fp, sizeof fp, pk.p, pk.n); });
    } else if (k == 9) {
        lb::SSt a; make("signstate_new", a.out(), [&] { return name ? noise_signstate_new_by_name(&a.p, names[k]) : noise_signstate_new_by_id(&a.p, ids[k]); });
        step("signstate_generate_keypair", [&] { return noise_signstate_generate_keypair(a); }); Block sig(64);
        step("signstate_sign", [&] { return noise_signstate_sign(a, d.data(), d.size(), sig.p, 64); }); step("signstate_verify", [&] { return noise_signstate_verify(a, d.data(), d.size(), sig.p, 64); });
        lb::SSt b; make("signstate_new", b.out(), [&] { return noise_signstate_new_by_id(&b.p, ids[k]); }); step("signstate_copy", [&] { return noise_signstate_copy(b, a); }); step("signstate_verify", [&] { return noise_signstate_verify(b, d.data(), d.size(), sig.p, 64); });
    } else if (k == 10) {
        lb::RSt r; make("randstate_new", r.out(), [&] { return noise_randstate_new(&r.p); }); Block o(100, 0), q(100, 0); step("randstate_generate", [&] { return noise_randstate_generate(r, o.p, o.n); }); step("randstate_generate_simple", [&] { return noise_randstate_generate_simple(q.p, q.n); }); step("randstate_pad", [&] { return noise_randstate_pad(r, o.p, 50, 100, NOISE_PADDING_RANDOM); }); CHECK(o.get() != q.get(), "equal random data");
    } else if (k == 11) {
        Proto p = lb::core_protos()[ich()]; p.hash = NOISE_HASH_SHA512; std::string n = p.name(); NoiseProtocolId id = p.id();
        lb::SySt s; make("symmetricstate_new", s.out(), [&] { return name ? noise_symmetricstate_new_by_name(&s.p, n.c_str()) : noise_symmetricstate_new_by_id(&s.p, &id); });
        step("symmetricstate_mix_key", [&] { return noise_symmetricstate_mix_key(s, d.data(), 32); }); step("symmetricstate_mix_hash", [&] { return noise_symmetricstate_mix_hash(s, d.data(), 32); });
        int which = ich(); lb::CSt c1, c2; c1.p = c2.p = 0;
        step_n("symmetricstate_split", [&] { return noise_symmetricstate_split(s, which != 1 ? &c1.p : 0, which != 2 ? &c2.p : 0); }, [&] { return !c1.p && !c2.p; });
        CHECK((which == 1 || c1.p) && (which == 2 || c2.p), "split succeeded without objects");
        bytes x; if (c1.p) step("cipherstate_encrypt", [&] { return lb::encrypt(c1, d, x); }); if (c2.p) step("cipherstate_encrypt", [&] { return lb::encrypt(c2, d, x); });
    } else {
        char buf[100]; NoiseProtocolId id = lb::core_protos()[5].id(); step("protocol_id_to_name", [&] { return noise_protocol_id_to_name(buf, sizeof buf, &id); }); step("protocol_name_to_id", [&] { return noise_protocol_name_to_id(&id, buf, strlen(buf)); });
        step("noise_init", [&] { return noise_init(); });
    }
}

// ---- a whole session
static void session(const Proto &p, int variant) {
    bool byname = variant & 1;
    lb::Pair m = lb::model_pair(p, pattern(37, 5)); bool fb = rn::find(p.pattern)->fallback;
    lb::HSt h[2]; std::string n = p.name(); NoiseProtocolId id = p.id(); rng::reset(3);
    for (int i = 0; i < 2; i++) make("handshakestate_new", h[i].out(), [&] { return byname ? noise_handshakestate_new_by_name(&h[i].p, n.c_str(), i ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR) : noise_handshakestate_new_by_id(&h[i].p, &id, i ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR); });
    if (fb) { outcome("fallback pattern"); return; }
    for (int i = 0; i < 2; i++) {
        rn::HS &mm = i ? m.r : m.i; NoiseHandshakeState *x = h[i];
        if (variant & 2) step("set_prologue", [&] { return noise_handshakestate_set_prologue(x, "another", 7); });
        step("set_prologue", [&] { return noise_handshakestate_set_prologue(x, mm.prologue.data(), mm.prologue.size()); });
        if (p.psk) step("set_pre_shared_key", [&] { return noise_handshakestate_set_pre_shared_key(x, mm.psk.data(), 32); });
        if (mm.s.have()) step("set local key", [&] { return noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(x), mm.s.priv.data(), mm.s.priv.size()); });
        if (mm.rs.have()) step("set remote key", [&] { return noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(x), mm.rs.pub.data(), mm.rs.pub.size()); });
        NoiseDHState *d = 0;
        if (i == 0 || !rn::find(p.pattern)->oneway) { d = getter("get_fixed_ephemeral_dh", [&] { return noise_handshakestate_get_fixed_ephemeral_dh(x); }); step("set ephemeral", [&] { return noise_dhstate_set_keypair_private(d, mm.e_seed.data(), mm.e_seed.size()); }); }
        if (p.hybrid) { d = getter("get_fixed_hybrid_dh", [&] { return noise_handshakestate_get_fixed_hybrid_dh(x); }); step("set hybrid", [&] { return noise_dhstate_set_keypair_private(d, mm.f_seed.data(), mm.f_seed.size()); }); }
        step("start", [&] { return noise_handshakestate_start(x); }, false); mm.start();
    }
    for (size_t k = 0; k < rn::find(p.pattern)->msgs.size(); k++) {
        int w = k & 1; bytes pl = pattern(10 + k), msg, got; rn::HS &mw = w ? m.r : m.i, &mr = w ? m.i : m.r;
        step("write_message", [&] { return lb::write(h[w], pl, msg, 30000); }, false); bytes ex = mw.write(pl); CHECKK("transcript differs", msg == ex, "message %zu differs", k);
        step("read_message", [&] { return lb::read(h[1 - w], msg, got, 30000); }, false); CHECK(got == pl, "wrong payload"); mr.read(msg, got);
    }
    lb::CSt cs[2][2]; int which = variant >> 2;
    for (int i = 0; i < 2; i++) {
        bytes hh; step("get_handshake_hash", [&] { return lb::hs_hash(h[i], p.hash, hh); }); CHECK(hh == m.i.sym.h, "wrong handshake hash");
        bool s = which != 1, r = which != 2;
        step_n("handshakestate_split", [&] { cs[i][0].p = cs[i][1].p = 0; return noise_handshakestate_split(h[i], s ? &cs[i][0].p : 0, r ? &cs[i][1].p : 0); }, [&] { return !cs[i][0].p && !cs[i][1].p; });
        CHECK((!s || cs[i][0].p) && (!r || cs[i][1].p), "split succeeded without objects");
    }
    if (!which) for (int i = 0; i < 2; i++) { bytes d = pattern(30), c, t; if (i && rn::find(p.pattern)->oneway) break; step("cipherstate_encrypt", [&] { return lb::encrypt(cs[i][0], d, c); }); step("cipherstate_decrypt", [&] { return lb::decrypt(cs[1 - i][1], c, t); }); CHECK(t == d, "transport message lost"); }
    outcome("session completed");
}
static void fallback_session(const Proto &p) {
    lb::Pair m = lb::model_pair(p, pattern(20)); lb::HSt h; rng::reset(4); CHECK(lb::create(h, p, false) == 0 && lb::configure(h, m.r, false) == 0 && noise_handshakestate_start(h) == 0, "setup");
    m.i.start(); bytes msg = m.i.write(pattern(5)), got; CHECK(lb::read(h, msg, got, 3000) == 0, "first message");
    step("fallback", [&] { return noise_handshakestate_fallback_to(h, p.hybrid ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK); }, false);
    step("set_prologue", [&] { return noise_handshakestate_set_prologue(h, "x", 1); }); step("start", [&] { return noise_handshakestate_start(h); }, false); step("write_message", [&] { return lb::write(h, pattern(5), msg, 30000); }, false);
}

// ---- protobuf helpers
static void protobuf_helpers() {
    int k = ich(); int count = k >= 2 ? 70 : 1;
    if (k < 2) for (size_t n : {(size_t)0, (size_t)1, (size_t)40}) {
        bytes v(n, 'a'), enc = ct::pb::delim(7, v); Block b(enc); NoiseProtobuf pb; void *p = 0; size_t sz = 0;
        step_n(k ? "read_alloc_bytes" : "read_alloc_string", [&] { noise_protobuf_prepare_input(&pb, b.p, b.n); p = (void *)0x10; sz = 99; int e = k ? noise_protobuf_read_alloc_bytes(&pb, 7, &p, 0, &sz) : noise_protobuf_read_alloc_string(&pb, 7, (char **)&p, 0, &sz); if (e) CHECK(pb.error == e, "the out-of-memory error is not sticky"); if (p == (void *)0x10) p = 0; return e; }, [&] { return !p && !sz; });
        CHECK(p && sz == n && bytes((uint8_t *)p, (uint8_t *)p + n) == v, "wrong value"); noise_protobuf_free_memory(p, sz);
    }
    if (k == 2 || k == 3) {
        void *arr = 0; size_t cnt = 0, max = 0; std::vector<uint32_t> mod;
        for (uint32_t i = 0; i < (uint32_t)count; i++) {
            uint32_t v = i * 77 + 1; size_t idx = k == 2 ? cnt : i % 3 == 0 ? 0 : i % 3 == 1 ? cnt / 2 : cnt + 5;
            step(k == 2 ? "add_to_array" : "insert_into_array", [&] { size_t c0 = cnt; int e = k == 2 ? noise_protobuf_add_to_array(&arr, &cnt, &max, &v, 4) : noise_protobuf_insert_into_array(&arr, &cnt, &max, idx, &v, 4); if (e) CHECK(cnt == c0, "the count changed although the element could not be added"); return e; });
            mod.insert(mod.begin() + std::min(idx, mod.size()), v); CHECK(cnt == mod.size() && !memcmp(arr, mod.data(), cnt * 4), "the array is wrong after %u additions", i + 1);
        }
        noise_protobuf_free_memory(arr, max * 4);
    }
    if (k >= 4) {
        void **arr = 0; size_t *len = 0; size_t cnt = 0, max = 0;
        for (int i = 0; i < count; i++) { bytes v(i % 5, 'b'); step(k == 4 ? "add_to_string_array" : "add_to_bytes_array", [&] { size_t c0 = cnt; int e = k == 4 ? noise_protobuf_add_to_string_array((char ***)&arr, &len, &cnt, &max, (const char *)v.data(), v.size()) : noise_protobuf_add_to_bytes_array(&arr, &len, &cnt, &max, v.data(), v.size()); if (e) CHECK(cnt == c0, "the count changed"); return e; });
            for (size_t j = 0; j < cnt; j++) CHECK(len[j] == j % 5 && bytes((uint8_t *)arr[j], (uint8_t *)arr[j] + len[j]) == bytes(j % 5, 'b'), "element %zu is wrong", j); CHECK(cnt == (size_t)i + 1, "wrong count"); }
        for (size_t j = 0; j < cnt; j++) noise_protobuf_free_memory(arr[j], len[j]); noise_protobuf_free_memory(arr, max * sizeof(void *)); noise_protobuf_free_memory(len, max * sizeof(size_t));
    }
}

// ---- certificates and keys
static int srun(const char *w, std::function<int()> f) { return step(w, f); }
static std::string tmpfile_name() { static std::string d; if (d.empty()) { char t[] = "vh-c10-XXXXXX"; d = mkdtemp(t); atexit([] { unlink((d + "/f").c_str()); rmdir(d.c_str()); }); } return d + "/f"; }
static void put(const bytes &b) { FILE *f = fopen(tmpfile_name().c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
static bytes slurp() { bytes b; FILE *f = fopen(tmpfile_name().c_str(), "rb"); if (!f) return b; int c; while ((c = fgetc(f)) != EOF) b.push_back((uint8_t)c); fclose(f); return b; }

static void certificates() {
    int k = ich(); int level = ich(); ct::Cert mc = ct::mkcert(level); ct::Chain ch; for (int i = 0; i < (level == 3 ? 5 : level); i++) ch.certs.push_back(ct::mkcert(level == 3 ? 1 : level, i + 1));
    ct::PrivKey pk = ct::mksubj(level);
    if (k == 0) { ct::CertO c; make("Certificate_new", c.out(), [&] { return Noise_Certificate_new(&c.p); }); ct::build(c, mc, srun); CHECK(ct::get(c) == mc, "the certificate is not what was set"); bytes b; CHECK(ct::save(Noise_Certificate_write, c.p, b) == 0 && b == mc.enc(), "wrong encoding"); }
    if (k == 1) { ct::ChainO c; make("CertificateChain_new", c.out(), [&] { return Noise_CertificateChain_new(&c.p); }); ct::build(c, ch, srun); CHECK(ct::get(c) == ch, "the chain is not what was set"); }
    if (k == 2) { ct::PrivO c; make("PrivateKey_new", c.out(), [&] { return Noise_PrivateKey_new(&c.p); }); ct::build(c, pk, srun); CHECK(ct::get(c) == pk, "the key is not what was set");
        step("PrivateKey_set_id", [&] { return Noise_PrivateKey_set_id(c, "replaced", 8); }); CHECK(std::string(Noise_PrivateKey_get_id(c)) == "replaced", "wrong value");
        for (int i = 0; i < 6; i++) { Noise_PrivateKeyInfo *n = 0; make("PrivateKeyInfo_new", &n, [&] { return Noise_PrivateKeyInfo_new(&n); }); ct::build(n, ct::mkkey(i), srun); pk.keys.insert(pk.keys.begin() + std::min<size_t>(1, pk.keys.size()), ct::mkkey(i)); step("PrivateKey_insert_keys", [&] { return Noise_PrivateKey_insert_keys(c, 1, n); }); }
        pk.id = ct::S("replaced"); CHECK(ct::get(c) == pk, "the key is not what was set"); }
    if (k == 3 || k == 4 || k == 11) { bytes enc = k == 4 ? ch.enc() : mc.enc(); if (k == 4 && ch.certs.empty()) skip(); bytes want = k == 4 ? ch.certs[0].enc() : enc; Block b(enc); NoiseProtobuf pb; Noise_Certificate *c = 0; if (k == 11) put(enc); if (k == 11 && enc.empty()) skip();
        make(k == 11 ? "load_certificate_from_file" : "load_certificate_from_buffer", &c, [&] { if (k == 11) return noise_load_certificate_from_file(&c, tmpfile_name().c_str()); noise_protobuf_prepare_input(&pb, b.p, b.n); return noise_load_certificate_from_buffer(&c, &pb); });
        ct::CertO o; o.p = c; CHECKK("loaded certificate differs", ct::get(c).enc() == want, "the loaded certificate differs"); }
    if (k == 5 || k == 6 || k == 12) { bytes enc = k == 6 ? mc.enc() : ch.enc(); if (enc.empty()) skip(); Block b(enc); NoiseProtobuf pb; Noise_CertificateChain *c = 0; if (k == 12) put(enc);
        make(k == 12 ? "load_certificate_chain_from_file" : "load_certificate_chain_from_buffer", &c, [&] { if (k == 12) return noise_load_certificate_chain_from_file(&c, tmpfile_name().c_str()); noise_protobuf_prepare_input(&pb, b.p, b.n); return noise_load_certificate_chain_from_buffer(&c, &pb); });
        ct::ChainO o; o.p = c; ct::Chain w = ch; if (k == 6) { w.certs.clear(); w.certs.push_back(mc); } CHECKK("loaded certificate differs", ct::get(c) == w, "the loaded chain differs"); }
    if (k == 7 || k == 8) { static const char *pn[] = {"ChaChaPoly_BLAKE2b_PBKDF2", "AESGCM_SHA256_PBKDF2"}; int v = level & 1;
        bytes enc = ct::protect(pk.enc(), B("pass"), pn[v], v ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY, v ? NOISE_HASH_SHA256 : NOISE_HASH_BLAKE2b, 2, pattern(16)); Block b(enc); NoiseProtobuf pb; Noise_PrivateKey *c = 0; if (k == 8) put(enc);
        make(k == 8 ? "load_private_key_from_file" : "load_private_key_from_buffer", &c, [&] { if (k == 8) return noise_load_private_key_from_file(&c, tmpfile_name().c_str(), "pass", 4); noise_protobuf_prepare_input(&pb, b.p, b.n); return noise_load_private_key_from_buffer(&c, &pb, "pass", 4); });
        ct::PrivO o; o.p = c; CHECKK("loaded key differs", ct::get(c) == pk, "the loaded key differs"); }
    if (k == 9) { if (level == 0) skip(); ct::CertO c; ct::ChainO cc; Noise_Certificate_new(&c.p); ct::build(c, mc, ct::plain); Noise_CertificateChain_new(&cc.p); ct::build(cc, ch, ct::plain); put(B("old content"));
        step("save_certificate_to_file", [&] { return noise_save_certificate_to_file(c, tmpfile_name().c_str()); }); CHECK(slurp() == mc.enc(), "wrong file content");
        step("save_certificate_chain_to_file", [&] { return noise_save_certificate_chain_to_file(cc, tmpfile_name().c_str()); }); CHECK(slurp() == ch.enc(), "wrong file content");
        Block b(mc.enc().size() + 10); NoiseProtobuf pb; step("save_certificate_to_buffer", [&] { noise_protobuf_prepare_output(&pb, b.p, b.n); return noise_save_certificate_to_buffer(c, &pb); }); }
    if (k == 10) { if (level != 1) skip(); bool file = ich(); ct::PrivO c; Noise_PrivateKey_new(&c.p); ct::build(c, pk, ct::plain); Block b(2000); NoiseProtobuf pb; uint8_t *d = 0; size_t n = 0;
        step(file ? "save_private_key_to_file" : "save_private_key_to_buffer", [&] { if (file) return noise_save_private_key_to_file(c, tmpfile_name().c_str(), "pass", 4, "ChaChaPoly_BLAKE2b_PBKDF2"); noise_protobuf_prepare_output(&pb, b.p, b.n); return noise_save_private_key_to_buffer(c, &pb, "pass", 4, "ChaChaPoly_BLAKE2b_PBKDF2"); });
        bytes enc; if (file) enc = slurp(); else { CHECK(noise_protobuf_finish_output(&pb, &d, &n) == 0, "finish"); enc = B(d, n); }
        Block eb(enc); noise_protobuf_prepare_input(&pb, eb.p, eb.n); ct::PrivO l; CHECK(noise_load_private_key_from_buffer(&l.p, &pb, "pass", 4) == 0 && ct::get(l) == pk, "the saved key does not load"); }
}

static void guarded(const std::function<void()> &f) {
    inp = 0; ctl.seen = 0; ctl.any = false; al::start(); al::a().on = false;
    try { f(); } catch (Stop &) { outcome("stopped"); }
}
static void leak_check() { CHECKK("leak", al::live() == 0, "%zu blocks are still allocated: %s", al::live(), al::live_text().c_str()); }

static void body() {
    static std::map<std::vector<int>, long> counts;
    auto protos = lb::core_protos(); static const std::vector<Proto> &extra = *new std::vector<Proto>([] { std::vector<Proto> v; for (auto &p : lb::all_protos()) if ((p.pattern == NOISE_PATTERN_NN || p.pattern == NOISE_PATTERN_NN_HFS || p.pattern == NOISE_PATTERN_XX || p.pattern == NOISE_PATTERN_IK_HFS) && (p.cipher == NOISE_CIPHER_AESGCM) == (p.hash == NOISE_HASH_SHA256 || p.hash == NOISE_HASH_SHA512)) v.push_back(p); return v; }());
    int kind = choose(5, "kind"); std::function<void()> f; std::string name; Proto p; int variant = 0;
    if (kind == 1) { int n = choose((int)(protos.size() + extra.size()), "protocol"); p = n < (int)protos.size() ? protos[n] : extra[n - protos.size()]; variant = n < (int)protos.size() || g().thorough ? choose(g().thorough ? 12 : 4, "variant") : n % 12; if (!g().thorough && n < (int)protos.size() && variant == 3) variant = 3 + 4 * (1 + n % 2); name = p.name(); f = [&] { session(p, variant); }; }
    else if (kind == 2) { int n = choose(4, "protocol"); p = Proto(); p.pattern = n & 1 ? NOISE_PATTERN_IK_HFS : NOISE_PATTERN_XK; p.psk = n >> 1; p.dh = NOISE_DH_CURVE25519; p.hybrid = n & 1 ? NOISE_DH_CURVE25519 : 0; p.cipher = NOISE_CIPHER_CHACHAPOLY; p.hash = NOISE_HASH_BLAKE2s; if (p.pattern == NOISE_PATTERN_XK) p.pattern = NOISE_PATTERN_IK; name = "fallback " + p.name(); f = [&] { fallback_session(p); }; }
    else if (kind == 0) f = objects; else if (kind == 3) f = protobuf_helpers; else f = certificates;
    // The choices of the scenario are made first; its allocations are counted once per process.
    in.clear(); auto ask = [&](int n, const char *w) { in.push_back(choose(n, w)); return in.back(); };
    if (kind == 0) { int k = ask(13, "object"); ask(2, "by id or name"); if (k == 11) { ask((int)protos.size(), "protocol"); ask(3, "split outputs"); } }
    if (kind == 3) ask(6, "helper");
    if (kind == 4) { int k = ask(13, "operation"); ask(4, "size"); if (k == 10) ask(2, "to"); }
    std::vector<int> key(g().choices.begin(), g().choices.begin() + g().pos);
    int mode = choose(g().thorough ? 3 : 2, "fault");
    auto it = counts.find(key);
    if (it == counts.end()) {
        long n = 0; ctl = Ctl();
        try { guarded(f); n = ctl.seen; leak_check(); } catch (Skip &) { n = -1; }
        it = counts.emplace(key, n).first;
    }
    long n = it->second; if (n < 0) skip();
    note(fmt("kind %d %s (%s), %ld allocations", kind, name.c_str(), vec(in).c_str(), n));
    if (n == 0) { if (mode) skip(); shard(); outcome("no allocations"); distinct(hash_str(g().note + vec(key))); return; }
    int at = choose((int)n, "failing allocation"), at2 = -1; if (mode == 2) { if (n > 60) skip(); at2 = choose((int)n + 2, "second"); if (at2 <= at) skip(); }
    shard();
    ctl = Ctl(); ctl.at = at; ctl.at2 = at2; ctl.all = mode == 1;
    guarded(f);
    leak_check(); CHECK(ctl.any, "the fault was not reached");
    distinct(hash_str(fmt("%s %d %d %d", vec(key).c_str(), mode, at, at2))); sample(fmt("%s: allocation %d%s", g().note.c_str(), at, mode == 1 ? " and all later" : ""));
}
static void setup() { rng::install(); }
VH_MAIN2(body, setup)
