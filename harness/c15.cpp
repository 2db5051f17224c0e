// C15: certificates, chains and private keys are saved and loaded back; every alteration of a protected key file and of
// the passphrase is tried.
#include "certs.hpp"
#include "rng.hpp"
#include <sys/stat.h>
using namespace vh;

// The derivation of the key and nonce from the passphrase: the first `reserved` salts seen lead to the nonce that may not be used, whenever they come.
static int reserved = 0; static long derived = 0; static std::vector<bytes> badsalts;
extern "C" int __real_noise_hashstate_pbkdf2(NoiseHashState *, const uint8_t *, size_t, const uint8_t *, size_t, size_t, uint8_t *, size_t);
extern "C" int __wrap_noise_hashstate_pbkdf2(NoiseHashState *h, const uint8_t *p, size_t pn, const uint8_t *s, size_t sn, size_t it, uint8_t *o, size_t on) { int e = __real_noise_hashstate_pbkdf2(h, p, pn, s, sn, it, o, on); derived++; g().ticks = 0; bytes salt(s, s + sn); bool bad = std::find(badsalts.begin(), badsalts.end(), salt) != badsalts.end(); if (on == 40 && !bad && reserved > 0) { reserved--; bad = true; badsalts.push_back(salt); } if (on == 40 && bad) memset(o + 32, 0xff, 8); if (derived > 40) failk("endless", "saving one key derived keys 40 times"); return e; }

struct Dir { char d[32] = "vh-c15-XXXXXX"; std::string f; Dir() { if (!mkdtemp(d)) { printf("@error mkdtemp\n"); _exit(3); } f = std::string(d) + "/file"; } ~Dir() { unlink(f.c_str()); rmdir(d); } };
static bytes slurp(const std::string &f) { bytes b; FILE *p = fopen(f.c_str(), "rb"); if (!p) return b; uint8_t t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, p)) > 0) b.append(t, n); fclose(p); return b; }
static void spit(const std::string &f, const bytes &b) { FILE *p = fopen(f.c_str(), "wb"); fwrite(b.data(), 1, b.size(), p); fclose(p); }
// Loads through the buffer or the file entry point.  Returns the error; the object is null exactly when it failed.
static int load_cert(const bytes &b, bool file, ct::CertO &o, Dir *d) {
    int e; *o.out() = (Noise_Certificate *)0;
    if (file) { spit(d->f, b); e = noise_load_certificate_from_file(o.out(), d->f.c_str()); }
    else { Block x(b); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, x.p, x.n); e = noise_load_certificate_from_buffer(o.out(), &pb); }
    op(); CHECK((e == 0) == (o.p != nullptr), "loading a certificate returned %s and %s object", lb::err(e).c_str(), o.p ? "an" : "no"); return e;
}
static int load_chain(const bytes &b, bool file, ct::ChainO &o, Dir *d) {
    int e; *o.out() = (Noise_CertificateChain *)0;
    if (file) { spit(d->f, b); e = noise_load_certificate_chain_from_file(o.out(), d->f.c_str()); }
    else { Block x(b); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, x.p, x.n); e = noise_load_certificate_chain_from_buffer(o.out(), &pb); }
    op(); CHECK((e == 0) == (o.p != nullptr), "loading a chain returned %s and %s object", lb::err(e).c_str(), o.p ? "an" : "no"); return e;
}
static int load_key(const bytes &b, const bytes &pass, bool file, ct::PrivO &o, Dir *d) {
    int e; *o.out() = (Noise_PrivateKey *)0; Block pp(pass); const void *pw = pass.size() ? (void *)pp.p : (void *)"";
    if (file) { spit(d->f, b); e = noise_load_private_key_from_file(o.out(), d->f.c_str(), pw, pass.size()); }
    else { Block x(b); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, x.p, x.n); e = noise_load_private_key_from_buffer(o.out(), &pb, pw, pass.size()); }
    op(); CHECK((e == 0) == (o.p != nullptr), "loading a private key returned %s and %s object", lb::err(e).c_str(), o.p ? "an" : "no"); return e;
}
template <class T, class W> static bytes save_buf(const T *o, W w, size_t size) { Block b(size); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); int e = w(o, &pb); CHECK(e == 0, "saving: %s", lb::err(e).c_str()); uint8_t *d = 0; size_t n = 0; e = noise_protobuf_finish_output(&pb, &d, &n); CHECK(e == 0, "finishing: %s", lb::err(e).c_str()); return B(d, n); }
// Example certificates: subsets of the optional fields
static ct::Cert example(int i) {
    if (i < 4) return ct::mkcert(i);
    i -= 4; ct::Cert c = ct::mkcert(2);
    if (i < 32) { ct::Subj &s = *c.subject; if (i & 1) s.id.reset(); if (i & 2) s.name.reset(); if (i & 4) s.role.reset(); if (i & 8) s.keys.clear(); if (i & 16) s.meta.clear(); return c; }
    i -= 32; ct::Sig &s = c.sigs[1];
    if (i < 64) { if (i & 1) s.id.reset(); if (i & 2) s.name.reset(); if (i & 4) s.key.reset(); if (i & 8) s.hash.reset(); if (i & 16) s.extra.reset(); if (i & 32) s.sig.reset(); return c; }
    i -= 64; ct::Extra &x = *s.extra;
    if (i < 16) { if (i & 1) x.nonce.reset(); if (i & 2) x.from.reset(); if (i & 4) x.to.reset(); if (i & 8) x.meta.clear(); return c; }
    i -= 16;
    if (i < 4) { ct::Key &k = c.subject->keys[1]; if (i & 1) k.alg.reset(); if (i & 2) k.key.reset(); return c; }
    i -= 4;
    if (i < 4) { ct::Meta &m = c.subject->meta[0]; if (i & 1) m.name.reset(); if (i & 2) m.value.reset(); return c; }
    i -= 4;      // versions and sizes
    static const uint32_t vs[] = {0, 1, 2, 127, 128, 16384, 0x7fffffff, 0x80000000u, 0xffffffffu};
    if (i < 9) { c.version = vs[i]; return c; }
    i -= 9;
    static const size_t ls[] = {0, 1, 127, 128, 129, 16383, 16384, 30000};
    if (i < 8) { c.subject->keys[0].key = pattern(ls[i]); c.subject->name = bytes(ls[i], 'n'); return c; }
    i -= 8;
    c.sigs.clear(); for (int k = 0; k < i; k++) c.sigs.push_back(ct::mksig(k % 3, k)); return c;
}
static const int EXAMPLES = 4 + 32 + 64 + 16 + 4 + 4 + 9 + 8 + 7;
static void certificates() {
    int i = choose(EXAMPLES, "certificate"); shard();
    ct::Cert m = example(i); Dir d; ct::CertO o; int e = Noise_Certificate_new(o.out()); CHECK(e == 0, "new"); e = ct::build(o, m, ct::plain); CHECK(e == 0, "build: %s", lb::err(e).c_str());
    bytes want = m.enc(), got;
    ct::Cert expect = m; if (!expect.subject) { expect.subject = ct::Subj(); }
    if (m.subject) { got = save_buf(o.p, noise_save_certificate_to_buffer, want.size()); CHECK(got == want, "the saved bytes differ from the format (example %d)", i); } else got = save_buf(o.p, noise_save_certificate_to_buffer, want.size() + 20);
    if (got.empty()) skip();
    e = noise_save_certificate_to_file(o, d.f.c_str()); CHECK(e == 0, "saving to a file: %s", lb::err(e).c_str()); CHECK(slurp(d.f) == got, "the file differs from the buffer");
    { struct stat st; CHECK(stat(d.f.c_str(), &st) == 0 && (size_t)st.st_size == got.size(), "file size"); }
    for (int file = 0; file < 2; file++) {
        ct::CertO c; e = load_cert(got, file, c, &d); CHECK(e == 0, "loading example %d: %s", i, lb::err(e).c_str()); { ct::Cert g0 = ct::get(c.p); CHECK(g0 == expect || g0 == m, "example %d loads with other contents", i); }
        ct::ChainO ch; e = load_chain(got, file, ch, &d); CHECK(e == 0, "loading example %d as a chain: %s", i, lb::err(e).c_str()); ct::Chain cm = ct::get(ch.p); CHECK(cm.certs.size() == 1 && (cm.certs[0] == expect || cm.certs[0] == m), "example %d loads as a chain with other contents", i);
    }
    if (m.subject && want.size() < 4000) {      // through a chain
        for (int n = 1; n <= 5; n += 2) for (int at = 0; at < n; at += 2) {
            ct::Chain cm; for (int k = 0; k < n; k++) cm.certs.push_back(k == at ? m : ct::mkcert(1 + k % 2, k + 3));
            ct::ChainO co; Noise_CertificateChain_new(co.out()); e = ct::build(co, cm, ct::plain); CHECK(e == 0, "build"); bytes w = cm.enc(), g2 = save_buf(co.p, noise_save_certificate_chain_to_buffer, w.size()); CHECK(g2 == w, "the saved chain differs from the format");
            e = noise_save_certificate_chain_to_file(co, d.f.c_str()); CHECK(e == 0 && slurp(d.f) == w, "saving a chain to a file: %s", lb::err(e).c_str());
            for (int file = 0; file < 2; file++) {
                ct::ChainO ch; e = load_chain(w, file, ch, &d); CHECK(e == 0 && ct::get(ch.p) == cm, "a chain of %d certificates: %s", n, lb::err(e).c_str());
                ct::CertO c; e = load_cert(w, file, c, &d); CHECK(e == 0 && ct::get(c.p) == cm.certs[0], "the first certificate of a chain of %d: %s", n, lb::err(e).c_str());
            }
            distinct(mix(1, mix(i, n * 8 + at)));
        }
    }
    outcome("certificates and chains"); distinct(mix(2, i)); if (i % 20 == 0) sample(fmt("certificate %d: %zu bytes", i, got.size()));
}
static void limits() {           // 65535 byte limit of files
    int what = choose(3, "object"); int dl = choose(9, "size") - 4; shard();
    Dir d; size_t total = (size_t)(65535 + dl); int e;
    if (what < 2) {
        ct::Cert m = ct::mkcert(1); size_t pad = what ? 100 : 0; (void)pad; bytes big(60000, 'x'); m.subject->name = big;
        ct::Chain cm; cm.certs = {m}; auto size = [&] { cm.certs[0] = m; return what ? cm.enc().size() : m.enc().size(); };
        m.subject->name = bytes(60000 + total - size(), 'x'); CHECK(size() == total, "size");
        ct::CertO o; ct::ChainO co; if (what) { Noise_CertificateChain_new(co.out()); ct::build(co, cm, ct::plain); e = noise_save_certificate_chain_to_file(co, d.f.c_str()); } else { Noise_Certificate_new(o.out()); ct::build(o, m, ct::plain); e = noise_save_certificate_to_file(o, d.f.c_str()); }
        if (total <= 65535) { CHECK(e == 0, "saving %zu bytes: %s", total, lb::err(e).c_str()); ct::CertO c; ct::ChainO ch; bytes b = slurp(d.f); CHECK(b.size() == total, "file of %zu bytes", b.size()); if (what) { e = load_chain(b, true, ch, &d); CHECK(e == 0 && ct::get(ch.p) == cm, "loading %zu bytes: %s", total, lb::err(e).c_str()); } else { e = load_cert(b, true, c, &d); CHECK(e == 0 && ct::get(c.p) == m, "loading %zu bytes: %s", total, lb::err(e).c_str()); } }
        else { CHECK(e == NOISE_ERROR_INVALID_LENGTH, "saving %zu bytes returned %s", total, lb::err(e).c_str()); ct::CertO c; e = load_cert(what ? cm.enc() : m.enc(), true, c, &d); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "loading a file of %zu bytes returned %s", total, lb::err(e).c_str()); }
    } else {
        // a private key: to a buffer with plenty of room, to a file; both must come to an end
        static const size_t ks[] = {65000, 65300, 65400, 65440, 65500, 65520, 65536, 66000, 100000}; size_t n = ks[dl + 4];
        ct::PrivKey k = ct::mksubj(1); k.keys[0].key = pattern(n); ct::PrivO o; Noise_PrivateKey_new(o.out()); ct::build(o, k, ct::plain);
        Block b(n + 2000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); bytes pass = B("pass"); size_t plain = k.enc().size();
        e = noise_save_private_key_to_buffer(o, &pb, pass.data(), pass.size(), "ChaChaPoly_BLAKE2s_PBKDF2"); op();
        if (e == 0) { uint8_t *dd; size_t dn; noise_protobuf_finish_output(&pb, &dd, &dn); bytes f = B(dd, dn); ct::PrivO l; e = load_key(f, pass, false, l, &d); CHECK(e == 0 && ct::get(l.p) == k, "a key of %zu bytes was saved but does not load: %s", n, lb::err(e).c_str()); }
        else CHECK(plain + 16 > 65535 && e == NOISE_ERROR_INVALID_LENGTH, "saving a private key of %zu bytes returned %s", plain, lb::err(e).c_str());
        e = noise_save_private_key_to_file(o, d.f.c_str(), pass.data(), pass.size(), "ChaChaPoly_BLAKE2s_PBKDF2"); op();
        if (e == 0) { bytes f = slurp(d.f); CHECK(f.size() <= 65535, "a file of %zu bytes was saved", f.size()); ct::PrivO l; e = load_key(f, pass, true, l, &d); CHECK(e == 0 && ct::get(l.p) == k, "a key of %zu bytes was saved but does not load: %s", n, lb::err(e).c_str()); }
        else CHECK(plain + 100 > 65535 && e == NOISE_ERROR_INVALID_LENGTH, "saving a private key of %zu bytes to a file returned %s", plain, lb::err(e).c_str());
    }
    outcome("size limits"); distinct(mix(3, mix(what, dl + 9)));
}
static const int ciphers[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}, hashes[] = {NOISE_HASH_BLAKE2b, NOISE_HASH_BLAKE2s, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
static ct::PrivKey pkey(int i) { ct::PrivKey k = ct::mksubj(i == 0 ? 2 : i == 1 ? 3 : i == 2 ? 0 : 1); if (i == 4) { k.id.reset(); k.keys[0].alg.reset(); } if (i == 5) k.keys[0].key.reset(); return k; }
static bytes passphrase(int i) { return i == 0 ? B("correct horse battery staple") : i == 1 ? bytes() : i == 2 ? pattern(64, 1) : i == 3 ? pattern(65, 1) : i == 4 ? pattern(200, 1) : i == 5 ? pattern(1, 0xff) : pattern(1500, 1); }
static void save_keys() {        // saved by the library, read by the independent decoder and by the library
    int a = choose(8, "algorithm"), ki = choose(6, "key"), pi = choose(7, "passphrase");
    if (!g().thorough && (ki != a % 6 && pi != (a + ki) % 7)) skip();
    shard();
    int C = ciphers[a & 1], H = hashes[a / 2]; std::string pn = fmt("%s_%s_PBKDF2", rn::cipher_name(C), rn::hash_name(H));
    ct::PrivKey k = pkey(ki); bytes pass = passphrase(pi); Dir d; ct::PrivO o; Noise_PrivateKey_new(o.out()); ct::build(o, k, ct::plain);
    const void *pw = pass.size() ? (const void *)pass.data() : "";
    bytes salts[2];
    for (int file = 0; file < 2; file++) {
        bytes f; int e;
        if (file) { e = noise_save_private_key_to_file(o, d.f.c_str(), pw, pass.size(), pn.c_str()); CHECK(e == 0, "saving to a file: %s", lb::err(e).c_str()); f = slurp(d.f); }
        else { Block b(k.enc().size() + 200); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); e = noise_save_private_key_to_buffer(o, &pb, pw, pass.size(), pn.c_str()); CHECK(e == 0, "saving: %s", lb::err(e).c_str()); uint8_t *dd; size_t dn; noise_protobuf_finish_output(&pb, &dd, &dn); f = B(dd, dn); }
        // independent decoding through the message reader, KDF and AEAD of the reference
        Block x(f); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, x.p, x.n); ct::EncO en; e = Noise_EncryptedPrivateKey_read(&pb, 0, en.out()); CHECK(e == 0, "the file is not an EncryptedPrivateKey: %s", lb::err(e).c_str());
        CHECK(Noise_EncryptedPrivateKey_get_version(en) == 1, "version"); CHECK(std::string(Noise_EncryptedPrivateKey_get_algorithm(en)) == pn, "algorithm name"); 
        bytes salt = B(Noise_EncryptedPrivateKey_get_salt(en), Noise_EncryptedPrivateKey_get_size_salt(en)), ed = B(Noise_EncryptedPrivateKey_get_encrypted_data(en), Noise_EncryptedPrivateKey_get_size_encrypted_data(en)); uint32_t it = Noise_EncryptedPrivateKey_get_iterations(en);
        CHECK(salt.size() >= 8, "a salt of %zu bytes", salt.size()); CHECK(it >= 1000, "%u iterations", it); salts[file] = salt;
        bytes kd = rc::pbkdf2(H, pass, salt, it, 40), pt; uint64_t n = 0; for (int i = 0; i < 8; i++) n = n << 8 | kd[32 + i];
        CHECK(rc::aead_open(C, kd.substr(0, 32), n, bytes(), ed, pt) && pt == k.enc(), "the reference cannot decrypt the file to the same key (%s)", pn.c_str());
        CHECK(f.find(k.enc().substr(0, 40)) == bytes::npos || k.enc().size() < 8, "the key is in the file in the clear");
        ct::PrivO l; e = load_key(f, pass, file, l, &d); CHECK(e == 0, "loading a saved key (%s): %s", pn.c_str(), lb::err(e).c_str()); CHECK(ct::get(l.p) == k, "the loaded key differs");
        ct::PrivO w; bytes wrong = pass + B("x"); e = load_key(f, wrong, file, w, &d); CHECK(e == NOISE_ERROR_MAC_FAILURE, "a wrong passphrase returned %s", lb::err(e).c_str());
    }
    CHECK(salts[0] != salts[1], "two saves used the same salt");
    outcome("saved keys"); distinct(mix(4, mix(a, ki * 8 + pi)));
}
struct Target { bytes file, pass; ct::PrivKey k; };
static Target target(int a, int ki, uint32_t it, size_t sl, const bytes &pass) { Target t; t.k = pkey(ki); t.pass = pass; int C = ciphers[a & 1], H = hashes[a / 2]; t.file = ct::protect(t.k.enc(), pass, fmt("%s_%s_PBKDF2", rn::cipher_name(C), rn::hash_name(H)).c_str(), C, H, it, pattern(sl, 5)); return t; }
// Iteration count that a reader would find (last one wins); 0 when the bytes do not parse that far
static uint64_t iterations(const bytes &b) { size_t p = 0; uint64_t it = 0; auto var = [&](uint64_t &v) { v = 0; int s = 0; while (p < b.size() && s < 64) { v |= (uint64_t)(b[p] & 0x7f) << s; s += 7; if (!(b[p++] & 0x80)) return true; } return false; }; while (p < b.size()) { uint64_t t, v; if (!var(t)) break; if ((t & 7) == 0) { if (!var(v)) break; if (t >> 3 == 13) it = v; } else if ((t & 7) == 2) { if (!var(v) || v > b.size() - p) break; p += v; } else if ((t & 7) == 1) p += 8; else if ((t & 7) == 5) p += 4; else break; } return (uint32_t)it > it ? it : (uint32_t)it; }
static void probe(const Target &t, const bytes &f, const char *what, long at) {
    if (iterations(f) > 100000) { outcome("skipped: would derive with a huge iteration count"); return; }
    ct::PrivO o; int e = load_key(f, t.pass, false, o, nullptr);
    if (e == 0) CHECK(ct::get(o.p) == t.k, "%s at %ld: an altered file loads as a different key", what, at);
    outcome(e ? "altered file refused" : "altered file still holds the same key");
}
static void altered() {
    int a = choose(8, "algorithm"), ki = choose(3, "key"), kind = choose(8, "alteration"); int slice = choose(4, "slice"); shard();
    Target t = target(a, ki == 2 ? 3 : ki, 3, 16, B("secret passphrase")); size_t n = t.file.size();
    { ct::PrivO o; int e = load_key(t.file, t.pass, false, o, nullptr); CHECK(e == 0 && ct::get(o.p) == t.k, "the unaltered file: %s", lb::err(e).c_str()); }
    static const char *kn[] = {"bit", "truncation", "extension", "deletion", "insertion", "byte", "exchange of two bytes", "repeated region"};
    for (size_t i = slice; i < n; i += 4) {
        bytes f = t.file;
        switch (kind) {
        case 0: for (int b = 0; b < 8; b++) { f = t.file; f[i] ^= 1 << b; probe(t, f, kn[0], i); distinct(mix(5, mix(a * 4 + ki, mix(i, b)))); } break;
        case 1: f.resize(i); { ct::PrivO o; int e = load_key(f, t.pass, false, o, nullptr); CHECK(e != 0, "the first %zu of %zu bytes were accepted", i, n); } break;
        case 2: for (int c : {0, 1, 10, 0x7f, 0x80, 0xff}) { f = t.file + bytes(i + 1, (uint8_t)c); probe(t, f, kn[2], i * 256 + c); } f = t.file + t.file.substr(n - i - 1); probe(t, f, "own tail", i); f = t.file + t.file.substr(0, i + 1); probe(t, f, "own head", i); break;
        case 3: f.erase(i, 1); probe(t, f, kn[3], i); f = t.file; f.erase(i, 5); probe(t, f, kn[3], i); break;
        case 4: for (int c : {0, 1, 2, 0x7f, 0x80, 0xff}) { f = t.file; f.insert(i, 1, (uint8_t)c); probe(t, f, kn[4], i); } break;
        case 5: for (int c : {0, 1, 0x7f, 0x80, 0xff}) { f = t.file; f[i] = (uint8_t)c; probe(t, f, kn[5], i); } f[i]++; probe(t, f, kn[5], i); f[i] -= 2; probe(t, f, kn[5], i); break;
        case 6: for (size_t j = i + 1; j < n; j += g().thorough ? 1 : 5) { f = t.file; std::swap(f[i], f[j]); if (f != t.file) probe(t, f, kn[6], i * 1000 + j); } break;
        default: f = t.file.substr(0, i) + t.file; probe(t, f, kn[7], i); f = t.file.substr(i) + t.file; probe(t, f, kn[7], i); f = t.file.substr(0, i) + bytes(n - i, 0); probe(t, f, "zeroed tail", i); f = bytes(i, 0) + t.file.substr(i); probe(t, f, "zeroed head", i);
        }
        distinct(mix(6, mix(a * 4 + ki, mix(kind, i))));
    }
    if (slice == 0 && kind == 0) sample(fmt("private key file of %zu bytes, all bits", n));
}
static void passes() {
    int a = choose(8, "algorithm"), kind = choose(5, "alteration"), len = choose(kind == 4 ? 14 : 5, "length"); shard();
    bytes pass = pattern(kind == 4 ? (size_t[]){255, 256, 257, 300, 511, 513, 1023, 1025, 4097, 32769, 65535, 65536, 65537, 131073}[len] : (size_t[]){1, 16, 64, 128, 150}[len], 0x41, 1); Target t = target(a, 3, 2, 16, pass); Dir d;
    size_t block = (hashes[a / 2] == NOISE_HASH_SHA512 || hashes[a / 2] == NOISE_HASH_BLAKE2b) ? 128 : 64;
    auto wrong = [&](const bytes &w) {
        // HMAC's own equivalences: trailing zero bytes up to the block size, and longer passphrases are hashed
        auto norm = [&](bytes b) { if (b.size() > block) b = rc::hash(hashes[a / 2], b); b.resize(block, 0); return b; };
        if (norm(w) == norm(pass)) return;
        ct::PrivO o; int e = load_key(t.file, w, (w.size() & 7) == 3, o, &d); CHECK(e == NOISE_ERROR_MAC_FAILURE, "a wrong passphrase of %zu bytes returned %s", w.size(), lb::err(e).c_str()); distinct(mix(7, mix(a, hash_bytes(w.data(), w.size()))));
    };
    { ct::PrivO o; int e = load_key(t.file, pass, true, o, &d); CHECK(e == 0 && ct::get(o.p) == t.k, "the right passphrase: %s", lb::err(e).c_str()); }
    if (kind == 0) for (size_t i = 0; i < pass.size(); i++) for (int b = 0; b < 8; b++) { bytes w = pass; w[i] ^= 1 << b; wrong(w); }
    if (kind == 1) for (size_t i = 0; i < pass.size(); i++) { wrong(pass.substr(0, i)); wrong(pass.substr(pass.size() - i)); }
    if (kind == 2) { for (int c = 0; c < 256; c++) { wrong(pass + bytes(1, c)); wrong(bytes(1, c) + pass); } for (size_t i = 1; i < 70; i++) { wrong(pass + bytes(i, 'z')); wrong(pass + bytes(i, 0) + B("z")); } wrong(pass + pass); }
    if (kind == 3) for (size_t i = 0; i < pass.size(); i++) { bytes w = pass; w[i] = 0; wrong(w); w = pass; w[i] = tolower(w[i]); if (w != pass) wrong(w); if (i) { w = pass; std::swap(w[i], w[i - 1]); if (w != pass) wrong(w); } w = pass; w.insert(i, 1, w[i]); wrong(w); w = pass; w.erase(i, 1); wrong(w); }
    if (kind == 4) {     // long passphrases: every byte counts, however far behind
        size_t n = pass.size(); for (size_t k : {(size_t)1, (size_t)2, (size_t)64, (size_t)129}) if (k < n) { wrong(pass.substr(0, n - k)); bytes w = pass; w[n - k] ^= 1; wrong(w); }
        for (size_t b = 128; b < n; b *= 2) for (int d = -1; d < 2; d++) { wrong(pass.substr(0, b + d)); if (b + d < n) { bytes w = pass; w[b + d] ^= 0x80; wrong(w); } }
        wrong(pass + B("x")); wrong(pass + bytes(256 - n % 256, 'A')); if (n > 65536) wrong(pass.substr(0, n - 65536));
    }
    outcome("wrong passphrases");
}
static void parameters() {       // iteration counts, salts, versions, names
    int a = choose(8, "algorithm"), what = choose(4, "parameter"); shard();
    int C = ciphers[a & 1], H = hashes[a / 2]; std::string pn = fmt("%s_%s_PBKDF2", rn::cipher_name(C), rn::hash_name(H)); bytes pass = B("p");
    if (what == 0) for (uint32_t it = 1; it <= 300; it += it < 20 ? 1 : 13) { Target t = target(a, 3, it, 16, pass); ct::PrivO o; int e = load_key(t.file, pass, false, o, nullptr); CHECK(e == 0 && ct::get(o.p) == t.k, "%u iterations: %s", it, lb::err(e).c_str()); distinct(mix(8, mix(a, it))); }
    if (what == 1) for (size_t sl = 1; sl <= 200; sl++) { Target t = target(a, 3, 2, sl, pass); ct::PrivO o; int e = load_key(t.file, pass, false, o, nullptr); CHECK(e == 0 && ct::get(o.p) == t.k, "a salt of %zu bytes: %s", sl, lb::err(e).c_str()); distinct(mix(9, mix(a, sl))); }
    if (what == 2) {             // each mandatory field missing, other versions
        for (int m = 0; m < 5; m++) { ct::EncKey en; ct::protect(pkey(3).enc(), pass, pn.c_str(), C, H, 2, pattern(16, 5), &en); if (m == 0) en.version = 0; if (m == 1) en.alg.reset(); if (m == 2) en.salt.reset(); if (m == 3) en.iterations = 0; if (m == 4) en.data.reset(); ct::PrivO o; int e = load_key(en.enc(), pass, false, o, nullptr); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "a file without field %d returned %s", m, lb::err(e).c_str()); }
        for (uint32_t v : {2u, 3u, 127u, 128u, 257u, 0xffffffffu}) { ct::EncKey en; ct::protect(pkey(3).enc(), pass, pn.c_str(), C, H, 2, pattern(16, 5), &en); en.version = v; ct::PrivO o; int e = load_key(en.enc(), pass, false, o, nullptr); CHECK(e != 0, "version %u was accepted", v); }
        for (size_t n = 0; n < 16; n++) { ct::EncKey en; ct::protect(pkey(3).enc(), pass, pn.c_str(), C, H, 2, pattern(16, 5), &en); en.data->resize(n); ct::PrivO o; int e = load_key(en.enc(), pass, false, o, nullptr); CHECK(e != 0, "encrypted data of %zu bytes was accepted", n); }
        // the decrypted contents are not a private key
        for (const char *x : {"\xff", "\x0a\x05\x61", "\x22\x02\x0a\x05", "\x08"}) { bytes f = ct::protect(B(x), pass, pn.c_str(), C, H, 2, pattern(16, 5)); ct::PrivO o; int e = load_key(f, pass, false, o, nullptr); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "contents that are not a private key returned %s", lb::err(e).c_str()); }
        // pieces of different files
        ct::EncKey x, y; ct::protect(pkey(3).enc(), pass, pn.c_str(), C, H, 2, pattern(16, 5), &x); ct::protect(pkey(0).enc(), pass, pn.c_str(), C, H, 3, pattern(16, 6), &y);
        for (int m = 1; m < 7; m++) { ct::EncKey z = x; if (m & 1) z.salt = y.salt; if (m & 2) z.data = y.data; if (m & 4) z.iterations = y.iterations; ct::PrivO o; int e = load_key(z.enc(), pass, false, o, nullptr); CHECK(e == NOISE_ERROR_MAC_FAILURE, "pieces %d of another file returned %s", m, lb::err(e).c_str()); }
    }
    if (what == 3) {             // names: every single-character change, every prefix, wrong algorithms
        std::vector<std::string> names; for (size_t i = 0; i < pn.size(); i++) { std::string s = pn; s[i] ^= 1; names.push_back(s); names.push_back(pn.substr(0, i)); s = pn; s.erase(i, 1); names.push_back(s); s = pn; s.insert(i, 1, '_'); names.push_back(s); s = pn; s[i] ^= 0x20; names.push_back(s); }
        for (const char *s : {"ChaChaPoly", "ChaChaPoly_BLAKE2b", "BLAKE2b_ChaChaPoly_PBKDF2", "ChaChaPoly_BLAKE2b_PBKDF2_", "ChaChaPoly_BLAKE2b_PBKDF", "ChaChaPoly_BLAKE2b_PBKDF22", "25519_BLAKE2b_PBKDF2", "_BLAKE2b_PBKDF2", "__PBKDF2", "", "_", "__"}) names.push_back(s);
        std::set<std::string> good; for (int C2 : ciphers) for (int H2 : hashes) good.insert(fmt("%s_%s_PBKDF2", rn::cipher_name(C2), rn::hash_name(H2)));
        ct::PrivO k; Noise_PrivateKey_new(k.out()); ct::build(k, pkey(3), ct::plain); Dir d;
        for (auto &s : names) { if (good.count(s)) continue; ct::EncKey en; ct::protect(pkey(3).enc(), pass, pn.c_str(), C, H, 2, pattern(16, 5), &en); en.alg = B(s); ct::PrivO o; int e = load_key(en.enc(), pass, false, o, nullptr); CHECK(e == NOISE_ERROR_UNKNOWN_NAME || (s.empty() && e), "protection \"%s\" returned %s on loading", s.c_str(), lb::err(e).c_str());
            Block b(1000); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); e = noise_save_private_key_to_buffer(k, &pb, "p", 1, s.c_str()); CHECK(e == NOISE_ERROR_UNKNOWN_NAME, "protection \"%s\" returned %s on saving", s.c_str(), lb::err(e).c_str()); e = noise_save_private_key_to_file(k, d.f.c_str(), "p", 1, s.c_str()); CHECK(e == NOISE_ERROR_UNKNOWN_NAME, "protection \"%s\" returned %s on saving to a file", s.c_str(), lb::err(e).c_str()); CHECK(access(d.f.c_str(), F_OK) != 0, "a refused save created the file"); distinct(hash_str(s, a)); }
    }
    outcome("key file parameters");
}
static void broken_certs() {     // every truncation and every byte of certificate and chain files: never an object together with an error, no crash
    int i = choose(3, "file"), kind = choose(3, "alteration"), slice = choose(4, "slice"); shard();
    ct::Chain ch; ch.certs = {ct::mkcert(1), ct::mkcert(2)}; bytes b = i == 0 ? ct::mkcert(1).enc() : i == 1 ? ct::mkcert(2).enc() : ch.enc();
    for (size_t k = slice; k < b.size(); k += 4) for (int v = 0; v < (kind == 1 ? 8 : kind == 2 ? 5 : 1); v++) {
        bytes f = b; if (kind == 0) f.resize(k); else if (kind == 1) f[k] ^= 1 << v; else f[k] = (uint8_t[]){0, 1, 0x7f, 0x80, 0xff}[v];
        ct::CertO c; load_cert(f, false, c, nullptr); if (c.p) ct::get(c.p); ct::ChainO h; load_chain(f, false, h, nullptr); if (h.p) ct::get(h.p);
        // trailing bytes that are not part of a message are refused
        if (kind == 0) { bytes t = b + B("\x07") + f.substr(0, k % 7); ct::CertO c2; int e = load_cert(t, false, c2, nullptr); CHECK(e != 0, "trailing bytes were accepted"); ct::ChainO h2; e = load_chain(t, false, h2, nullptr); CHECK(e != 0, "trailing bytes were accepted"); }
        distinct(mix(10, mix(i * 4 + kind, k * 8 + v)));
    }
    outcome("damaged certificates");
}
// The key derivation may hit the reserved nonce (once in 2^64 salts): a save takes another salt, a load refuses
static void reserved_nonce() {
    int a = choose(8, "algorithm"), n = choose(4, "times in a row"); bool file = flag("file"); shard();
    int C = ciphers[a & 1], H = hashes[a / 2]; std::string pn = fmt("%s_%s_PBKDF2", rn::cipher_name(C), rn::hash_name(H)); ct::PrivKey k = pkey(1); bytes pass = passphrase(0), f; Dir d; ct::PrivO o; Noise_PrivateKey_new(o.out()); ct::build(o, k, ct::plain); int e;
    reserved = n; derived = 0; badsalts.clear(); Block b(k.enc().size() + 300); NoiseProtobuf pb; noise_protobuf_prepare_output(&pb, b.p, b.n); op();
    e = file ? noise_save_private_key_to_file(o, d.f.c_str(), pass.data(), pass.size(), pn.c_str()) : noise_save_private_key_to_buffer(o, &pb, pass.data(), pass.size(), pn.c_str()); bool reached = reserved < n; reserved = 0; derived = 0;
    CHECK(e == 0, "saving when %d salts in a row lead to the reserved nonce: %s", n, lb::err(e).c_str());
    if (file) f = slurp(d.f); else { uint8_t *dd; size_t dn; noise_protobuf_finish_output(&pb, &dd, &dn); f = B(dd, dn); }
    ct::PrivO l; e = load_key(f, pass, file, l, &d); CHECK(e == 0 && ct::get(l.p) == k, "the key saved after %d reserved nonces does not load: %s", n, lb::err(e).c_str());
    badsalts.clear(); if (n == 1) { derived = 0; reserved = 1; ct::PrivO r; e = load_key(f, pass, file, r, &d); bool hit = !reserved; reserved = 0; if (hit) CHECK(e != 0, "a key was loaded with the reserved nonce"); }
    badsalts.clear(); derived = 0; outcome(n && !reached ? "the derivation is out of reach" : "reserved nonces"); distinct(mix(20, mix(a, n * 2 + file)));
}
static void body() {
    derived = -1000000;
    switch (choose(8, "part")) { case 7: reserved_nonce(); break; case 0: certificates(); break; case 1: limits(); break; case 2: save_keys(); break; case 3: altered(); break; case 4: passes(); break; case 5: parameters(); break; default: broken_certs(); }
}
VH_MAIN2(body, rng::install)
