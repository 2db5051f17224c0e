// Model of the certificate and key messages (doc/noise-certificate.proto), with an independent encoder, a builder that makes
// the library's objects through the public accessors, and an extractor that reads them back through the public accessors.
#pragma once
#include "lib.hpp"
#include <noise/keys.h>
#include <optional>
namespace ct {
using vh::bytes;
typedef std::optional<bytes> OB;
namespace pb {
inline bytes varint(uint64_t v) { bytes b; while (v >= 0x80) { b.push_back((uint8_t)(v | 0x80)); v >>= 7; } b.push_back((uint8_t)v); return b; }
inline bytes tag(int t, int wt) { return varint(((uint64_t)t << 3) | wt); }
inline bytes delim(int t, const bytes &d) { return (t ? tag(t, 2) : bytes()) + varint(d.size()) + d; }
inline bytes u(int t, uint64_t v) { return (t ? tag(t, 0) : bytes()) + varint(v); }
inline bytes opt(int t, const OB &o) { return o ? delim(t, *o) : bytes(); }
}
struct Key { OB alg, key; bytes enc() const { return pb::opt(1, alg) + pb::opt(2, key); } bool operator==(const Key &o) const { return alg == o.alg && key == o.key; } };
struct Meta { OB name, value; bytes enc() const { return pb::opt(1, name) + pb::opt(2, value); } bool operator==(const Meta &o) const { return name == o.name && value == o.value; } };
struct Extra { OB nonce, from, to; std::vector<Meta> meta;
    bytes enc() const { bytes b = pb::opt(1, nonce) + pb::opt(2, from) + pb::opt(3, to); for (auto &m : meta) b = b + pb::delim(4, m.enc()); return b; }
    bool operator==(const Extra &o) const { return nonce == o.nonce && from == o.from && to == o.to && meta == o.meta; } };
struct Sig { OB id, name; std::optional<Key> key; OB hash; std::optional<Extra> extra; OB sig;
    bytes enc() const { bytes b = pb::opt(1, id) + pb::opt(2, name); if (key) b = b + pb::delim(3, key->enc()); b = b + pb::opt(4, hash); if (extra) b = b + pb::delim(5, extra->enc()); return b + pb::opt(15, sig); }
    bool operator==(const Sig &o) const { return id == o.id && name == o.name && key == o.key && hash == o.hash && extra == o.extra && sig == o.sig; } };
struct Subj { OB id, name, role; std::vector<Key> keys; std::vector<Meta> meta;
    bytes enc() const { bytes b = pb::opt(1, id) + pb::opt(2, name) + pb::opt(3, role); for (auto &k : keys) b = b + pb::delim(4, k.enc()); for (auto &m : meta) b = b + pb::delim(5, m.enc()); return b; }
    bool operator==(const Subj &o) const { return id == o.id && name == o.name && role == o.role && keys == o.keys && meta == o.meta; } };
typedef Subj PrivKey;          // same field numbers
struct Cert { uint32_t version = 0; std::optional<Subj> subject; std::vector<Sig> sigs;
    bytes enc() const { bytes b; if (version) b = pb::u(1, version); if (subject) b = b + pb::delim(2, subject->enc()); for (auto &s : sigs) b = b + pb::delim(3, s.enc()); return b; }
    bool operator==(const Cert &o) const { return version == o.version && subject == o.subject && sigs == o.sigs; } };
struct Chain { std::vector<Cert> certs; bytes enc() const { bytes b; for (auto &c : certs) b = b + pb::delim(8, c.enc()); return b; } bool operator==(const Chain &o) const { return certs == o.certs; } };
struct EncKey { uint32_t version = 0; OB alg, salt; uint32_t iterations = 0; OB data;
    bytes enc() const { bytes b; if (version) b = pb::u(10, version); b = b + pb::opt(11, alg) + pb::opt(12, salt); if (iterations) b = b + pb::u(13, iterations); return b + pb::opt(15, data); } };

inline OB S(const char *s) { return bytes((const uint8_t *)s, (const uint8_t *)s + strlen(s)); }

// Building: every call goes through `run`, which may inject faults; the default just calls.
typedef std::function<int(const char *, std::function<int()>)> Run;
inline int plain(const char *, std::function<int()> f) { return f(); }
#define CT_SET(T, o, F, v) do { if (v) { if ((e = run(#T "_set_" #F, [&] { return Noise_##T##_set_##F(o, (const char *)(v)->data() ? (const char *)(v)->data() : "", (v)->size()); }))) return e; } } while (0)
#define CT_ADD(T, o, F, var) do { if ((e = run(#T "_add_" #F, [&] { return Noise_##T##_add_##F(o, &var); }))) return e; } while (0)
#define CT_NEW(T, o, F, var) do { if ((e = run(#T "_get_new_" #F, [&] { return Noise_##T##_get_new_##F(o, &var); }))) return e; } while (0)
inline int build(Noise_PublicKeyInfo *o, const Key &m, Run run) { int e; CT_SET(PublicKeyInfo, o, algorithm, m.alg); CT_SET(PublicKeyInfo, o, key, m.key); return 0; }
inline int build(Noise_PrivateKeyInfo *o, const Key &m, Run run) { int e; CT_SET(PrivateKeyInfo, o, algorithm, m.alg); CT_SET(PrivateKeyInfo, o, key, m.key); return 0; }
inline int build(Noise_MetaInfo *o, const Meta &m, Run run) { int e; CT_SET(MetaInfo, o, name, m.name); CT_SET(MetaInfo, o, value, m.value); return 0; }
inline int build(Noise_ExtraSignedInfo *o, const Extra &m, Run run) {
    int e; CT_SET(ExtraSignedInfo, o, nonce, m.nonce); CT_SET(ExtraSignedInfo, o, valid_from, m.from); CT_SET(ExtraSignedInfo, o, valid_to, m.to);
    for (auto &x : m.meta) { Noise_MetaInfo *p = 0; CT_ADD(ExtraSignedInfo, o, meta, p); if ((e = build(p, x, run))) return e; }
    return 0;
}
inline int build(Noise_Signature *o, const Sig &m, Run run) {
    int e; CT_SET(Signature, o, id, m.id); CT_SET(Signature, o, name, m.name); CT_SET(Signature, o, hash_algorithm, m.hash); CT_SET(Signature, o, signature, m.sig);
    if (m.key) { Noise_PublicKeyInfo *p = 0; CT_NEW(Signature, o, signing_key, p); if ((e = build(p, *m.key, run))) return e; }
    if (m.extra) { Noise_ExtraSignedInfo *p = 0; CT_NEW(Signature, o, extra_signed_info, p); if ((e = build(p, *m.extra, run))) return e; }
    return 0;
}
inline int build(Noise_SubjectInfo *o, const Subj &m, Run run) {
    int e; CT_SET(SubjectInfo, o, id, m.id); CT_SET(SubjectInfo, o, name, m.name); CT_SET(SubjectInfo, o, role, m.role);
    for (auto &x : m.keys) { Noise_PublicKeyInfo *p = 0; CT_ADD(SubjectInfo, o, keys, p); if ((e = build(p, x, run))) return e; }
    for (auto &x : m.meta) { Noise_MetaInfo *p = 0; CT_ADD(SubjectInfo, o, meta, p); if ((e = build(p, x, run))) return e; }
    return 0;
}
inline int build(Noise_PrivateKey *o, const PrivKey &m, Run run) {
    int e; CT_SET(PrivateKey, o, id, m.id); CT_SET(PrivateKey, o, name, m.name); CT_SET(PrivateKey, o, role, m.role);
    for (auto &x : m.keys) { Noise_PrivateKeyInfo *p = 0; CT_ADD(PrivateKey, o, keys, p); if ((e = build(p, x, run))) return e; }
    for (auto &x : m.meta) { Noise_MetaInfo *p = 0; CT_ADD(PrivateKey, o, meta, p); if ((e = build(p, x, run))) return e; }
    return 0;
}
inline int build(Noise_Certificate *o, const Cert &m, Run run) {
    int e; if (m.version && (e = Noise_Certificate_set_version(o, m.version))) return e;
    if (m.subject) { Noise_SubjectInfo *p = 0; CT_NEW(Certificate, o, subject, p); if ((e = build(p, *m.subject, run))) return e; }
    for (auto &x : m.sigs) { Noise_Signature *p = 0; CT_ADD(Certificate, o, signatures, p); if ((e = build(p, x, run))) return e; }
    return 0;
}
inline int build(Noise_CertificateChain *o, const Chain &m, Run run) {
    int e; for (auto &x : m.certs) { Noise_Certificate *p = 0; CT_ADD(CertificateChain, o, certs, p); if ((e = build(p, x, run))) return e; }
    return 0;
}
// Extraction through the accessors.
#define CT_GET(T, o, F, v) do { const void *q = Noise_##T##_get_##F(o); size_t n = Noise_##T##_get_size_##F(o); CHECK((q != 0) == (Noise_##T##_has_##F(o) != 0), #T "_has_" #F " disagrees with the value"); if (q) v = bytes((const uint8_t *)q, (const uint8_t *)q + n); else CHECK(n == 0, #T "_get_size_" #F " of an unset field is not zero"); } while (0)
inline Key get(const Noise_PublicKeyInfo *o) { Key m; CHECK(o, "null element"); CT_GET(PublicKeyInfo, o, algorithm, m.alg); CT_GET(PublicKeyInfo, o, key, m.key); return m; }
inline Key get(const Noise_PrivateKeyInfo *o) { Key m; CHECK(o, "null element"); CT_GET(PrivateKeyInfo, o, algorithm, m.alg); CT_GET(PrivateKeyInfo, o, key, m.key); return m; }
inline Meta get(const Noise_MetaInfo *o) { Meta m; CHECK(o, "null element"); CT_GET(MetaInfo, o, name, m.name); CT_GET(MetaInfo, o, value, m.value); return m; }
inline Extra get(const Noise_ExtraSignedInfo *o) { Extra m; CT_GET(ExtraSignedInfo, o, nonce, m.nonce); CT_GET(ExtraSignedInfo, o, valid_from, m.from); CT_GET(ExtraSignedInfo, o, valid_to, m.to); for (size_t i = 0; i < Noise_ExtraSignedInfo_count_meta(o); i++) m.meta.push_back(get(Noise_ExtraSignedInfo_get_at_meta(o, i))); return m; }
inline Sig get(const Noise_Signature *o) {
    CHECK(o, "null element"); Sig m; CT_GET(Signature, o, id, m.id); CT_GET(Signature, o, name, m.name); CT_GET(Signature, o, hash_algorithm, m.hash); CT_GET(Signature, o, signature, m.sig);
    if (auto *k = Noise_Signature_get_signing_key(o)) m.key = get(k); if (auto *x = Noise_Signature_get_extra_signed_info(o)) m.extra = get(x); return m;
}
inline Subj get(const Noise_SubjectInfo *o) {
    CHECK(o, "null element"); Subj m; CT_GET(SubjectInfo, o, id, m.id); CT_GET(SubjectInfo, o, name, m.name); CT_GET(SubjectInfo, o, role, m.role);
    for (size_t i = 0; i < Noise_SubjectInfo_count_keys(o); i++) m.keys.push_back(get(Noise_SubjectInfo_get_at_keys(o, i)));
    for (size_t i = 0; i < Noise_SubjectInfo_count_meta(o); i++) m.meta.push_back(get(Noise_SubjectInfo_get_at_meta(o, i)));
    return m;
}
inline PrivKey get(const Noise_PrivateKey *o) {
    CHECK(o, "null element"); PrivKey m; CT_GET(PrivateKey, o, id, m.id); CT_GET(PrivateKey, o, name, m.name); CT_GET(PrivateKey, o, role, m.role);
    for (size_t i = 0; i < Noise_PrivateKey_count_keys(o); i++) m.keys.push_back(get(Noise_PrivateKey_get_at_keys(o, i)));
    for (size_t i = 0; i < Noise_PrivateKey_count_meta(o); i++) m.meta.push_back(get(Noise_PrivateKey_get_at_meta(o, i)));
    return m;
}
inline Cert get(const Noise_Certificate *o) {
    CHECK(o, "null element"); Cert m; m.version = Noise_Certificate_get_version(o); if (auto *s = Noise_Certificate_get_subject(o)) m.subject = get(s);
    for (size_t i = 0; i < Noise_Certificate_count_signatures(o); i++) m.sigs.push_back(get(Noise_Certificate_get_at_signatures(o, i))); return m;
}
inline Chain get(const Noise_CertificateChain *o) { CHECK(o, "null element"); Chain m; for (size_t i = 0; i < Noise_CertificateChain_count_certs(o); i++) m.certs.push_back(get(Noise_CertificateChain_get_at_certs(o, i))); return m; }

// Example values.  level 0: empty, 1: small, 2: everything, 3: repeated fields past the growth steps
inline Key mkkey(int i, size_t n = 32) { Key k; k.alg = S(i & 1 ? "448" : "25519"); k.key = vh::pattern(n, (uint8_t)(i * 7 + 1)); return k; }
inline Meta mkmeta(int i) { Meta m; m.name = S("mail"); m.value = vh::B(vh::fmt("user%d@example.com", i)); return m; }
inline Sig mksig(int level, int i = 0) {
    Sig s; s.id = vh::B(vh::fmt("signer%d", i)); s.sig = vh::pattern(64, 9); s.hash = S("BLAKE2b"); s.key = mkkey(0); s.name = S("Sig \xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80");
    if (level >= 2) { Extra x; x.nonce = vh::pattern(16); x.from = S("2016-01-01T00:00:00Z"); x.to = S("2036-01-01T00:00:00Z"); for (int k = 0; k < (level == 3 ? 5 : 1); k++) x.meta.push_back(mkmeta(k)); s.extra = x; }
    return s;
}
inline Subj mksubj(int level) {
    Subj s; if (!level) return s; s.id = S("id"); s.name = S("Alice"); s.role = S("server");
    for (int i = 0; i < (level == 3 ? 9 : level); i++) s.keys.push_back(mkkey(i, i & 1 ? 56 : 32));
    if (level >= 2) for (int i = 0; i < (level == 3 ? 5 : 2); i++) s.meta.push_back(mkmeta(i));
    return s;
}
inline Cert mkcert(int level, int v = 1) { Cert c; c.version = v; if (level) c.subject = mksubj(level); for (int i = 0; i < (level == 3 ? 5 : level == 2 ? 2 : 0); i++) c.sigs.push_back(mksig(level, i)); return c; }

template <class T, int (*F)(T *)> using Own = lb::Own<T, F>;
using CertO = Own<Noise_Certificate, Noise_Certificate_free>;
using ChainO = Own<Noise_CertificateChain, Noise_CertificateChain_free>;
using PrivO = Own<Noise_PrivateKey, Noise_PrivateKey_free>;
using SubjO = Own<Noise_SubjectInfo, Noise_SubjectInfo_free>;
using EncO = Own<Noise_EncryptedPrivateKey, Noise_EncryptedPrivateKey_free>;

// A protected private key file as the format defines it.
inline bytes protect(const bytes &plain_key, const bytes &pass, const char *protect_name, int cipher, int hash, uint32_t iterations, const bytes &salt, EncKey *out = nullptr) {
    bytes kd = rc::pbkdf2(hash, pass, salt, iterations, 40);
    uint64_t n = 0; for (int i = 0; i < 8; i++) n = n << 8 | kd[32 + i];
    EncKey e; e.version = 1; e.alg = S(protect_name); e.salt = salt; e.iterations = iterations; e.data = rc::aead(cipher, bytes(kd.begin(), kd.begin() + 32), n, bytes(), plain_key);
    if (out) *out = e;
    return e.enc();
}
// Serialise with the library into a buffer of exactly cap bytes (0: ask the library to measure).
template <class T> int save(int (*w)(NoiseProtobuf *, int, const T *), const T *o, bytes &out) {
    NoiseProtobuf pb; size_t n = 0; noise_protobuf_prepare_measure(&pb, 1 << 20); int e = w(&pb, 0, o); if (e) return e; e = noise_protobuf_finish_measure(&pb, &n); if (e) return e;
    vh::Block b(n); noise_protobuf_prepare_output(&pb, b.p, n); e = w(&pb, 0, o); if (e) return e; uint8_t *d = 0; size_t m = 0; e = noise_protobuf_finish_output(&pb, &d, &m); out = m ? vh::B(d, m) : bytes(); return e;
}
} // namespace ct
