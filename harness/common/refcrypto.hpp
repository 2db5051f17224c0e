// Reference primitives: libcrypto (independent of /repo's code in the ref and sodium builds).
#pragma once
#include "vh.hpp"
#include <noise/protocol.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
namespace rc {
using vh::bytes;
inline const EVP_MD *md(int id) {
    static const EVP_MD *m[4];
    if (!m[0]) { m[0] = EVP_MD_fetch(0, "BLAKE2S-256", 0); m[1] = EVP_MD_fetch(0, "BLAKE2B-512", 0); m[2] = EVP_MD_fetch(0, "SHA256", 0); m[3] = EVP_MD_fetch(0, "SHA512", 0); }
    switch (id) { case NOISE_HASH_BLAKE2s: return m[0]; case NOISE_HASH_BLAKE2b: return m[1]; case NOISE_HASH_SHA256: return m[2]; case NOISE_HASH_SHA512: return m[3]; }
    return 0;
}
inline size_t hashlen(int id) { return (id == NOISE_HASH_BLAKE2s || id == NOISE_HASH_SHA256) ? 32 : 64; }
inline size_t blocklen(int id) { return (id == NOISE_HASH_BLAKE2s || id == NOISE_HASH_SHA256) ? 64 : 128; }
inline bytes hash(int id, const bytes &d) {
    static thread_local EVP_MD_CTX *c = EVP_MD_CTX_new();
    uint8_t o[64]; unsigned n = 0;
    EVP_DigestInit_ex(c, md(id), 0); EVP_DigestUpdate(c, d.data(), d.size()); EVP_DigestFinal_ex(c, o, &n);
    return vh::B(o, n);
}
inline bytes hmac(int id, const bytes &key, const bytes &d) {
    size_t bl = blocklen(id);
    bytes k = key.size() > bl ? hash(id, key) : key;
    k.resize(bl, 0);
    bytes i(bl, 0), o(bl, 0);
    for (size_t x = 0; x < bl; x++) { i[x] = k[x] ^ 0x36; o[x] = k[x] ^ 0x5c; }
    return hash(id, o + hash(id, i + d));
}
inline void hkdf2(int id, const bytes &ck, const bytes &ikm, bytes &o1, bytes &o2) {
    bytes t = hmac(id, ck, ikm);
    o1 = hmac(id, t, bytes(1, 1));
    o2 = hmac(id, t, o1 + bytes(1, 2));
}
inline bytes pbkdf2(int id, const bytes &pass, const bytes &salt, size_t iters, size_t outlen) {
    bytes out;
    for (uint32_t i = 1; out.size() < outlen; i++) {
        bytes s = salt; s.push_back(i >> 24); s.push_back(i >> 16); s.push_back(i >> 8); s.push_back(i);
        bytes u = hmac(id, pass, s), t = u;
        for (size_t k = 1; k < iters; k++) { u = hmac(id, pass, u); for (size_t x = 0; x < t.size(); x++) t[x] ^= u[x]; }
        out += t;
    }
    out.resize(outlen);
    return out;
}
inline bytes nonce(int cipher, uint64_t n) {
    bytes b(12, 0);
    for (int i = 0; i < 8; i++) b[4 + i] = cipher == NOISE_CIPHER_AESGCM ? (uint8_t)(n >> (56 - 8 * i)) : (uint8_t)(n >> (8 * i));
    return b;
}
inline bytes aead(int cipher, const bytes &k, uint64_t n, const bytes &ad, const bytes &pt) {
    static thread_local EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    static const EVP_CIPHER *cp = EVP_CIPHER_fetch(0, "ChaCha20-Poly1305", 0), *gcm = EVP_CIPHER_fetch(0, "AES-256-GCM", 0);
    bytes iv = nonce(cipher, n), out(pt.size() + 16, 0);
    EVP_CIPHER_CTX_reset(c);
    EVP_EncryptInit_ex(c, cipher == NOISE_CIPHER_AESGCM ? gcm : cp, 0, 0, 0);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, 12, 0);
    EVP_EncryptInit_ex(c, 0, 0, k.data(), iv.data());
    int l = 0, t = 0;
    if (ad.size()) EVP_EncryptUpdate(c, 0, &l, ad.data(), (int)ad.size());
    if (pt.size()) { EVP_EncryptUpdate(c, &out[0], &l, pt.data(), (int)pt.size()); t = l; }
    EVP_EncryptFinal_ex(c, &out[t], &l);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, &out[pt.size()]);
    return out;
}
// Returns false when the tag is wrong.
inline bool aead_open(int cipher, const bytes &k, uint64_t n, const bytes &ad, const bytes &ct, bytes &pt) {
    if (ct.size() < 16) return false;
    // Both AEADs are a stream cipher: decrypting is encrypting the ciphertext; the tag is checked by re-encrypting.
    bytes body = ct.substr(0, ct.size() - 16);
    bytes p = aead(cipher, k, n, ad, body).substr(0, body.size());
    if (aead(cipher, k, n, ad, p) != ct) return false;
    pt = p;
    return true;
}
inline size_t dhlen(int dh) { return dh == NOISE_DH_CURVE25519 ? 32 : dh == NOISE_DH_CURVE448 ? 56 : 0; }
inline int pkey_id(int dh) { return dh == NOISE_DH_CURVE25519 ? EVP_PKEY_X25519 : EVP_PKEY_X448; }
inline bytes dh_public(int dh, const bytes &priv) {
    static std::map<bytes, bytes> memo[2];
    auto &m = memo[dh == NOISE_DH_CURVE448];
    auto it = m.find(priv); if (it != m.end()) return it->second;
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(pkey_id(dh), 0, priv.data(), priv.size());
    bytes o(dhlen(dh), 0); size_t n = o.size();
    if (!k || EVP_PKEY_get_raw_public_key(k, &o[0], &n) <= 0) o.clear();
    EVP_PKEY_free(k);
    if (m.size() > 20000) m.clear();
    return m[priv] = o;
}
inline bytes dh(int dhid, const bytes &priv, const bytes &pub) {
    static std::map<std::pair<bytes, bytes>, bytes> memo[2];
    auto &m = memo[dhid == NOISE_DH_CURVE448];
    auto key = std::make_pair(priv, pub);
    auto it = m.find(key); if (it != m.end()) return it->second;
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(pkey_id(dhid), 0, priv.data(), priv.size());
    EVP_PKEY *p = EVP_PKEY_new_raw_public_key(pkey_id(dhid), 0, pub.data(), pub.size());
    bytes o(dhlen(dhid), 0); size_t n = o.size();
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, 0);
    if (!c || EVP_PKEY_derive_init(c) <= 0 || EVP_PKEY_derive_set_peer_ex(c, p, 0) <= 0 || EVP_PKEY_derive(c, &o[0], &n) <= 0)
        o.assign(dhlen(dhid), 0);            // libcrypto refuses the all-zero result
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(p);
    if (m.size() > 20000) m.clear();
    return m[key] = o;
}
inline bytes ed_public(const bytes &seed) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, 0, seed.data(), 32);
    bytes o(32, 0); size_t n = 32;
    if (!k || EVP_PKEY_get_raw_public_key(k, &o[0], &n) <= 0) o.clear();
    EVP_PKEY_free(k);
    return o;
}
inline bytes ed_sign(const bytes &seed, const bytes &m) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, 0, seed.data(), 32);
    EVP_MD_CTX *c = EVP_MD_CTX_new(); bytes o(64, 0); size_t n = 64;
    if (EVP_DigestSignInit(c, 0, 0, 0, k) <= 0 || EVP_DigestSign(c, &o[0], &n, m.data(), m.size()) <= 0) o.clear();
    EVP_MD_CTX_free(c); EVP_PKEY_free(k);
    return o;
}
inline bool ed_verify(const bytes &pub, const bytes &m, const bytes &sig) {
    EVP_PKEY *k = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, 0, pub.data(), 32);
    if (!k) return false;
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    bool ok = EVP_DigestVerifyInit(c, 0, 0, 0, k) > 0 && EVP_DigestVerify(c, sig.data(), sig.size(), m.data(), m.size()) == 1;
    EVP_MD_CTX_free(c); EVP_PKEY_free(k);
    return ok;
}
} // namespace rc
