// Thin RAII wrappers over the public API and helpers to configure library parties from a model party.
#pragma once
#include "refnoise.hpp"
#include <noise/protocol.h>
#include <noise/protobufs.h>
namespace lb {
using vh::bytes; using vh::Block;
template <class T, int (*F)(T *)> struct Own {
    T *p = nullptr;
    Own() {}
    ~Own() { reset(); }
    void reset() { if (p) F(p); p = nullptr; }
    operator T *() const { return p; }
    T **out() { reset(); return &p; }
    T *release() { T *x = p; p = nullptr; return x; }
    Own(const Own &) = delete; Own &operator=(const Own &) = delete;
    Own(Own &&o) : p(o.p) { o.p = nullptr; }
    Own &operator=(Own &&o) { reset(); p = o.p; o.p = nullptr; return *this; }
};
using HSt = Own<NoiseHandshakeState, noise_handshakestate_free>;
using CSt = Own<NoiseCipherState, noise_cipherstate_free>;
using DSt = Own<NoiseDHState, noise_dhstate_free>;
using HaSt = Own<NoiseHashState, noise_hashstate_free>;
using SSt = Own<NoiseSignState, noise_signstate_free>;
using RSt = Own<NoiseRandState, noise_randstate_free>;
using SySt = Own<NoiseSymmetricState, noise_symmetricstate_free>;

inline std::string err(int e) {
    switch (e) {
    case 0: return "NONE"; case NOISE_ERROR_NO_MEMORY: return "NO_MEMORY"; case NOISE_ERROR_UNKNOWN_ID: return "UNKNOWN_ID"; case NOISE_ERROR_UNKNOWN_NAME: return "UNKNOWN_NAME";
    case NOISE_ERROR_MAC_FAILURE: return "MAC_FAILURE"; case NOISE_ERROR_NOT_APPLICABLE: return "NOT_APPLICABLE"; case NOISE_ERROR_SYSTEM: return "SYSTEM";
    case NOISE_ERROR_REMOTE_KEY_REQUIRED: return "REMOTE_KEY_REQUIRED"; case NOISE_ERROR_LOCAL_KEY_REQUIRED: return "LOCAL_KEY_REQUIRED"; case NOISE_ERROR_PSK_REQUIRED: return "PSK_REQUIRED";
    case NOISE_ERROR_INVALID_LENGTH: return "INVALID_LENGTH"; case NOISE_ERROR_INVALID_PARAM: return "INVALID_PARAM"; case NOISE_ERROR_INVALID_STATE: return "INVALID_STATE";
    case NOISE_ERROR_INVALID_NONCE: return "INVALID_NONCE"; case NOISE_ERROR_INVALID_PRIVATE_KEY: return "INVALID_PRIVATE_KEY"; case NOISE_ERROR_INVALID_PUBLIC_KEY: return "INVALID_PUBLIC_KEY";
    case NOISE_ERROR_INVALID_FORMAT: return "INVALID_FORMAT"; case NOISE_ERROR_INVALID_SIGNATURE: return "INVALID_SIGNATURE"; }
    return vh::fmt("error 0x%x", e);
}
inline std::string act(int a) {
    switch (a) { case NOISE_ACTION_NONE: return "NONE"; case NOISE_ACTION_WRITE_MESSAGE: return "WRITE"; case NOISE_ACTION_READ_MESSAGE: return "READ"; case NOISE_ACTION_FAILED: return "FAILED"; case NOISE_ACTION_SPLIT: return "SPLIT"; case NOISE_ACTION_COMPLETE: return "COMPLETE"; }
    return vh::fmt("action 0x%x", a);
}
inline int action_of(rn::Next n) { return n == rn::WRITE ? NOISE_ACTION_WRITE_MESSAGE : n == rn::READ ? NOISE_ACTION_READ_MESSAGE : n == rn::SPLIT ? NOISE_ACTION_SPLIT : NOISE_ACTION_FAILED; }

// Deterministic secrets: role 'i'/'r', kind 's'/'e'/'f', small serial.
inline bytes secret(char who, char kind, size_t len, int serial = 0) {
    bytes b = rc::hash(NOISE_HASH_SHA512, vh::B(vh::fmt("vh secret %c %c %d", who, kind, serial)));
    b.resize(len);
    return b;
}
inline void make_static(rn::Key &k, int dh, char who, int serial = 0) { k.priv = secret(who, 's', rc::dhlen(dh), serial); k.pub = rc::dh_public(dh, k.priv); }
inline bytes psk_of(int serial = 0) { return secret('p', 'k', 32, serial); }

// Model parties for a protocol, with everything the pattern needs in place.
struct Pair { rn::HS i, r; };
inline Pair model_pair(const rn::Proto &p, const bytes &prologue, int serial = 0) {
    Pair m; m.i.setup(p, true); m.r.setup(p, false);
    const rn::Pattern *pt = m.i.pat;
    rn::Key si, sr;
    if (rc::dhlen(p.dh)) { make_static(si, p.dh, 'i', serial); make_static(sr, p.dh, 'r', serial); }
    if (rn::needs_local(*pt, true)) m.i.s = si;
    if (rn::needs_local(*pt, false)) m.r.s = sr;
    if (rn::knows_remote_before(*pt, true)) m.i.rs.pub = sr.pub;
    if (rn::knows_remote_before(*pt, false)) m.r.rs.pub = si.pub;
    if (p.psk) m.i.psk = m.r.psk = psk_of(serial);
    m.i.prologue = m.r.prologue = prologue;
    m.i.e_seed = secret('i', 'e', rn::priv_len(p.dh, true), serial); m.r.e_seed = secret('r', 'e', rn::priv_len(p.dh, false), serial);
    if (p.hybrid) { m.i.f_seed = secret('i', 'f', rn::priv_len(p.hybrid, true), serial); m.r.f_seed = secret('r', 'f', rn::priv_len(p.hybrid, false), serial); }
    return m;
}
// Gives the library object the keys of the model party.  Returns 0 or the first error.
inline int configure(NoiseHandshakeState *h, const rn::HS &m, bool fixed_eph, bool prologue_call = true, int keyset = 0) {
    int e;
    if (m.s.have()) {
        NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(h);
        if (!d) return -1;
        e = keyset == 1 ? noise_dhstate_set_keypair(d, m.s.priv.data(), m.s.priv.size(), m.s.pub.data(), m.s.pub.size())
                        : noise_dhstate_set_keypair_private(d, m.s.priv.data(), m.s.priv.size());
        if (e) return e;
    }
    if (m.rs.have()) {
        NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(h);
        if (!d) return -2;
        if ((e = noise_dhstate_set_public_key(d, m.rs.pub.data(), m.rs.pub.size()))) return e;
    }
    if (m.proto.psk && (e = noise_handshakestate_set_pre_shared_key(h, m.psk.data(), m.psk.size()))) return e;
    if (prologue_call && (e = noise_handshakestate_set_prologue(h, m.prologue.size() ? (const void *)m.prologue.data() : (const void *)"", m.prologue.size()))) return e;
    if (fixed_eph) {
        NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(h);
        if (d && (e = noise_dhstate_set_keypair_private(d, m.e_seed.data(), m.e_seed.size()))) return e;
        if (m.proto.hybrid) { d = noise_handshakestate_get_fixed_hybrid_dh(h); if (d && (e = noise_dhstate_set_keypair_private(d, m.f_seed.data(), m.f_seed.size()))) return e; }
    }
    return 0;
}
inline int create(HSt &h, const rn::Proto &p, bool initiator, bool by_id = true) {
    int role = initiator ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER;
    if (!by_id) return noise_handshakestate_new_by_name(h.out(), p.name().c_str(), role);
    NoiseProtocolId id = p.id();
    return noise_handshakestate_new_by_id(h.out(), &id, role);
}
// Write into a buffer of exactly `cap` bytes.
inline int write(NoiseHandshakeState *h, const bytes &payload, bytes &out, size_t cap, bool null_payload = false) {
    Block b(cap), pl(payload);
    NoiseBuffer m, p; noise_buffer_set_output(m, b.p, cap);
    noise_buffer_set_input(p, pl.p, payload.size());
    int e = noise_handshakestate_write_message(h, &m, null_payload ? 0 : &p);
    out = b.get(m.size <= cap ? m.size : 0);
    if (m.size > cap) vh::failk("message size exceeds capacity", "write_message set size %zu with capacity %zu", m.size, cap);
    if (pl.get() != payload) vh::failk("payload modified", "write_message modified the caller's payload buffer");
    return e;
}
inline int read(NoiseHandshakeState *h, const bytes &msg, bytes &payload, size_t cap, bool null_payload = false) {
    Block b(msg), pl(cap);
    NoiseBuffer m, p; noise_buffer_set_input(m, b.p, msg.size()); noise_buffer_set_output(p, pl.p, cap);
    int e = noise_handshakestate_read_message(h, &m, null_payload ? 0 : &p);
    payload.clear();
    if (!null_payload) { if (p.size > cap) vh::failk("payload size exceeds capacity", "read_message set payload size %zu with capacity %zu", p.size, cap); payload = pl.get(p.size); }
    return e;
}
inline int hs_hash(NoiseHandshakeState *h, int hash, bytes &out) { Block b(rc::hashlen(hash)); int e = noise_handshakestate_get_handshake_hash(h, b.p, b.n); out = e ? bytes() : b.get(); return e; }
inline int encrypt(NoiseCipherState *c, const bytes &pt, bytes &ct, const bytes *ad = nullptr, size_t room = 0) {
    Block b(room ? room : pt.size() + 16); memcpy(b.p, pt.data(), pt.size());
    NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, pt.size(), b.n);
    int e; if (ad) { Block a(*ad); e = noise_cipherstate_encrypt_with_ad(c, a.p, a.n, &nb); } else e = noise_cipherstate_encrypt(c, &nb);
    ct = e ? bytes() : b.get(nb.size <= b.n ? nb.size : 0);
    return e;
}
inline int decrypt(NoiseCipherState *c, const bytes &ct, bytes &pt, const bytes *ad = nullptr) {
    Block b(ct);
    NoiseBuffer nb; noise_buffer_set_input(nb, b.p, b.n);
    int e; if (ad) { Block a(*ad); e = noise_cipherstate_decrypt_with_ad(c, a.p, a.n, &nb); } else e = noise_cipherstate_decrypt(c, &nb);
    pt = e ? bytes() : b.get(nb.size <= b.n ? nb.size : 0);
    return e;
}
// All protocols the library documents as supported.
inline std::vector<rn::Proto> all_protos() {
    std::vector<rn::Proto> v;
    for (auto &pt : rn::patterns()) for (int psk = 0; psk < 2; psk++) for (int dh : {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE})
        for (int hy : {0, NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}) for (int c : {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM})
            for (int h : {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b}) {
                rn::Proto p; p.pattern = pt.id; p.psk = psk; p.dh = dh; p.hybrid = hy; p.cipher = c; p.hash = h;
                if (rn::supported(p)) v.push_back(p);
            }
    return v;
}
// One protocol per pattern and prefix, with cheap primitives (hybrid 25519 for hfs).
inline std::vector<rn::Proto> core_protos(bool psk_too = true) {
    std::vector<rn::Proto> v; int i = 0;
    for (auto &pt : rn::patterns()) for (int psk = 0; psk < (psk_too ? 2 : 1); psk++, i++) {
        rn::Proto p; p.pattern = pt.id; p.psk = psk; p.dh = NOISE_DH_CURVE25519; p.hybrid = pt.hfs ? NOISE_DH_CURVE25519 : 0;
        p.cipher = NOISE_CIPHER_CHACHAPOLY; p.hash = NOISE_HASH_BLAKE2s; v.push_back(p);
    }
    return v;
}
} // namespace lb
