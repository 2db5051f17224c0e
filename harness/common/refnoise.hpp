// Reference model of the Noise protocol framework, revision 30, with the NoisePSK_ prefix, the XXfallback pattern and
// the noidh / hfs extensions as noise-c documents them.  Written from the specification; shares no code with /repo.
#pragma once
#include "refcrypto.hpp"
#include <memory>
namespace rn {
using vh::bytes;
struct Pattern { int id; const char *name; const char *pre_i, *pre_r; std::vector<std::vector<std::string>> msgs; bool fallback, hfs; bool oneway; };

inline std::vector<std::string> words(const std::string &s) { std::vector<std::string> w; std::string c; for (char ch : s + " ") if (ch == ' ' || ch == ',') { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; return w; }
inline const std::vector<Pattern> &patterns() {
    static std::vector<Pattern> v;
    if (!v.empty()) return v;
    struct Row { int id; const char *name, *pi, *pr, *m1, *m2, *m3; };
    static const Row rows[] = {
        {NOISE_PATTERN_N,  "N",  "",  "s", "e es", 0, 0},
        {NOISE_PATTERN_X,  "X",  "",  "s", "e es s ss", 0, 0},
        {NOISE_PATTERN_K,  "K",  "s", "s", "e es ss", 0, 0},
        {NOISE_PATTERN_NN, "NN", "",  "",  "e", "e ee", 0},
        {NOISE_PATTERN_NK, "NK", "",  "s", "e es", "e ee", 0},
        {NOISE_PATTERN_NX, "NX", "",  "",  "e", "e ee s es", 0},
        {NOISE_PATTERN_XN, "XN", "",  "",  "e", "e ee", "s se"},
        {NOISE_PATTERN_XK, "XK", "",  "s", "e es", "e ee", "s se"},
        {NOISE_PATTERN_XX, "XX", "",  "",  "e", "e ee s es", "s se"},
        {NOISE_PATTERN_KN, "KN", "s", "",  "e", "e ee se", 0},
        {NOISE_PATTERN_KK, "KK", "s", "s", "e es ss", "e ee se", 0},
        {NOISE_PATTERN_KX, "KX", "s", "",  "e", "e ee se s es", 0},
        {NOISE_PATTERN_IN, "IN", "",  "",  "e s", "e ee se", 0},
        {NOISE_PATTERN_IK, "IK", "",  "s", "e es s ss", "e ee se", 0},
        {NOISE_PATTERN_IX, "IX", "",  "",  "e s", "e ee se s es", 0},
        {NOISE_PATTERN_XX_FALLBACK, "XXfallback", "", "e", "e ee s se", "s es", 0},
        {NOISE_PATTERN_X_NOIDH,  "Xnoidh",  "", "s", "e s es ss", 0, 0},
        {NOISE_PATTERN_NX_NOIDH, "NXnoidh", "", "",  "e", "e s ee es", 0},
        {NOISE_PATTERN_XX_NOIDH, "XXnoidh", "", "",  "e", "e s ee es", "s se"},
        {NOISE_PATTERN_KX_NOIDH, "KXnoidh", "s", "", "e", "e s ee se es", 0},
        {NOISE_PATTERN_IK_NOIDH, "IKnoidh", "", "s", "e s es ss", "e ee se", 0},
        {NOISE_PATTERN_IX_NOIDH, "IXnoidh", "", "",  "e s", "e s ee se es", 0},
    };
    static const struct { int base, hfs; const char *name; } hf[] = {
        {NOISE_PATTERN_NN, NOISE_PATTERN_NN_HFS, "NNhfs"}, {NOISE_PATTERN_NK, NOISE_PATTERN_NK_HFS, "NKhfs"}, {NOISE_PATTERN_NX, NOISE_PATTERN_NX_HFS, "NXhfs"},
        {NOISE_PATTERN_XN, NOISE_PATTERN_XN_HFS, "XNhfs"}, {NOISE_PATTERN_XK, NOISE_PATTERN_XK_HFS, "XKhfs"}, {NOISE_PATTERN_XX, NOISE_PATTERN_XX_HFS, "XXhfs"},
        {NOISE_PATTERN_KN, NOISE_PATTERN_KN_HFS, "KNhfs"}, {NOISE_PATTERN_KK, NOISE_PATTERN_KK_HFS, "KKhfs"}, {NOISE_PATTERN_KX, NOISE_PATTERN_KX_HFS, "KXhfs"},
        {NOISE_PATTERN_IN, NOISE_PATTERN_IN_HFS, "INhfs"}, {NOISE_PATTERN_IK, NOISE_PATTERN_IK_HFS, "IKhfs"}, {NOISE_PATTERN_IX, NOISE_PATTERN_IX_HFS, "IXhfs"},
        {NOISE_PATTERN_XX_FALLBACK, NOISE_PATTERN_XX_FALLBACK_HFS, "XXfallback+hfs"},
        {NOISE_PATTERN_NX_NOIDH, NOISE_PATTERN_NX_NOIDH_HFS, "NXnoidh+hfs"}, {NOISE_PATTERN_XX_NOIDH, NOISE_PATTERN_XX_NOIDH_HFS, "XXnoidh+hfs"},
        {NOISE_PATTERN_KX_NOIDH, NOISE_PATTERN_KX_NOIDH_HFS, "KXnoidh+hfs"}, {NOISE_PATTERN_IK_NOIDH, NOISE_PATTERN_IK_NOIDH_HFS, "IKnoidh+hfs"},
        {NOISE_PATTERN_IX_NOIDH, NOISE_PATTERN_IX_NOIDH_HFS, "IXnoidh+hfs"},
    };
    for (auto &r : rows) {
        Pattern p{r.id, r.name, r.pi, r.pr, {}, r.id == NOISE_PATTERN_XX_FALLBACK, false, !r.m2};
        for (const char *m : {r.m1, r.m2, r.m3}) if (m) p.msgs.push_back(words(m));
        v.push_back(p);
    }
    size_t nbase = v.size();
    for (auto &h : hf) for (size_t i = 0; i < nbase; i++) if (v[i].id == h.base) {
        Pattern p = v[i]; p.id = h.hfs; p.name = h.name; p.hfs = true;
        if (p.fallback) p.pre_r = "e f";
        for (auto &m : p.msgs) { std::vector<std::string> n; for (auto &t : m) { n.push_back(t); if (t == "e") n.push_back("f"); if (t == "ee") n.push_back("ff"); } m = n; }
        v.push_back(p);
    }
    return v;
}
inline const Pattern *find(int id) { for (auto &p : patterns()) if (p.id == id) return &p; return nullptr; }
inline bool has_token(const Pattern &p, bool initiator, const char *tok) { for (size_t i = 0; i < p.msgs.size(); i++) if ((i % 2 == 0) == initiator) for (auto &t : p.msgs[i]) if (t == tok) return true; return false; }
inline bool has_word(const char *s, const char *w) { for (auto &x : words(s)) if (x == w) return true; return false; }
// Does the party own a static key pair / learn the peer's one / need the peer's beforehand?
inline bool needs_local(const Pattern &p, bool ini) { return has_word(ini ? p.pre_i : p.pre_r, "s") || has_token(p, ini, "s"); }
inline bool knows_remote_before(const Pattern &p, bool ini) { return has_word(ini ? p.pre_r : p.pre_i, "s"); }

inline const char *dh_name(int d) { return d == NOISE_DH_CURVE25519 ? "25519" : d == NOISE_DH_CURVE448 ? "448" : d == NOISE_DH_NEWHOPE ? "NewHope" : "?"; }
inline const char *cipher_name(int c) { return c == NOISE_CIPHER_AESGCM ? "AESGCM" : "ChaChaPoly"; }
inline const char *hash_name(int h) { return h == NOISE_HASH_BLAKE2s ? "BLAKE2s" : h == NOISE_HASH_BLAKE2b ? "BLAKE2b" : h == NOISE_HASH_SHA256 ? "SHA256" : "SHA512"; }
struct Proto {
    int pattern = 0, dh = 0, hybrid = 0, cipher = 0, hash = 0; bool psk = false;
    std::string name() const { return std::string(psk ? "NoisePSK_" : "Noise_") + find(pattern)->name + "_" + dh_name(dh) + (hybrid ? std::string("+") + dh_name(hybrid) : "") + "_" + cipher_name(cipher) + "_" + hash_name(hash); }
    NoiseProtocolId id() const { NoiseProtocolId i; memset(&i, 0, sizeof i); i.prefix_id = psk ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD; i.pattern_id = pattern; i.dh_id = dh; i.cipher_id = cipher; i.hash_id = hash; i.hybrid_id = hybrid; return i; }
    bool operator==(const Proto &o) const { return pattern == o.pattern && dh == o.dh && hybrid == o.hybrid && cipher == o.cipher && hash == o.hash && psk == o.psk; }
};
// Is this combination one the library documents as supported?
inline bool supported(const Proto &q) {
    const Pattern *p = find(q.pattern);
    if (!p) return false;
    if (p->hfs != (q.hybrid != 0)) return false;
    if (q.dh == NOISE_DH_NEWHOPE) {  // ephemeral-only: no static keys anywhere, both directions needed
        if (p->oneway) return false;
        if (needs_local(*p, true) || needs_local(*p, false)) return false;
    }
    return true;
}

// Key agreement with the three algorithms.  New Hope is taken from the library itself (there is no second
// implementation here): "alice" is the party whose key goes first.
struct Key { bytes priv, pub; bool alice = true; bool have() const { return !pub.empty(); } };
inline bytes nh_alice_public(const bytes &seed) {
    static std::map<bytes, bytes> memo; auto it = memo.find(seed); if (it != memo.end()) return it->second;
    NoiseDHState *d = 0; bytes o;
    if (noise_dhstate_new_by_id(&d, NOISE_DH_NEWHOPE) == 0) {
        noise_dhstate_set_role(d, NOISE_ROLE_INITIATOR);
        if (noise_dhstate_set_keypair_private(d, seed.data(), seed.size()) == 0) { o.assign(noise_dhstate_get_public_key_length(d), 0); noise_dhstate_get_public_key(d, &o[0], o.size()); }
        noise_dhstate_free(d);
    }
    return memo[seed] = o;
}
inline void nh_bob(const bytes &seed, const bytes &alice_pub, bytes &pub, bytes &shared) {
    static std::map<std::pair<bytes, bytes>, std::pair<bytes, bytes>> memo; auto k = std::make_pair(seed, alice_pub); auto it = memo.find(k);
    if (it == memo.end()) {
        NoiseDHState *b = 0, *a = 0; noise_dhstate_new_by_id(&a, NOISE_DH_NEWHOPE); noise_dhstate_new_by_id(&b, NOISE_DH_NEWHOPE);
        noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER);
        noise_dhstate_set_public_key(a, alice_pub.data(), alice_pub.size());
        noise_dhstate_set_keypair_private(b, seed.data(), seed.size());
        bytes s(32, 0); noise_dhstate_calculate(b, a, &s[0], 32);
        bytes p(noise_dhstate_get_public_key_length(b), 0); noise_dhstate_get_public_key(b, &p[0], p.size());
        noise_dhstate_free(a); noise_dhstate_free(b);
        it = memo.insert({k, {p, s}}).first;
    }
    pub = it->second.first; shared = it->second.second;
}
inline bytes nh_alice_shared(const bytes &seed, const bytes &bob_pub) {
    NoiseDHState *b = 0, *a = 0; noise_dhstate_new_by_id(&a, NOISE_DH_NEWHOPE); noise_dhstate_new_by_id(&b, NOISE_DH_NEWHOPE);
    noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER);
    noise_dhstate_set_keypair_private(a, seed.data(), seed.size()); noise_dhstate_set_public_key(b, bob_pub.data(), bob_pub.size());
    bytes s(32, 0); noise_dhstate_calculate(a, b, &s[0], 32);
    noise_dhstate_free(a); noise_dhstate_free(b);
    return s;
}
inline size_t pub_len(int dh, bool alice) { return dh == NOISE_DH_NEWHOPE ? (alice ? 1824 : 2048) : rc::dhlen(dh); }
inline size_t priv_len(int dh, bool alice) { return dh == NOISE_DH_NEWHOPE ? (alice ? 64 : 32) : rc::dhlen(dh); }
inline bool null_key(const bytes &k) { for (auto c : k) if (c) return false; return !k.empty(); }
inline bytes agree(int dh, const Key &mine, const Key &theirs) {
    if (null_key(mine.pub)) return bytes(32 > rc::dhlen(dh) ? 32 : rc::dhlen(dh), 0);
    if (dh != NOISE_DH_NEWHOPE) { bool zero = true; for (auto c : theirs.pub) zero &= c == 0; return zero ? bytes(rc::dhlen(dh), 0) : rc::dh(dh, mine.priv, theirs.pub); }
    if (mine.alice) return nh_alice_shared(mine.priv, theirs.pub);
    bytes p, s; nh_bob(mine.priv, theirs.pub, p, s); return s;
}

struct Sym {
    int cipher = 0, hash = 0; bytes ck, h, k; bool has_key = false; uint64_t n = 0;
    void init(const Proto &p) {
        cipher = p.cipher; hash = p.hash;
        bytes nm = vh::B(p.name());
        if (nm.size() <= rc::hashlen(hash)) { h = nm; h.resize(rc::hashlen(hash), 0); } else h = rc::hash(hash, nm);
        ck = h; has_key = false; n = 0; k.clear();
    }
    void mix_hash(const bytes &d) { h = rc::hash(hash, h + d); }
    void mix_key(const bytes &ikm) { bytes t; bytes c2; rc::hkdf2(hash, ck, ikm, c2, t); ck = c2; k = t.substr(0, 32); has_key = true; n = 0; }
    void mix_psk(const bytes &psk) { bytes t, c2; rc::hkdf2(hash, ck, psk, c2, t); ck = c2; mix_hash(t); }
    bytes encrypt_and_hash(const bytes &pt) { bytes ct = pt; if (has_key) ct = rc::aead(cipher, k, n++, h, pt); mix_hash(ct); return ct; }
    bool decrypt_and_hash(const bytes &ct, bytes &pt) {
        if (!has_key) { pt = ct; mix_hash(ct); return true; }
        if (!rc::aead_open(cipher, k, n, h, ct, pt)) return false;
        n++; mix_hash(ct); return true;
    }
    void split(bytes &k1, bytes &k2) { rc::hkdf2(hash, ck, bytes(), k1, k2); k1.resize(32); k2.resize(32); }
    size_t mac() const { return has_key ? 16 : 0; }
};

enum Next { WRITE, READ, SPLIT, FAILED };
struct HS {
    Proto proto; const Pattern *pat = nullptr; bool ini = true;
    Sym sym; size_t msg = 0; bool started = false, failed = false;
    Key s, e, rs, re, f, rf;           // rs/re/rf: only .pub
    bytes psk, prologue;
    bool zero_e = false, zero_f = false;   // attacker: send null keys
    bytes e_seed, f_seed;              // secrets to use for the next "e" / "f"
    void setup(const Proto &p, bool initiator) { proto = p; pat = find(p.pattern); ini = initiator; }
    bool psk_on() const { return proto.psk; }
    void mix_e(const bytes &pub) { sym.mix_hash(pub); if (proto.psk) sym.mix_key(pub); }
    void start() {
        sym.init(proto);
        sym.mix_hash(prologue);
        if (proto.psk) sym.mix_psk(psk);
        for (auto &w : words(pat->pre_i)) if (w == "s") sym.mix_hash(ini ? s.pub : rs.pub);
        for (auto &w : words(pat->pre_r)) {
            if (w == "s") sym.mix_hash(ini ? rs.pub : s.pub);
            if (w == "e") mix_e(ini ? re.pub : e.pub);
            if (w == "f") sym.mix_hash(ini ? rf.pub : f.pub);
        }
        started = true; msg = 0;
    }
    Next next() const { if (failed) return FAILED; if (msg >= pat->msgs.size()) return SPLIT; return (msg % 2 == 0) == ini ? WRITE : READ; }
    void gen(int dh, Key &mine, const Key &theirs, const bytes &seed, bool alice) {
        mine.alice = alice; mine.priv = seed;
        if (dh != NOISE_DH_NEWHOPE) mine.pub = rc::dh_public(dh, seed);
        else if (alice) mine.pub = nh_alice_public(seed);
        else { bytes sh; nh_bob(seed, theirs.pub, mine.pub, sh); }
    }
    void dh_token(const std::string &t) {
        const Key *a, *b; int d = proto.dh;
        if (t == "ee") { a = &e; b = &re; }
        else if (t == "ff") { a = &f; b = &rf; d = proto.hybrid; }
        else if (t == "ss") { a = &s; b = &rs; }
        else if (t == "es") { a = ini ? &e : &s; b = ini ? &rs : &re; }
        else { a = ini ? &s : &e; b = ini ? &re : &rs; }
        sym.mix_key(agree(d, *a, *b));
    }
    // The exact bytes of the next message.
    bytes write(const bytes &payload) {
        bytes out;
        for (auto &t : pat->msgs[msg]) {
            if (t == "e") { gen(proto.dh, e, re, e_seed, proto.dh == NOISE_DH_NEWHOPE ? e_alice() : true); if (zero_e) e.pub.assign(e.pub.size(), 0); out += e.pub; mix_e(e.pub); }
            else if (t == "s") out += sym.encrypt_and_hash(s.pub);
            else if (t == "f") { gen(proto.hybrid, f, rf, f_seed, !rf.have()); if (zero_f) f.pub.assign(f.pub.size(), 0); out += sym.encrypt_and_hash(f.pub); }
            else dh_token(t);
        }
        out += sym.encrypt_and_hash(payload);
        msg++;
        return out;
    }
    bool e_alice() const { return pat->fallback ? !ini : ini; }
    // Field layout of the next message: (token, offset, length including MAC); payload last.
    struct Field { std::string token; size_t off, len, mac; };
    std::vector<Field> layout(size_t payload) const {
        std::vector<Field> v; size_t o = 0; bool key = sym.has_key; bool writer = (msg % 2 == 0) == ini;
        for (auto &t : pat->msgs[msg]) {
            size_t l = 0, m = 0;
            if (t == "e") { bool al = proto.dh == NOISE_DH_NEWHOPE ? (writer ? e_alice() : !e_alice()) : true; l = pub_len(proto.dh, al); if (proto.psk) { v.push_back({t, o, l, 0}); o += l; key = true; continue; } }
            else if (t == "s") { m = key ? 16 : 0; l = rc::dhlen(proto.dh) + m; }
            else if (t == "f") { bool al = writer ? !rf.have() : !f.have(); m = key ? 16 : 0; l = pub_len(proto.hybrid, al) + m; }
            else { key = true; continue; }
            v.push_back({t, o, l, m}); o += l;
        }
        size_t m = key ? 16 : 0;
        v.push_back({"payload", o, payload + m, m});
        return v;
    }
    size_t overhead() const { auto v = layout(0); return v.back().off + v.back().len; }
    // False: the message must be rejected.
    bool read(const bytes &m, bytes &payload) {
        size_t o = 0;
        auto take = [&](size_t l, bytes &out) { if (m.size() - o < l) return false; out = m.substr(o, l); o += l; return true; };
        for (auto &t : pat->msgs[msg]) {
            if (t == "e") {
                bytes x; bool al = proto.dh == NOISE_DH_NEWHOPE ? !e_alice() : true;
                if (!take(pub_len(proto.dh, al), x)) return fail();
                if (is_zero(x)) return fail();
                re.pub = x; re.alice = al; mix_e(x);
            } else if (t == "s") { bytes x, y; if (!take(rc::dhlen(proto.dh) + sym.mac(), x) || !sym.decrypt_and_hash(x, y)) return fail(); rs.pub = y; }
            else if (t == "f") {
                bytes x, y; bool al = !f.have();
                if (!take(pub_len(proto.hybrid, al) + sym.mac(), x) || !sym.decrypt_and_hash(x, y)) return fail();
                if (is_zero(y)) return fail();
                rf.pub = y; rf.alice = al;
            } else dh_token(t);
        }
        if (!sym.decrypt_and_hash(m.substr(o), payload)) return fail();
        msg++;
        return true;
    }
    static bool is_zero(const bytes &b) { for (auto c : b) if (c) return false; return true; }
    bool fail() { failed = true; return false; }
    // Enter a fallback pattern: the responder of the original handshake becomes the initiator.
    void fallback(int pattern) {
        proto.pattern = pattern; pat = find(pattern); failed = false; started = false; msg = 0;
        ini = !ini;
        if (ini) { e = Key(); f = Key(); rs = Key(); } else { re = Key(); rf = Key(); rs = Key(); }
    }
};
} // namespace rn
