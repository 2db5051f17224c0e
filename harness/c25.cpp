// C25: every sequence of symmetric state operations up to a bound, for every cipher and hash, against the
// specification's SymmetricState (refnoise.hpp: Sym).
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;

enum { K_EMPTY, K_5, K_32, K_200, H_EMPTY, H_1, H_150, E_0, E_5, E_64, E_NOROOM, E_OVER, D_0, D_20, D_BAD_CT, D_BAD_MAC, D_SHORT, D_STALE, D_OVER, S_BOTH, S_ONE, S_TWO, S_NONE, N_OPS };
static const char *onm[] = {"mix_key nothing", "mix_key 5", "mix_key 32", "mix_key 200", "mix_hash nothing", "mix_hash 1", "mix_hash 150", "encrypt nothing", "encrypt 5", "encrypt 64", "encrypt without room", "encrypt beyond 65535", "decrypt nothing", "decrypt 20",
    "decrypt altered text", "decrypt altered MAC", "decrypt 15 bytes", "decrypt a message for the previous hash", "decrypt 65536 bytes", "split", "split into the first only", "split into the second only", "split into nothing"};

static int enc(NoiseSymmetricState *s, const bytes &pt, size_t cap, bytes &out) {
    Block b(cap); memcpy(b.p, pt.data(), pt.size());
    NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, pt.size(), cap);
    int e = noise_symmetricstate_encrypt_and_hash(s, &nb); op();
    if (!e && nb.size > cap) failk("size exceeds capacity", "encrypt_and_hash set size %zu with capacity %zu", nb.size, cap);
    out = e ? bytes() : b.get(nb.size); return e;
}
static int dec(NoiseSymmetricState *s, const bytes &ct, bytes &out) {
    Block b(ct); NoiseBuffer nb; noise_buffer_set_input(nb, b.p, b.n);
    int e = noise_symmetricstate_decrypt_and_hash(s, &nb); op();
    out = e ? bytes() : b.get(nb.size <= b.n ? nb.size : 0); return e;
}

static const char *NAMES[] = {"Noise_NN_25519_%s_%s", "NoisePSK_XXfallback_448_%s_%s", "Noise_IXhfs_25519+448_%s_%s", "NoisePSK_XXfallback+hfs_NewHope+448_%s_%s"};

// Every length of every operation's data, from a fresh and from a keyed state; and altered messages of every length
static void lengths() {
    static const int CI[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}, HA[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
    int ci = choose(2, "cipher"), ha = choose(4, "hash"), keyed = choose(2, "keyed"), kind = choose(4, "operation"), sl = choose(8, "slice"); shard();
    static const char *kn[] = {"mix_key", "mix_hash", "encrypt", "decrypt"};
    rn::Proto p; p.cipher = CI[ci]; p.hash = HA[ha]; p.pattern = NOISE_PATTERN_NN; p.dh = NOISE_DH_CURVE25519; NoiseProtocolId id = p.id();
    std::vector<size_t> ls; for (size_t n = (size_t)sl; n <= (g().thorough ? 2100u : 300u); n += 8) ls.push_back(n);
    static const size_t big[] = {511, 512, 513, 1023, 1024, 1025, 4079, 4080, 4081, 4095, 4096, 4097, 16384, 32767, 32768, 65503, 65504, 65518, 65519, 65520, 65535, 65536, 70001, 200000};
    for (size_t i = sl; i < sizeof big / sizeof *big; i += 8) ls.push_back(big[i]);
    for (size_t n : ls) {
        size_t top = kind < 2 ? (size_t)-1 : keyed ? 65519 : 65535; if (n > top) continue;
        lb::SySt s; int e = noise_symmetricstate_new_by_id(s.out(), &id); CHECK(e == 0, "new: %s", lb::err(e).c_str()); rn::Sym m; m.init(p);
        std::string story = fmt("%s %s%s of %zu bytes", p.name().c_str(), keyed ? "with a key, " : "", kn[kind], n); note(story);
        if (keyed) { bytes k = pattern(32, 4); Block b(k); e = noise_symmetricstate_mix_key(s, b.p, b.n); CHECK(e == 0, "mix_key: %s", lb::err(e).c_str()); m.mix_key(k); }
        bytes d = pattern(n, (uint8_t)(n + 1), 3), o;
        if (kind < 2) { Block b(d); e = kind ? noise_symmetricstate_mix_hash(s, b.p, b.n) : noise_symmetricstate_mix_key(s, b.p, b.n); CHECKK(kn[kind], e == 0, "%s: %s", story.c_str(), lb::err(e).c_str()); if (kind) m.mix_hash(d); else m.mix_key(d); }
        else if (kind == 2) { e = enc(s, d, n + m.mac(), o); CHECKK("encrypt", e == 0, "%s: %s", story.c_str(), lb::err(e).c_str()); bytes w = m.encrypt_and_hash(d); CHECKK("ciphertext", o == w, "%s: another ciphertext than the specification's", story.c_str()); }
        else {
            rn::Sym t = m; bytes ct = t.encrypt_and_hash(d);
            if (keyed) for (size_t at : {(size_t)0, n / 2, n ? n - 1 : 0, n, ct.size() - 1}) { bytes x = ct; x[at] ^= 0x20; e = dec(s, x, o); CHECKK("decrypt altered", e == NOISE_ERROR_MAC_FAILURE, "%s, byte %zu altered: %s", story.c_str(), at, lb::err(e).c_str()); }
            e = dec(s, ct, o); CHECKK("decrypt", e == 0 && o == d, "%s: %s", story.c_str(), lb::err(e).c_str()); m = t;
        }
        // what is left shows in what comes next
        bytes q = pattern(9, 1); e = enc(s, q, q.size() + m.mac(), o); bytes w = m.encrypt_and_hash(q); CHECKK("state after this length", e == 0 && o == w, "%s, then encrypt: %s", story.c_str(), lb::err(e).c_str());
        bytes k2 = pattern(32, 8); Block b2(k2); e = noise_symmetricstate_mix_key(s, b2.p, b2.n); m.mix_key(k2); CHECK(e == 0, "mix_key: %s", lb::err(e).c_str()); e = enc(s, q, q.size() + m.mac(), o); w = m.encrypt_and_hash(q); CHECKK("state after this length", e == 0 && o == w, "%s, then mix_key and encrypt: %s", story.c_str(), lb::err(e).c_str());
        op(3); distinct(hash_str(story));
    }
    outcome("lengths");
}

static void sequences() {
    int ci = choose(2, "cipher"), ha = choose(4, "hash"); bool small = g().opts.count("small");
    static const int CI[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}, HA[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
    static const char *CN[] = {"ChaChaPoly", "AESGCM"}, *HN[] = {"SHA256", "SHA512", "BLAKE2s", "BLAKE2b"};
    int start = choose(small ? 1 : 4, "start");        // 0: fresh, 1: keyed, 2: keyed after a long exchange, 3: a long name
    int o1 = choose(N_OPS, "op"), o2 = choose(N_OPS, "op");
    shard();
    int depth = small ? (g().thorough ? 4 : 3) : g().thorough ? 5 : start < 2 && ha == (start ? 2 - ci : 3 * ci) ? 4 : 3;
    rn::Proto p; p.cipher = CI[ci]; p.hash = HA[ha];
    lb::SySt s; int e; std::string name = fmt(NAMES[start], CN[ci], HN[ha]);
    static const struct { int pattern, psk, dh, hy; } PR[] = {{NOISE_PATTERN_NN, 0, NOISE_DH_CURVE25519, 0}, {NOISE_PATTERN_XX_FALLBACK, 1, NOISE_DH_CURVE448, 0}, {NOISE_PATTERN_IX_HFS, 0, NOISE_DH_CURVE25519, NOISE_DH_CURVE448}, {NOISE_PATTERN_XX_FALLBACK_HFS, 1, NOISE_DH_NEWHOPE, NOISE_DH_CURVE448}};
    p.pattern = PR[start].pattern; p.psk = PR[start].psk; p.dh = PR[start].dh; p.hybrid = PR[start].hy;
    CHECK(p.name() == name, "the model names the protocol %s", p.name().c_str());
    NoiseProtocolId id = p.id();
    if ((o1 + o2) & 1) e = noise_symmetricstate_new_by_name(s.out(), name.c_str()); else e = noise_symmetricstate_new_by_id(s.out(), &id);
    CHECK(e == 0, "new %s: %s", name.c_str(), lb::err(e).c_str());
    rn::Sym m; m.init(p); bool split = false; rn::Sym before = m;
    std::string story = name + ":";
    auto out_state = [&] { state(hash_bytes(m.h.data(), m.h.size(), hash_bytes(m.ck.data(), m.ck.size(), m.n + 100 * m.has_key + 1000 * split + 10000 * ci))); };
    auto mac = [&] { size_t n = noise_symmetricstate_get_mac_length(s), w = split ? 0 : m.mac(); CHECKK("MAC length", n == w, "%s: get_mac_length is %zu instead of %zu", story.c_str(), n, w); };
    auto check_pair = [&](NoiseCipherState *c, const bytes &key, const char *which) {
        for (uint64_t n = 0; n < 2; n++) {
            bytes pt = pattern(7 + (size_t)n, 3), ct; int e = lb::encrypt(c, pt, ct); op();
            CHECKK("split key", e == 0 && ct == rc::aead(p.cipher, key, n, bytes(), pt), "%s: message %d of the %s cipher: %s, %s", story.c_str(), (int)n, which, lb::err(e).c_str(), hex(ct).c_str());
        }
    };
    auto do_split = [&](int kind) {
        lb::CSt c1, c2; NoiseCipherState *x1 = (NoiseCipherState *)8, *x2 = (NoiseCipherState *)8;
        int e = noise_symmetricstate_split(s, kind != S_TWO && kind != S_NONE ? &x1 : 0, kind != S_ONE && kind != S_NONE ? &x2 : 0); op();
        if (kind == S_NONE) { CHECKK("split into nothing", e == NOISE_ERROR_INVALID_PARAM, "%s: split with no outputs returned %s", story.c_str(), lb::err(e).c_str()); return; }
        if (split) {
            CHECKK("second split", e == NOISE_ERROR_INVALID_STATE, "%s: a second split returned %s", story.c_str(), lb::err(e).c_str());
            CHECKK("second split", (kind == S_TWO || !x1) && (kind == S_ONE || !x2), "%s: a refused split left its outputs set", story.c_str()); return;
        }
        CHECKK("split", e == 0, "%s: split returned %s", story.c_str(), lb::err(e).c_str());
        if (kind != S_TWO) *c1.out() = x1;
        if (kind != S_ONE) *c2.out() = x2;
        CHECKK("split", (kind == S_TWO || x1) && (kind == S_ONE || x2) && x1 != x2, "%s: split did not give the ciphers asked for", story.c_str());
        bytes k1, k2; m.split(k1, k2);
        if (kind != S_TWO) check_pair(c1, k1, "first");
        if (kind != S_ONE) check_pair(c2, k2, "second");
        split = true;
    };
    auto expect = [&](const char *what, int e, int want) { CHECKK(what, e == want, "%s: returned %s instead of %s", story.c_str(), lb::err(e).c_str(), lb::err(want).c_str()); };
    auto run = [&](int o) {
        story += std::string(" ") + onm[o] + ";";
        static const size_t KL[] = {0, 5, 32, 200}, HL[] = {0, 1, 150};
        if (o <= K_200) {
            bytes d = pattern(KL[o], 9, 3); Block b(d); e = noise_symmetricstate_mix_key(s, b.p, b.n); op();
            expect("mix_key", e, split ? NOISE_ERROR_INVALID_STATE : 0); if (!split) { before = m; m.mix_key(d); }
        } else if (o <= H_150) {
            bytes d = pattern(HL[o - H_EMPTY], 17, 5); Block b(d); e = noise_symmetricstate_mix_hash(s, b.p, b.n); op();
            expect("mix_hash", e, split ? NOISE_ERROR_INVALID_STATE : 0); if (!split) { before = m; m.mix_hash(d); }
        } else if (o <= E_64) {
            static const size_t L[] = {0, 5, 64}; bytes d = pattern(L[o - E_0], 33), ct; e = enc(s, d, d.size() + (split ? 16 : m.mac()), ct);
            expect("encrypt", e, split ? NOISE_ERROR_INVALID_STATE : 0);
            if (!split) { before = m; bytes w = m.encrypt_and_hash(d); CHECKK("ciphertext", ct == w, "%s: %s instead of %s", story.c_str(), hex(ct).c_str(), hex(w).c_str()); }
        } else if (o == E_NOROOM) {
            bytes d = pattern(8, 1), ct; e = enc(s, d, 8 + 15, ct);
            if (!split && !m.has_key) { before = m; bytes w = m.encrypt_and_hash(d); expect("encrypt", e, 0); CHECKK("ciphertext", ct == w, "%s: %s instead of %s", story.c_str(), hex(ct).c_str(), hex(w).c_str()); }
            else expect("encrypt without room", e, split ? NOISE_ERROR_INVALID_STATE : NOISE_ERROR_INVALID_LENGTH);
        } else if (o == E_OVER) {
            static std::vector<uint8_t> big(70000, 7); NoiseBuffer nb; noise_buffer_set_inout(nb, big.data(), 65536, 70000); e = noise_symmetricstate_encrypt_and_hash(s, &nb); op();
            expect("encrypt beyond 65535", e, split ? NOISE_ERROR_INVALID_STATE : NOISE_ERROR_INVALID_LENGTH);
        } else if (o <= D_20) {
            bytes d = pattern(o == D_0 ? 0 : 20, 77), out; rn::Sym t = m; bytes ct = split ? pattern(36, 1) : t.encrypt_and_hash(d); e = dec(s, ct, out);
            expect("decrypt", e, split ? NOISE_ERROR_INVALID_STATE : 0);
            if (!split) { CHECKK("plaintext", out == d, "%s: %s", story.c_str(), hex(out).c_str()); before = m; m = t; }
        } else if (o <= D_OVER) {
            bytes d = pattern(20, 77), out; rn::Sym t = o == D_STALE ? before : m; bytes ct = t.encrypt_and_hash(d); if (ct.size() < 36) ct.resize(36, 1);
            if (o == D_BAD_CT) ct[19] ^= 1; else if (o == D_BAD_MAC) ct[35] ^= 0x80; else if (o == D_SHORT) ct.resize(15); else if (o == D_OVER) ct.resize(65536, 1);
            e = dec(s, ct, out);
            if (split) { expect("decrypt after split", e, NOISE_ERROR_INVALID_STATE); }
            else if (o == D_OVER) expect("decrypt 65536", e, NOISE_ERROR_INVALID_LENGTH);
            else if (!m.has_key) { expect("decrypt without a key", e, 0); bytes w; before = m; m.decrypt_and_hash(ct, w); CHECKK("plaintext", out == w, "%s: %s", story.c_str(), hex(out).c_str()); }
            else if (o == D_SHORT) expect("decrypt 15 bytes", e, NOISE_ERROR_INVALID_LENGTH);
            else { bytes w; rn::Sym u = m; if (u.decrypt_and_hash(ct, w)) { expect("decrypt", e, 0); before = m; m = u; } else expect("decrypt altered", e, NOISE_ERROR_MAC_FAILURE); }
        } else do_split(o);
        mac(); out_state();
    };
    if (start) { auto pre = [&](int o) { run(o); }; pre(K_32); if (start == 2) { pre(H_150); pre(E_64); pre(D_20); pre(K_5); pre(E_0); } if (start == 3) { pre(D_BAD_MAC); pre(E_5); pre(E_5); } }
    run(o1); run(o2);
    for (int i = 2; i < depth; i++) run(choose(N_OPS, "op"));
    // everything the state is made of shows in what it does next
    if (!split) {
        story += " final;"; NoiseProtocolId got; e = noise_symmetricstate_get_protocol_id(s, &got); CHECK(e == 0 && got.pattern_id == id.pattern_id && got.cipher_id == id.cipher_id && got.hash_id == id.hash_id && got.dh_id == id.dh_id && got.hybrid_id == id.hybrid_id && got.prefix_id == id.prefix_id, "%s: the protocol changed", story.c_str());
        run(E_5); run(D_20); run(K_5); run(E_5); run(S_BOTH);
    }
    run(E_0); run(S_BOTH);
    outcome(split ? "ended split" : "not split"); sample(story, 2);
}
static void body() { if (choose(2, "part")) lengths(); else sequences(); }
static void setup() { rng::install(); }
VH_MAIN2(body, setup)
