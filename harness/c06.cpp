// C06: every sequence of cipher state operations up to a bound, from fresh objects and near every nonce boundary,
// compared with a model of (key, next nonce) and an independent AEAD.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;

enum { O_KEY1, O_KEY2, O_KEYBAD, O_ENC, O_ENC_AD, O_ENC_EMPTY, O_ENC_NOROOM, O_ENC_HUGE, O_ENC_OVER, O_DEC, O_DEC_AD, O_DEC_BAD, O_DEC_NEXT, O_DEC_PREV, O_DEC_SHORT, O_DEC_OVER, O_DEC_HUGE,
       O_N_SAME, O_N_INC, O_N_DEC, O_N_ZERO, O_N_HIGH3, O_N_HIGH2, O_N_MAX, O_N_32, O_N_32M, O_N_63, O_COUNT };
static const char *oname[] = {"init_key 1", "init_key 2", "init_key of wrong length", "encrypt", "encrypt with AD", "encrypt nothing", "encrypt without room for the MAC", "encrypt 65520 bytes", "encrypt size beyond capacity", "decrypt", "decrypt with AD", "decrypt altered",
    "decrypt the message after the next", "decrypt the previous message", "decrypt 15 bytes", "decrypt size beyond capacity", "decrypt 65536 bytes", "set_nonce same", "set_nonce +1", "set_nonce -1", "set_nonce 0", "set_nonce 2^64-3", "set_nonce 2^64-2", "set_nonce 2^64-1", "set_nonce 2^32", "set_nonce 2^32-1", "set_nonce 2^63"};
static std::vector<uint8_t> big(70000, 0x42);

static const bytes &ref(int c, const bytes &k, uint64_t n, int kind) {   // 0: no AD, 1: AD, 2: empty
    static std::map<std::string, bytes> memo;
    std::string key = fmt("%d %d %llx %d", c, k[0], (unsigned long long)n, kind);
    auto it = memo.find(key);
    if (it == memo.end()) { if (memo.size() > 200000) memo.clear(); it = memo.insert({key, rc::aead(c, k, n, kind == 1 ? B("some ad") : bytes(), kind == 2 ? bytes() : pattern(21, 5))}).first; }
    return it->second;
}

static void body() {
    int cid = choose(2, "cipher") ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY;
    bool small = g().opts.count("small");
    int depth = small ? (g().thorough ? 4 : 3) : g().thorough ? 5 : 4;
    int mode = choose(4, "start");       // no key; keyed and fresh; keyed at an advanced nonce; long runs
    int run = mode == 3 ? choose(67, "power of two") : -1;
    int o1 = 0, o2 = 0;
    if (mode < 3) { o1 = choose(O_COUNT, "first"); o2 = choose(O_COUNT, "second"); }
    shard();
    lb::CSt c; int e = noise_cipherstate_new_by_id(c.out(), cid); CHECK(e == 0, "%s", lb::err(e).c_str());
    bytes K[2] = {pattern(32, 11), pattern(32, 99, 5)}, AD = B("some ad");
    bool has = false; uint64_t n = 0; int k = 0;
    auto probe_state = [&] { CHECK(noise_cipherstate_has_key(c) == (has ? 1 : 0), "has_key is wrong"); };
    auto enc = [&](int kind) {
        bytes pt = kind == 2 ? bytes() : pattern(21, 5), ct;
        int e = lb::encrypt(c, pt, ct, kind == 1 ? &AD : nullptr); op();
        if (!has) { CHECK(e == 0 && ct == pt, "encryption without a key must pass the data through: %s %s", lb::err(e).c_str(), hex(ct).c_str()); return; }
        if (n == UINT64_MAX) { CHECK(e == NOISE_ERROR_INVALID_NONCE, "encryption beyond the last nonce returned %s", lb::err(e).c_str()); return; }
        CHECK(e == 0, "encrypt at nonce %llu: %s", (unsigned long long)n, lb::err(e).c_str());
        const bytes &x = ref(cid, K[k], n, kind);
        CHECK(ct == x, "encryption did not use nonce %llu: %s instead of %s", (unsigned long long)n, hex(ct).c_str(), hex(x).c_str());
        n++;
    };
    auto dec = [&](int kind) {
        bytes pt = kind == 2 ? bytes() : pattern(21, 5), in = has ? (n == UINT64_MAX ? ref(cid, K[k], n - 1, kind) : ref(cid, K[k], n, kind)) : pt, out;
        int e = lb::decrypt(c, in, out, kind == 1 ? &AD : nullptr); op();
        if (!has) { CHECK(e == 0 && out == pt, "decryption without a key must pass the data through: %s", lb::err(e).c_str()); return; }
        if (n == UINT64_MAX) { CHECK(e == NOISE_ERROR_INVALID_NONCE, "decryption beyond the last nonce returned %s", lb::err(e).c_str()); return; }
        CHECK(e == 0 && out == pt, "decryption at nonce %llu: %s", (unsigned long long)n, lb::err(e).c_str());
        n++;
    };
    auto bad_dec = [&](uint64_t at, bool flip) {
        bytes in = ref(cid, K[k], at, 0), out; if (flip) in[3] ^= 0x10;
        int e = lb::decrypt(c, in, out); op();
        if (!has) { CHECK(e == 0, "decryption without a key must pass the data through"); return; }
        if (n == UINT64_MAX) CHECK(e == NOISE_ERROR_INVALID_NONCE, "decryption beyond the last nonce returned %s", lb::err(e).c_str());
        else CHECK(e == NOISE_ERROR_MAC_FAILURE, "decryption of a wrong message returned %s", lb::err(e).c_str());
    };
    auto setn = [&](uint64_t v) {
        int e = noise_cipherstate_set_nonce(c, v); op();
        if (!has) CHECK(e == NOISE_ERROR_INVALID_STATE, "set_nonce without a key returned %s", lb::err(e).c_str());
        else if (v < n) CHECK(e == NOISE_ERROR_INVALID_NONCE, "moving the nonce back from %llu to %llu returned %s", (unsigned long long)n, (unsigned long long)v, lb::err(e).c_str());
        else { CHECK(e == 0, "moving the nonce from %llu to %llu returned %s", (unsigned long long)n, (unsigned long long)v, lb::err(e).c_str()); n = v; }
    };
    auto call = [&](bool encr, size_t size, size_t max) { NoiseBuffer b; noise_buffer_set_inout(b, big.data(), size, max); op(); int e = encr ? noise_cipherstate_encrypt(c, &b) : noise_cipherstate_decrypt(c, &b); if (e) CHECK(b.size == size || b.size == 0, "size changed by a refused call"); return e; };
    auto doop = [&](int o) {
        tracef("%s", oname[o]);
        int e;
        switch (o) {
        case O_KEY1: case O_KEY2: e = noise_cipherstate_init_key(c, K[o - O_KEY1].data(), 32); CHECK(e == 0, "init_key: %s", lb::err(e).c_str()); has = true; n = 0; k = o - O_KEY1; break;
        case O_KEYBAD: e = noise_cipherstate_init_key(c, K[0].data(), 31); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "init_key with 31 bytes: %s", lb::err(e).c_str()); e = noise_cipherstate_init_key(c, 0, 32); CHECK(e == NOISE_ERROR_INVALID_PARAM, "init_key(NULL): %s", lb::err(e).c_str()); break;
        case O_ENC: enc(0); break; case O_ENC_AD: enc(1); break; case O_ENC_EMPTY: enc(2); break;
        case O_ENC_NOROOM: e = call(true, 40, 55); CHECK(e == (has ? NOISE_ERROR_INVALID_LENGTH : 0), "encrypt without room for the MAC: %s", lb::err(e).c_str()); break;
        case O_ENC_HUGE: if (has) { e = call(true, 65520, 70000); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "encrypting 65520 bytes: %s", lb::err(e).c_str()); } e = call(true, 65536, 70000); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "encrypting 65536 bytes: %s", lb::err(e).c_str()); break;
        case O_ENC_OVER: e = call(true, 40, 39); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "encrypt with size beyond the capacity: %s", lb::err(e).c_str()); break;
        case O_DEC: dec(0); break; case O_DEC_AD: dec(1); break;
        case O_DEC_BAD: bad_dec(n == UINT64_MAX ? 5 : n, true); break;
        case O_DEC_NEXT: bad_dec(n >= UINT64_MAX - 1 ? 7 : n + 1, false); break;
        case O_DEC_PREV: bad_dec(n ? n - 1 : UINT64_MAX - 1, false); break;
        case O_DEC_SHORT: e = call(false, 15, 100); CHECK(e == (has ? NOISE_ERROR_INVALID_LENGTH : 0), "decrypting 15 bytes: %s", lb::err(e).c_str()); break;
        case O_DEC_OVER: e = call(false, 40, 39); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "decrypt with size beyond the capacity: %s", lb::err(e).c_str()); break;
        case O_DEC_HUGE: e = call(false, 65536, 70000); CHECK(e == NOISE_ERROR_INVALID_LENGTH, "decrypting 65536 bytes: %s", lb::err(e).c_str()); break;
        case O_N_SAME: setn(n); break; case O_N_INC: if (n == UINT64_MAX) skip(); setn(n + 1); break; case O_N_DEC: if (n == 0) skip(); setn(n - 1); break; case O_N_ZERO: setn(0); break;
        case O_N_HIGH3: setn(UINT64_MAX - 2); break; case O_N_HIGH2: setn(UINT64_MAX - 1); break; case O_N_MAX: setn(UINT64_MAX); break;
        case O_N_32: setn(1ULL << 32); break; case O_N_32M: setn((1ULL << 32) - 1); break; case O_N_63: setn(1ULL << 63); break;
        }
        probe_state();
        state(mix(mix(cid, has * 2 + k), n));
    };
    if (mode == 3) {                     // counting over every power of two, and from 0 beyond 2^16
        if (run < 64) for (int how = 0; how < 3; how++) for (uint64_t d = 1; d < 4; d++) {
            doop(O_KEY2); setn((1ULL << run) >= d ? (1ULL << run) - d : 0);
            for (int i = 0; i < 5; i++) { if (how == 0 || (how == 2 && i % 2)) enc(i % 3); else dec(i % 3); probe_state(); }
            state(mix(mix(cid, has * 2 + k), n));
        } else { doop(O_KEY1); for (int i = 0; i < (g().thorough ? 300000 : 66000); i++) { if (run == 64 || (run == 66 && i % 2)) enc(2); else dec(2); if (i % 1000 == 0) g().ticks = 0; } }
        outcome("long runs"); return;
    }
    if (mode) { doop(O_KEY1); if (mode == 2) { static const uint64_t at[] = {1, 255, 256, 65535, (1ULL << 32) - 1, (1ULL << 63) - 1, UINT64_MAX - 3, UINT64_MAX - 2}; setn(at[choose(8, "nonce")]); } }
    probe_state();
    doop(o1); doop(o2);
    for (int i = 2; i < depth; i++) doop(choose(O_COUNT, "operation"));
    // what the object would do next, observed both ways
    uint64_t at = n;
    enc(0); dec(0); enc(1);
    if (has && at == UINT64_MAX) { for (int i = 0; i < 3; i++) { enc(i); dec(i); setn(0); } }
    outcome(!has ? "no key" : n == UINT64_MAX ? "exhausted" : "usable");
    sample(fmt("%s start %d: %s, %s, ... -> next nonce %llu", cid == NOISE_CIPHER_AESGCM ? "AESGCM" : "ChaChaPoly", mode, oname[o1], oname[o2], (unsigned long long)n));
}
VH_MAIN2(body, rng::install)
