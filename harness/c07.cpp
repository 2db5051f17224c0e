// C07: AEAD exactness on the real cipher objects: every length pair up to a bound against libcrypto, and every single-bit
// change, truncation and extension of ciphertext, associated data, nonce and key.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;

static bool contains_plain(const bytes &buf, const bytes &pt) {     // any 4-byte window at its own position, or (short) the whole text
    if (pt.size() < 4) return false;
    for (size_t i = 0; i + 4 <= pt.size() && i + 4 <= buf.size(); i++) if (!memcmp(buf.data() + i, pt.data() + i, 4)) return true;
    return false;
}
static void key(lb::CSt &c, int cid, const bytes &k, uint64_t n) {
    int e = noise_cipherstate_new_by_id(c.out(), cid); CHECK(e == 0, "%s", lb::err(e).c_str());
    e = noise_cipherstate_init_key(c, k.data(), 32); CHECK(e == 0, "%s", lb::err(e).c_str());
    if (n) { e = noise_cipherstate_set_nonce(c, n); CHECK(e == 0, "%s", lb::err(e).c_str()); }
}

static void body() {
    int cid = choose(2, "cipher") ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY;
    bool th = g().thorough;
    int mode = choose(3, "mode");
    bytes K = pattern(32, 200, 3);
    const char *cn = cid == NOISE_CIPHER_AESGCM ? "AESGCM" : "ChaChaPoly";
    if (mode == 0) {                           // every (length, AD length) pair; two keys, nonce advances
        int len = choose(th ? 1100 : 290, "length");
        shard();
        lb::CSt c, d; uint64_t n = 0;
        if (len % 3 == 1) n = (1ULL << 32) - 5; if (len % 3 == 2) n = 0x123456789abcdef0ULL;
        key(c, cid, K, n); key(d, cid, K, n);
        bytes pt = pattern(len, 17, 13);
        static const int adl[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 28, 31, 32, 33, 40, 47, 48, 49, 50, 63, 64, 65, 79, 80, 81, 95, 96, 97, 112, 127, 128, 129, 255, 256, 257, 300};
        for (int a : adl) {
            bytes ad = pattern(a, 3, 29), ct, out;
            int e = lb::encrypt(c, pt, ct, a || len % 2 ? &ad : nullptr); op();
            CHECK(e == 0, "%s encrypt %d bytes, AD %d: %s", cn, len, a, lb::err(e).c_str());
            bytes x = rc::aead(cid, K, n, ad, pt);
            CHECKK("encryption differs from the standard", ct == x, "%s encryption of %d bytes with %d bytes of AD at nonce %llu differs from the standard algorithm", cn, len, a, (unsigned long long)n);
            e = lb::decrypt(d, ct, out, a || len % 2 ? &ad : nullptr); op();
            CHECK(e == 0 && out == pt, "%s decryption of %d bytes with %d bytes of AD: %s", cn, len, a, lb::err(e).c_str());
            n++;
            distinct(mix(mix(cid, len), a));
        }
        outcome("length pairs");
        sample(fmt("%s: %d bytes with all AD lengths", cn, len));
    } else if (mode == 1) {                    // large sizes and boundaries
        static const int lens[] = {511, 512, 513, 1023, 1024, 1025, 4080, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 40000, 65280, 65503, 65504, 65518, 65519};
        int len = lens[choose(23, "length")]; int a = choose(3, "AD"); shard();
        lb::CSt c, d; uint64_t n = 9; key(c, cid, K, n); key(d, cid, K, n);
        bytes pt = pattern(len, 1, 31), ad = pattern(a == 0 ? 0 : a == 1 ? 1000 : 65536, 3, 29), ct, out;
        int e = lb::encrypt(c, pt, ct, &ad); op(); CHECK(e == 0, "%s encrypt %d: %s", cn, len, lb::err(e).c_str());
        CHECKK("encryption differs from the standard", ct == rc::aead(cid, K, n, ad, pt), "%s encryption of %d bytes with %zu bytes of AD differs from the standard algorithm", cn, len, ad.size());
        e = lb::decrypt(d, ct, out, &ad); op(); CHECK(e == 0 && out == pt, "%s decrypt %d: %s", cn, len, lb::err(e).c_str());
        distinct(mix(mix(cid, len), a)); outcome("large sizes");
    } else {                                   // every alteration
        static const int lens[] = {0, 1, 5, 15, 16, 17, 31, 33, 64, 65, 100, 130, 257, 600};
        int len = lens[choose(th ? 14 : 12, "length")], a = choose(4, "AD");
        a = a == 0 ? 0 : a == 1 ? 1 : a == 2 ? 19 : 64;
        shard();
        uint64_t n = 0x0102030405060708ULL;
        bytes pt = pattern(len, 77, 11), ad = pattern(a, 3, 29), ct = rc::aead(cid, K, n, ad, pt);
        long count = 0;
        lb::CSt live; key(live, cid, K, n);    // one object sees every alteration and must stay at its nonce
        auto reject = [&](NoiseCipherState *c, const bytes &msg, const bytes &adx, const char *what, int pos) {
            Block b(msg); NoiseBuffer nb; noise_buffer_set_input(nb, b.p, b.n); Block ab(adx);
            int e = noise_cipherstate_decrypt_with_ad(c, ab.p, ab.n, &nb); op(); count++;
            CHECKK("altered message accepted", e != 0, "%s accepted a message of %d bytes (AD %d) with %s at %d", cn, len, a, what, pos);
            CHECKK("wrong error", e == NOISE_ERROR_MAC_FAILURE || (e == NOISE_ERROR_INVALID_LENGTH && msg.size() < 16), "%s: error %s for %s", cn, lb::err(e).c_str(), what);
            CHECKK("plaintext left in the buffer", !contains_plain(b.get(), pt), "%s left decrypted plaintext in the buffer after rejecting %s at %d", cn, what, pos);
            CHECK(ab.get() == adx, "the associated data was modified");
            distinct(mix(mix(mix(cid, len), a), hash_str(fmt("%s %d", what, pos))));
        };
        for (size_t i = 0; i < ct.size() * 8; i++) { bytes m = ct; m[i / 8] ^= 1 << (i % 8); reject(live, m, ad, "a flipped ciphertext bit", (int)i); }
        for (size_t i = 0; i < ad.size() * 8; i++) { bytes x = ad; x[i / 8] ^= 1 << (i % 8); reject(live, ct, x, "a flipped AD bit", (int)i); }
        for (size_t i = 0; i < ct.size(); i++) reject(live, ct.substr(0, i), ad, "a truncated ciphertext", (int)i);
        for (size_t i = 1; i < ct.size(); i++) reject(live, ct.substr(i), ad, "a ciphertext cut at the front", (int)i);
        for (size_t i = 1; i <= 40; i++) reject(live, ct + pattern(i, 0, 0), ad, "an extended ciphertext", (int)i);
        for (size_t i = 0; i < ad.size(); i++) reject(live, ct, ad.substr(0, i), "truncated AD", (int)i);
        for (size_t i = 1; i <= 20; i++) reject(live, ct, ad + bytes(i, 0), "AD extended by zeroes", (int)i);
        for (size_t i = 0; i + 1 < ct.size(); i++) if (ct[i] != ct[i + 1]) { bytes m = ct; std::swap(m[i], m[i + 1]); reject(live, m, ad, "two exchanged bytes", (int)i); }
        for (size_t i = 0; i < 16; i++) { bytes m = ct; size_t o = ct.size() - 16; m[o + i] ^= 0x80; m[o + (i + 1) % 16] ^= 0x80; reject(live, m, ad, "two flipped MAC bits", (int)i); }
        { bytes m = ct; for (size_t i = 0; i < 16; i++) m[m.size() - 16 + i] = 0; reject(live, m, ad, "a zero MAC", 0); for (size_t i = 0; i < 16; i++) m[m.size() - 16 + i] = (uint8_t)~ct[ct.size() - 16 + i]; reject(live, m, ad, "an inverted MAC", 0); }
        for (int i = 0; i < 64; i++) { lb::CSt c; uint64_t x = n ^ (1ULL << i); if (x == UINT64_MAX) continue; key(c, cid, K, x); reject(c, ct, ad, "a flipped nonce bit", i); }
        for (int i = 0; i < 256; i++) { lb::CSt c; bytes k2 = K; k2[i / 8] ^= 1 << (i % 8); key(c, cid, k2, n); reject(c, ct, ad, "a flipped key bit", i); }
        if (len > 0) { bytes mv = ad + ct.substr(0, 1); reject(live, ct.substr(1), mv, "a byte moved from ciphertext to AD", 0); }
        bytes out; int e = lb::decrypt(live, ct, out, &ad); CHECK(e == 0 && out == pt, "the unaltered message is rejected after %ld altered ones: %s", count, lb::err(e).c_str());
        outcome("alterations"); sample(fmt("%s: %ld alterations of a %d-byte message with %d bytes of AD", cn, count, len, a));
    }
}
VH_MAIN2(body, rng::install)
