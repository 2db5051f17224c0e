// C17: protocol names and identifiers.  Oracle: an independent table and a strict splitter.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;
typedef std::pair<std::string, int> N;
static const std::vector<N> prefixes = {{"Noise", NOISE_PREFIX_STANDARD}, {"NoisePSK", NOISE_PREFIX_PSK}};
static const std::vector<N> dhs = {{"25519", NOISE_DH_CURVE25519}, {"448", NOISE_DH_CURVE448}, {"NewHope", NOISE_DH_NEWHOPE}};
static const std::vector<N> cips = {{"ChaChaPoly", NOISE_CIPHER_CHACHAPOLY}, {"AESGCM", NOISE_CIPHER_AESGCM}};
static const std::vector<N> hashes = {{"BLAKE2s", NOISE_HASH_BLAKE2s}, {"BLAKE2b", NOISE_HASH_BLAKE2b}, {"SHA256", NOISE_HASH_SHA256}, {"SHA512", NOISE_HASH_SHA512}};
static const std::vector<N> signs = {{"Ed25519", NOISE_SIGN_ED25519}};
static const std::vector<N> &pats() { static std::vector<N> v; if (v.empty()) for (auto &p : rn::patterns()) v.push_back({p.name, p.id}); return v; }
static const std::vector<N> &all() { static std::vector<N> v; if (v.empty()) for (auto *t : {&prefixes, &dhs, &cips, &hashes, &signs, &pats()}) v.insert(v.end(), t->begin(), t->end()); return v; }
static int lookup(const std::vector<N> &t, const std::string &s) { for (auto &x : t) if (x.first == s) return x.second; return 0; }
struct Ids { int v[6] = {0, 0, 0, 0, 0, 0}; bool operator==(const Ids &o) const { return !memcmp(v, o.v, sizeof v); } };      // prefix pattern dh cipher hash hybrid
static Ids ids(const NoiseProtocolId &i) { Ids r; int v[6] = {i.prefix_id, i.pattern_id, i.dh_id, i.cipher_id, i.hash_id, i.hybrid_id}; memcpy(r.v, v, sizeof v); return r; }
static NoiseProtocolId raw(const Ids &i) { NoiseProtocolId r; memset(&r, 0, sizeof r); r.prefix_id = i.v[0]; r.pattern_id = i.v[1]; r.dh_id = i.v[2]; r.cipher_id = i.v[3]; r.hash_id = i.v[4]; r.hybrid_id = i.v[5]; return r; }
static bool parse(const std::string &s, Ids &r) {
    std::vector<std::string> f(1); for (char c : s) if (c == '_') f.push_back(""); else f.back() += c;
    r = Ids(); if (f.size() != 5) return false;
    Ids x; x.v[0] = lookup(prefixes, f[0]); x.v[1] = lookup(pats(), f[1]); size_t plus = f[2].find('+'); x.v[2] = lookup(dhs, f[2].substr(0, plus)); if (plus != std::string::npos) { x.v[5] = lookup(dhs, f[2].substr(plus + 1)); if (!x.v[5]) return false; }
    x.v[3] = lookup(cips, f[3]); x.v[4] = lookup(hashes, f[4]); for (int i = 0; i < 5; i++) if (!x.v[i]) return false;
    r = x; return true;
}
static std::string nameof(const Ids &i) { auto nm = [](const std::vector<N> &t, int id) { for (auto &x : t) if (x.second == id) return x.first; return std::string(); }; return nm(prefixes, i.v[0]) + "_" + nm(pats(), i.v[1]) + "_" + nm(dhs, i.v[2]) + (i.v[5] ? "+" + nm(dhs, i.v[5]) : "") + "_" + nm(cips, i.v[3]) + "_" + nm(hashes, i.v[4]); }
static bool known(const Ids &i) { auto has = [](const std::vector<N> &t, int id) { for (auto &x : t) if (x.second == id) return true; return false; }; return has(prefixes, i.v[0]) && has(pats(), i.v[1]) && has(dhs, i.v[2]) && has(cips, i.v[3]) && has(hashes, i.v[4]) && (!i.v[5] || has(dhs, i.v[5])); }
static bool zero(const NoiseProtocolId &i) { const uint8_t *p = (const uint8_t *)&i; for (size_t k = 0; k < sizeof i; k++) if (p[k]) return false; return true; }
// The library's answer for a string of exactly these bytes
static void probe(const std::string &s) {
    Block b(B(s)); NoiseProtocolId i; memset(&i, 0x5a, sizeof i); int e = noise_protocol_name_to_id(&i, (const char *)b.p, b.n); op();
    Ids want; bool ok = parse(s, want);
    if (ok) CHECKK("valid name", e == 0 && ids(i) == want, "\"%s\" returned %s or other identifiers", s.c_str(), lb::err(e).c_str());
    else { CHECKK("invalid name", e == NOISE_ERROR_UNKNOWN_NAME, "\"%s\" (%zu bytes) returned %s", s.c_str(), s.size(), lb::err(e).c_str()); CHECKK("output cleared", zero(i), "\"%s\" was refused but the output is not cleared", s.c_str()); }
    if (ok) for (auto &r : i.reserved) CHECK(r == 0, "reserved identifiers are not zero");
    distinct(hash_str(s));
}
static std::string format(const Ids &i, size_t n, int &e) { Block b(n); NoiseProtocolId r = raw(i); e = noise_protocol_id_to_name((char *)b.p, n, &r); op(); if (!n) return ""; if (e) { CHECKK("name cleared", b.p[0] == 0, "the name is not cleared after %s", lb::err(e).c_str()); return ""; } const void *z = memchr(b.p, 0, n); CHECKK("terminated", z, "the name is not terminated"); return (const char *)b.p; }
static void product() {
    int pi = choose(pats().size(), "pattern"); shard(); std::set<std::string> seen;
    for (auto &pr : prefixes) for (auto &d : dhs) for (int hy = 0; hy < 4; hy++) for (auto &c : cips) for (auto &h : hashes) {
        Ids i; int v[6] = {pr.second, pats()[pi].second, d.second, c.second, h.second, hy ? dhs[hy - 1].second : 0}; memcpy(i.v, v, sizeof v);
        int e; std::string want = nameof(i), got = format(i, 256, e); CHECK(e == 0 && got == want, "\"%s\" instead of \"%s\" (%s)", got.c_str(), want.c_str(), lb::err(e).c_str()); CHECK(seen.insert(got).second, "two combinations are called %s", got.c_str());
        CHECK(got.size() < NOISE_MAX_PROTOCOL_NAME, "a name of %zu characters", got.size());
        probe(got);
        for (size_t n = 0; n < want.size() + 3; n++) { if (!(g().thorough || n < 3 || n + 4 > want.size() || (hy + n + pi) % 5 == 0)) continue; std::string s = format(i, n, e); if (n > want.size()) CHECKK("fits", e == 0 && s == want, "a buffer of %zu bytes for %s: %s", n, want.c_str(), lb::err(e).c_str()); else CHECKK("too small", e == NOISE_ERROR_INVALID_LENGTH, "a buffer of %zu bytes for %s: %s", n, want.c_str(), lb::err(e).c_str()); }
        // each component replaced by something that is not one
        for (int k = 0; k < 6; k++) for (int x : {0, 1, -1, 0x7fff, v[k] + 0x100, v[k] - 0x100, v[k] | 0x10000, v[k] + 90, v[k] & 0xff, v[k] & 0xff00, NOISE_SIGN_ED25519, v[(k + 1) % 5], INT32_MIN, INT32_MAX}) {
            Ids j = i; j.v[k] = x; bool ok = known(j); std::string s = format(j, 256, e); if (ok) CHECK(e == 0 && s == nameof(j), "identifiers of %s: %s", nameof(j).c_str(), lb::err(e).c_str()); else CHECKK("unknown component", e == NOISE_ERROR_UNKNOWN_ID, "component %d = %d of %s returned %s", k, x, want.c_str(), lb::err(e).c_str());
        }
        { NoiseProtocolId r = raw(i); for (size_t k = 0; k < sizeof r.reserved / sizeof r.reserved[0]; k++) { NoiseProtocolId q = r; q.reserved[k] = 1; Block b(256); e = noise_protocol_id_to_name((char *)b.p, 256, &q); CHECKK("reserved", e == NOISE_ERROR_UNKNOWN_ID && b.p[0] == 0, "a reserved identifier returned %s", lb::err(e).c_str()); } }
    }
    outcome("identifier product"); if (pi % 10 == 0) sample("all names of pattern " + pats()[pi].first);
}
static void near_miss() {
    int pi = choose(pats().size(), "pattern"), c = choose(2 * 3 * 4 * 2, "rest"); shard();
    Ids i; int v[6] = {prefixes[c & 1].second, pats()[pi].second, dhs[(c >> 1) % 3].second, cips[(c / 6) & 1].second, hashes[(c / 3 + pi) % 4].second, (c / 12) % 4 ? dhs[(c / 12) % 4 - 1].second : 0}; memcpy(i.v, v, sizeof v);
    std::string s = nameof(i); bool full = g().thorough || (pi + c) % 8 == 0;
    for (size_t k = 0; k <= s.size(); k++) {
        if (k < s.size()) { std::string t = s; t.erase(k, 1); probe(t); probe(s.substr(0, k)); probe(s.substr(k)); t = s; t[k] ^= 0x20; probe(t); t[k] = 0; probe(t); t = s; t[k]++; probe(t); if (k) { t = s; std::swap(t[k], t[k - 1]); probe(t); } t = s; t.insert(k, 1, t[k]); probe(t); }
        for (char x : std::string("_+\0 a1h", 7)) { std::string t = s; t.insert(k, 1, x); probe(t); if (k < s.size()) { t = s; t[k] = x; probe(t); } }
        if (full) for (int x = 0; x < 256; x++) { std::string t = s; t.insert(k, 1, (char)x); probe(t); if (k < s.size()) { t = s; t[k] = (char)x; probe(t); } }
    }
    std::vector<std::string> f(1); for (char x : s) if (x == '_') f.push_back(""); else f.back() += x;
    auto join = [](const std::vector<std::string> &w, const char *sep = "_") { std::string r; for (size_t k = 0; k < w.size(); k++) r += (k ? sep : "") + w[k]; return r; };
    for (size_t a = 0; a < 5; a++) { auto t = f; t.erase(t.begin() + a); probe(join(t)); t = f; t[a] = ""; probe(join(t)); t = f; t.insert(t.begin() + a, ""); probe(join(t)); t = f; t.insert(t.begin() + a, f[a]); probe(join(t)); t = f; t[a] += f[a]; probe(join(t)); for (size_t b = 0; b < 5; b++) if (a != b) { t = f; std::swap(t[a], t[b]); probe(join(t)); t = f; t[a] = f[b]; probe(join(t)); }
        for (auto &n : all()) { t = f; t[a] = n.first; probe(join(t)); t[a] = f[a] + "+" + n.first; probe(join(t)); t[a] = n.first + "+" + f[a]; probe(join(t)); } t = f; t[a] = "+"; probe(join(t)); t[a] = "+" + f[a]; probe(join(t)); t[a] = f[a] + "+"; probe(join(t)); t[a] = f[a] + "+" + dhs[0].first + "+" + dhs[1].first; probe(join(t)); t[a] = std::string(300, 'N'); probe(join(t)); }
    probe(s + s); probe(s + "_"); probe("_" + s); probe(s + std::string(1, 0)); probe(join(f, "__")); probe(join(f, "+")); probe(s + std::string(1000, 'x')); probe(std::string(1000, '_')); probe("");
    outcome("near misses");
}
static void single() {       // noise_name_to_id and noise_id_to_name
    static const int cats[] = {0, NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY, NOISE_DH_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_PREFIX_CATEGORY, NOISE_SIGN_CATEGORY};
    int c = choose(7 + 4, "category"); int what = choose(2, "direction"); shard();
    int cat = c < 7 ? cats[c] : (const int[]){NOISE_ID('E', 0), NOISE_ID('A', 0), 0xff00, NOISE_ID('Z', 0)}[c - 7];
    auto expect = [&](const std::string &s) { int id = lookup(all(), s); return id && (!cat || (id & 0xff00) == cat) ? id : 0; };
    if (what == 0) {
        auto p1 = [&](const std::string &s) { Block b(B(s)); int id = noise_name_to_id(cat, (const char *)b.p, b.n); op(); CHECKK("name to id", id == expect(s), "\"%s\" in category 0x%x is 0x%x, not 0x%x", s.c_str(), cat, id, expect(s)); distinct(hash_str(s, c)); };
        for (auto &n : all()) { const std::string &s = n.first; p1(s); for (size_t k = 0; k <= s.size(); k++) { p1(s.substr(0, k)); p1(s.substr(k)); for (int x = 0; x < 256; x++) { std::string t = s; t.insert(k, 1, (char)x); p1(t); if (k < s.size()) { t = s; t[k] = (char)x; p1(t); } } } for (auto &m : all()) { p1(s + m.first); p1(s + "+" + m.first); p1(s + "_" + m.first); } p1(s + std::string(500, 'x')); }
        std::string ab = "NXKI1245hfsod89Esblake"; for (char x : ab) for (char y : ab) for (char z : ab) { p1({x}); p1({x, y}); p1({x, y, z}); }
        CHECK(noise_name_to_id(cat, 0, 0) == 0 && noise_name_to_id(cat, 0, 5) == 0, "a null name has an identifier");
    } else {
        auto p2 = [&](int id) { const char *n = noise_id_to_name(cat, id); op(); std::string want; for (auto &x : all()) if (x.second == id && (!cat || (id & 0xff00) == cat)) want = x.first; CHECKK("id to name", want.empty() ? n == nullptr : n && want == n, "identifier 0x%x in category 0x%x is called %s", id, cat, n ? n : "nothing"); distinct(mix(c, (uint32_t)id)); };
        for (int id = -70000; id < 200000; id++) p2(id);
        for (int sh = 16; sh < 32; sh++) for (auto &x : all()) { p2(x.second | (int)(1u << sh)); p2((int)((unsigned)x.second << (sh - 16))); } p2(INT32_MIN); p2(INT32_MAX);
        std::set<std::string> seen; for (auto &x : all()) CHECK(seen.insert(x.first).second, "table");
    }
    outcome("single names");
}
static void objects() {      // objects by name and by identifier
    int pi = choose(pats().size(), "pattern"), rest = choose(2 * 3 * 4, "prefix, DH, hybrid"); shard();
    for (auto &c : cips) for (auto &h : hashes) for (int role : {NOISE_ROLE_INITIATOR, NOISE_ROLE_RESPONDER}) {
        Ids i; int v[6] = {prefixes[rest & 1].second, pats()[pi].second, dhs[(rest >> 1) % 3].second, c.second, h.second, rest / 6 ? dhs[rest / 6 - 1].second : 0}; memcpy(i.v, v, sizeof v);
        std::string s = nameof(i); NoiseProtocolId r = raw(i), q; lb::HSt a, b; int ea = noise_handshakestate_new_by_name(a.out(), s.c_str(), role), eb = noise_handshakestate_new_by_id(b.out(), &r, role); op(2);
        CHECK(ea == eb, "%s: %s by name and %s by identifiers", s.c_str(), lb::err(ea).c_str(), lb::err(eb).c_str()); CHECK((ea == 0) == (a.p != 0) && (eb == 0) == (b.p != 0), "%s: object and error disagree", s.c_str());
        rn::Proto m; m.pattern = v[1]; m.dh = v[2]; m.cipher = v[3]; m.hash = v[4]; m.hybrid = v[5]; m.psk = v[0] == NOISE_PREFIX_PSK; if (rn::supported(m) && !(m.hybrid && m.hybrid == m.dh)) CHECK(ea == 0 || m.hybrid == NOISE_DH_CURVE25519 || m.hybrid == NOISE_DH_CURVE448 || m.dh == NOISE_DH_NEWHOPE, "%s is supported but creating it returned %s", s.c_str(), lb::err(ea).c_str());
        if (ea == 0) {
            for (auto *x : {&a, &b}) { int e = noise_handshakestate_get_protocol_id(*x, &q); CHECK(e == 0 && ids(q) == i, "%s: other identifiers are reported", s.c_str()); CHECK(noise_handshakestate_get_role(*x) == role, "role"); }
            for (int k = 0; k < 4; k++) { auto f = k == 0 ? noise_handshakestate_needs_pre_shared_key : k == 1 ? noise_handshakestate_needs_local_keypair : k == 2 ? noise_handshakestate_needs_remote_public_key : noise_handshakestate_has_local_keypair; CHECK(f(a) == f(b), "%s: the two objects need different keys", s.c_str()); }
            CHECK(!!noise_handshakestate_needs_pre_shared_key(a) == m.psk, "%s: PSK need", s.c_str());
            outcome("created");
        } else outcome("not created: " + lb::err(ea));
        lb::SySt sa, sb; ea = noise_symmetricstate_new_by_name(sa.out(), s.c_str()); eb = noise_symmetricstate_new_by_id(sb.out(), &r); CHECK(ea == eb && (ea == 0) == (sa.p != 0), "symmetric state of %s: %s and %s", s.c_str(), lb::err(ea).c_str(), lb::err(eb).c_str()); if (ea == 0) for (auto *x : {&sa, &sb}) { ea = noise_symmetricstate_get_protocol_id(*x, &q); CHECK(ea == 0 && ids(q) == i, "%s: other identifiers are reported", s.c_str()); }
        distinct(hash_str(s, role));
    }
    // bad names and identifiers create nothing
    if (rest == 0) for (auto &s : {std::string(pats()[pi].first), "Noise_" + pats()[pi].first, "Noise_" + pats()[pi].first + "_25519_ChaChaPoly_BLAKE2s_", "Noise_" + pats()[pi].first + "_25519_ChaChaPoly_", "noise_" + pats()[pi].first + "_25519_ChaChaPoly_BLAKE2s", "Noise_" + pats()[pi].first + "_25519_ChaChaPoly_BLAKE2s ", "Noise_" + pats()[pi].first + "x_25519_ChaChaPoly_BLAKE2s", "Noise_" + pats()[pi].first + "_25519+_ChaChaPoly_BLAKE2s", "Noise_" + pats()[pi].first + "_Ed25519_ChaChaPoly_BLAKE2s", std::string()}) {
        lb::HSt a; lb::SySt y; int e = noise_handshakestate_new_by_name(a.out(), s.c_str(), NOISE_ROLE_INITIATOR); CHECK(e == NOISE_ERROR_UNKNOWN_NAME && !a.p, "\"%s\" returned %s", s.c_str(), lb::err(e).c_str()); e = noise_symmetricstate_new_by_name(y.out(), s.c_str()); CHECK(e == NOISE_ERROR_UNKNOWN_NAME && !y.p, "\"%s\" returned %s", s.c_str(), lb::err(e).c_str());
    }
}
template <class T, int (*F)(T *)> static void simple_objects(const std::vector<N> &t, int (*by_name)(T **, const char *), int (*by_id)(T **, int), int (*get)(const T *), const char *what) {
    for (auto &x : all()) for (int var = 0; var < 5; var++) {
        std::string s = var == 0 ? x.first : var == 1 ? x.first + "x" : var == 2 ? x.first.substr(0, x.first.size() - 1) : var == 3 ? x.first + "_" : "x" + x.first; int want = lookup(t, s);
        lb::Own<T, F> a; int e = by_name(a.out(), s.c_str()); op(); CHECK(want ? e == 0 && a.p && get(a.p) == want : e == NOISE_ERROR_UNKNOWN_NAME && !a.p, "%s by the name \"%s\": %s", what, s.c_str(), lb::err(e).c_str()); distinct(hash_str(s, what[0]));
    }
    for (int id = -300; id < 0x6000; id++) { bool want = false; for (auto &x : t) want |= x.second == id; lb::Own<T, F> a; int e = by_id(a.out(), id); op(); CHECK(want ? e == 0 && a.p && get(a.p) == id : e == NOISE_ERROR_UNKNOWN_ID && !a.p, "%s by identifier 0x%x: %s", what, id, lb::err(e).c_str()); distinct(mix(id + 1000, what[0])); }
    for (auto &x : t) for (int id : {x.second | 0x10000, x.second + 0x100, -x.second}) { lb::Own<T, F> a; int e = by_id(a.out(), id); CHECK(e == NOISE_ERROR_UNKNOWN_ID && !a.p, "%s by identifier 0x%x: %s", what, id, lb::err(e).c_str()); }
    outcome(fmt("%s objects", what));
}
static void body() {
    switch (choose(5, "part")) {
    case 0: product(); break; case 1: near_miss(); break; case 2: single(); break; case 3: objects(); break;
    default: switch (int w = choose(4, "object")) {
        case 0: shard(); simple_objects<NoiseCipherState, noise_cipherstate_free>(cips, noise_cipherstate_new_by_name, noise_cipherstate_new_by_id, noise_cipherstate_get_cipher_id, "cipher"); break;
        case 1: shard(); simple_objects<NoiseHashState, noise_hashstate_free>(hashes, noise_hashstate_new_by_name, noise_hashstate_new_by_id, noise_hashstate_get_hash_id, "hash"); break;
        case 2: shard(); simple_objects<NoiseDHState, noise_dhstate_free>(dhs, noise_dhstate_new_by_name, noise_dhstate_new_by_id, noise_dhstate_get_dh_id, "DH"); break;
        default: (void)w; shard(); simple_objects<NoiseSignState, noise_signstate_free>(signs, noise_signstate_new_by_name, noise_signstate_new_by_id, noise_signstate_get_sign_id, "signature"); }
    }
}
VH_MAIN2(body, rng::install)
