// C24: every schedule of sends and adversarial deliveries up to a bound over channels made by real handshakes.
// The channel model is two counters per direction: what was sent and how much of it was accepted.
#include "lib.hpp"
#include "rng.hpp"
using namespace vh;

struct Channel { lb::CSt c[2][2]; };      // [party][0: sends, 1: receives]

static void open_channel(Channel &ch, const rn::Proto &p, int serial) {
    rn::HS mi, mr; { auto m = lb::model_pair(p, B("c24"), 0); mi = m.i; mr = m.r; }
    lb::HSt h[2]; int e;
    rng::reset(1000 + (uint64_t)serial);
    for (int s = 0; s < 2; s++) {
        e = lb::create(h[s], p, s == 0); CHECK(e == 0, "create: %s", lb::err(e).c_str());
        e = lb::configure(h[s], s ? mr : mi, false); CHECK(e == 0, "configure: %s", lb::err(e).c_str());
        e = noise_handshakestate_start(h[s]); CHECK(e == 0, "start: %s", lb::err(e).c_str());
    }
    for (int m = 0; m < 20 && noise_handshakestate_get_action(h[0]) != NOISE_ACTION_SPLIT; m++) {
        int w = noise_handshakestate_get_action(h[0]) == NOISE_ACTION_WRITE_MESSAGE ? 0 : 1; bytes msg, pl;
        e = lb::write(h[w], bytes(), msg, 5000); CHECK(e == 0, "handshake write: %s", lb::err(e).c_str());
        e = lb::read(h[1 - w], msg, pl, 100); CHECK(e == 0, "handshake read: %s", lb::err(e).c_str()); op(2);
    }
    for (int s = 0; s < 2; s++) { e = noise_handshakestate_split(h[s], ch.c[s][0].out(), ch.c[s][1].out()); CHECK(e == 0 && ch.c[s][0] && ch.c[s][1], "split: %s", lb::err(e).c_str()); }
}

static const size_t SIZES[] = {5, 0, 17, 64, 1, 16, 33};
static const size_t LARGE[] = {65519, 256, 65518, 0, 65504, 65519, 32768};
enum { A_FLIP0, A_FLIPMAC, A_SHORT, A_LONG, A_SWAPMAC, A_NONE };
static const char *alt[] = {"with its first bit changed", "with the last MAC bit changed", "without its last byte", "with a byte added", "with the MAC of the other direction", "unchanged"};

struct Msg { bytes pt, ct; };
struct Sched {
    Channel &ch, &foreign; bool oneway, alterations, large = false;
    uint64_t total[2] = {0, 0};                       // accepted so far over the whole channel, per direction
    Msg stale[2], strange[2];
    std::vector<Msg> sent[2]; size_t got[2];          // this schedule
    std::vector<int> c, w; size_t pos, fixed = 2; std::string story; std::string protocol;
    Sched(Channel &a, Channel &b) : ch(a), foreign(b) { got[0] = got[1] = 0; }
    int next(int n) { if (pos == c.size()) { c.push_back(0); w.push_back(n); } if (w[pos] != n) { printf("@error inner divergence\n"); fflush(stdout); _exit(3); } return c[pos++]; }
    std::string where() { return protocol + ", after " + std::to_string(total[0]) + "/" + std::to_string(total[1]) + " accepted messages:" + story; }
    void send(int d) {
        Msg m; m.pt = pattern((large ? LARGE : SIZES)[(sent[d].size() * 3 + d) % 7], (uint8_t)(sent[d].size() * 40 + d * 7 + 1));
        int e = lb::encrypt(ch.c[d][0], m.pt, m.ct); op();
        CHECKK("sending failed", e == 0, "%s: encrypt returned %s", where().c_str(), lb::err(e).c_str());
        for (int o = 0; o < 2; o++) for (size_t k = 0; k < sent[o].size(); k++) CHECKK("two messages have the same ciphertext", m.ct != sent[o][k].ct, "%s", where().c_str());
        sent[d].push_back(m);
    }
    // deliver `m` (belonging to direction d, number k of this schedule; k < 0: it was never to be accepted) to party `to`
    void deliver(int to, int d, long k, const bytes &ct, bool altered) {
        int in = 1 - to;                              // direction that `to` receives: from the other party
        bool good = !altered && k >= 0 && d == in && (size_t)k == got[in];
        bytes pt; int e = lb::decrypt(ch.c[to][1], ct, pt); op(); g().checks++;
        if (good) {
            CHECKK("the next message was not accepted", e == 0, "%s: decrypt returned %s", where().c_str(), lb::err(e).c_str());
            CHECKK("a wrong plaintext was delivered", pt == sent[d][k].pt, "%s: %s instead of %s", where().c_str(), hex(pt).c_str(), hex(sent[d][k].pt).c_str());
            got[in]++;
        } else {
            CHECKK("a message that is not the next one was accepted", e != 0, "%s: decrypt returned a plaintext of %zu bytes", where().c_str(), pt.size());
            int want = ct.size() < 16 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE;
            CHECKK("wrong error for a rejected message", e == want || (ct.size() < 16 && e == NOISE_ERROR_MAC_FAILURE), "%s: decrypt returned %s", where().c_str(), lb::err(e).c_str());
        }
    }
    struct O { int kind, to, d; long k; int a; };             // kind 0 send, 1 deliver, 2 old message, 3 message of another session, 4 a send that cannot work, 5 a delivery that is no message
    std::vector<O> make_menu(size_t s0, size_t s1, size_t g0, size_t g1) const {
        std::vector<O> menu; size_t ns[2] = {s0, s1}, ng[2] = {g0, g1}; int dirs = oneway ? 1 : 2;
        for (int d = 0; d < dirs; d++) menu.push_back({0, 0, d, 0, 0});
        for (int to = 0; to < 2; to++) for (int d = 0; d < dirs; d++) {
            for (size_t k = 0; k < ns[d]; k++) menu.push_back({1, to, d, (long)k, A_NONE});
            if (!alterations) continue;
            if (to == 1 - d && ng[d] < ns[d]) for (int a = 0; a < A_NONE; a++) { if (a == A_SWAPMAC && !ns[1 - d]) continue; menu.push_back({1, to, d, (long)ng[d], a}); }
            menu.push_back({2, to, d, -1, A_NONE}); menu.push_back({3, to, d, -1, A_NONE});
            if (large && to == 1 - d) for (int a = 0; a < 3; a++) { menu.push_back({4, to, d, -1, a}); menu.push_back({5, to, d, -1, a}); }
        }
        return menu;
    }
    // the first message of a channel, so that there always is an old one
    void prime() {
        for (int d = 0; d < (oneway ? 1 : 2); d++) { sent[d].clear(); got[d] = 0; send(d); story = " first message;"; deliver(1 - d, d, 0, sent[d][0].ct, false); total[d] = 1; stale[d] = sent[d][0]; sent[d].clear(); got[d] = 0; }
    }
    void run(int depth) {
        pos = 0; story.clear();
        for (int d = 0; d < 2; d++) {
            sent[d].clear(); got[d] = 0;
            // a message of another session of the same parties, under the sequence number expected next
            if (noise_cipherstate_set_nonce(foreign.c[d][0], total[d]) == 0) { strange[d].pt = pattern(9, 200); lb::encrypt(foreign.c[d][0], strange[d].pt, strange[d].ct); }
        }
        int dirs = oneway ? 1 : 2;
        for (int i = 0; i < depth; i++) {
            std::vector<O> menu = make_menu(sent[0].size(), sent[1].size(), got[0], got[1]);
            const O o = menu[next((int)menu.size())];
            if (o.kind == 0) { story += fmt(" %c sends;", "IR"[o.d]); send(o.d); continue; }
            if (o.kind == 2) { story += fmt(" an old message of %c to %c;", "IR"[o.d], "IR"[o.to]); deliver(o.to, o.d, -1, stale[o.d].ct, false); continue; }
            if (o.kind == 3) { story += fmt(" a message of %c in another session to %c;", "IR"[o.d], "IR"[o.to]); deliver(o.to, o.d, -1, strange[o.d].ct, false); continue; }
            if (o.kind == 4) {
                static const size_t n[] = {65520, 65535, 5}, room[] = {70000, 65535, 20}; story += fmt(" %c cannot send %zu bytes with room for %zu;", "IR"[o.d], n[o.a], room[o.a]);
                bytes pt = pattern(n[o.a], 3), ct; int e = lb::encrypt(ch.c[o.d][0], pt, ct, nullptr, room[o.a]); op();
                CHECKK("an impossible send did not fail as documented", e == NOISE_ERROR_INVALID_LENGTH, "%s: encrypt returned %s", where().c_str(), lb::err(e).c_str());
                continue;
            }
            if (o.kind == 5) {
                static const size_t n[] = {0, 15, 65536}; story += fmt(" %zu bytes to %c;", n[o.a], "IR"[o.to]); bytes pt; int e = lb::decrypt(ch.c[o.to][1], pattern(n[o.a], 5), pt); op();
                CHECKK("a block of impossible size was not refused", e == NOISE_ERROR_INVALID_LENGTH, "%s: decrypt returned %s", where().c_str(), lb::err(e).c_str());
                continue;
            }
            bytes ct = sent[o.d][o.k].ct; story += fmt(" message %ld of %c %s to %c;", o.k, "IR"[o.d], alt[o.a], "IR"[o.to]);
            if (o.a == A_FLIP0) ct[0] ^= 1; else if (o.a == A_FLIPMAC) ct[ct.size() - 1] ^= 0x80; else if (o.a == A_SHORT) ct.pop_back(); else if (o.a == A_LONG) { if (ct.size() < 65535) ct.push_back(0); else ct[20] ^= 4; }
            else if (o.a == A_SWAPMAC) { const bytes &x = sent[1 - o.d].back().ct; ct.replace(ct.size() - 16, 16, x.substr(x.size() - 16)); }
            deliver(o.to, o.d, o.k, ct, o.a != A_NONE);
        }
        // the network finally behaves: everything outstanding arrives in order
        story += " the rest in order;";
        for (int d = 0; d < dirs; d++) {
            while (got[d] < sent[d].size()) deliver(1 - d, d, (long)got[d], sent[d][got[d]].ct, false);
            total[d] += got[d];
            if (got[d]) stale[d] = sent[d].back();
        }
        uint64_t h = 7; for (int x : c) h = mix(h, (uint64_t)x); distinct(hash_str(protocol, h)); state(mix(mix(total[0] & 63, total[1] & 63), mix(sent[0].size() * 8 + got[0], sent[1].size())));
        outcome(sent[0].size() + sent[1].size() ? "schedules with traffic" : "schedules without messages");
    }
    bool advance() {
        while (c.size() > fixed && c.back() + 1 >= w.back()) { c.pop_back(); w.pop_back(); }
        if (c.size() <= fixed) return false;
        c.back()++; return true;
    }
};

static std::vector<rn::Proto> protos() {
    std::vector<rn::Proto> v; auto core = lb::core_protos();
    auto add = [&](const char *pat, int psk, int ci, int ha) { for (auto p : core) if (p.psk == psk && std::string(rn::find(p.pattern)->name) == pat) { p.cipher = ci; p.hash = ha; v.push_back(p); } };
    add("NN", 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2s); add("XX", 0, NOISE_CIPHER_AESGCM, NOISE_HASH_SHA256); add("IK", 1, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_SHA512); add("N", 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2b);
    add("K", 1, NOISE_CIPHER_AESGCM, NOISE_HASH_BLAKE2s); add("X", 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_SHA256); add("KK", 0, NOISE_CIPHER_AESGCM, NOISE_HASH_SHA512); add("XXhfs", 0, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_SHA256); add("NK", 0, NOISE_CIPHER_AESGCM, NOISE_HASH_BLAKE2b);
    return v;
}

static void body() {
    static auto all = protos();
    bool small = g().opts.count("small");
    int which = choose(small ? 3 : (int)all.size(), "protocol"); int kind = choose(small ? 2 : which < 3 ? 4 : 3, "exploration"); bool deep = kind == 1, large = kind == 2;
    if (kind == 3) {                          // a long conversation, with an altered message now and then
        shard(); Channel ch; open_channel(ch, all[which], 3); const std::string nm = all[which].name();
        for (int i = 0; i < (g().thorough ? 200000 : 66000); i++) for (int d = 0; d < 2; d++) {
            bytes pt = pattern((size_t)(i % 7), (uint8_t)(i + d)), ct, o; int e = lb::encrypt(ch.c[d][0], pt, ct); CHECKK("sending failed", e == 0, "%s, message %d: encrypt returned %s", nm.c_str(), i, lb::err(e).c_str());
            if (i % 500 == 3) { bytes bad = ct; bad[(size_t)i % bad.size()] ^= 1; e = lb::decrypt(ch.c[1 - d][1], bad, o); CHECKK("a message that is not the next one was accepted", e == NOISE_ERROR_MAC_FAILURE, "%s, message %d altered: %s", nm.c_str(), i, lb::err(e).c_str()); }
            e = lb::decrypt(ch.c[1 - d][1], ct, o); CHECKK("the next message was not accepted", e == 0 && o == pt, "%s, message %d of %c: decrypt returned %s", nm.c_str(), i, "IR"[d], lb::err(e).c_str()); op(2); g().ticks = 0;
        }
        outcome("long conversations"); return;
    }
    // the first two decisions belong to the explorer, so that the work can be divided; the rest is enumerated on one channel
    const rn::Proto &p = all[which];
    Channel a, b; Sched s(a, b); s.oneway = rn::find(p.pattern)->oneway; s.protocol = p.name(); s.alterations = !deep; s.large = large;
    size_t n[2] = {0, 0}, k[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
        auto menu = s.make_menu(n[0], n[1], k[0], k[1]); int x = choose((int)menu.size(), "decision"); s.c.push_back(x); s.w.push_back((int)menu.size());
        auto &o = menu[x]; if (o.kind == 0) n[o.d]++; else if (o.kind == 1 && o.a == A_NONE && o.to == 1 - o.d && (size_t)o.k == k[o.d]) k[o.d]++;
    }
    shard();
    open_channel(a, p, 1); open_channel(b, p, 2); s.prime();
    int depth = deep ? (g().thorough ? 9 : 7) : (g().thorough ? (which < 4 ? 6 : 5) : which < 2 && !small ? 5 : 4);
    if (large) depth = g().thorough && which == 0 ? 4 : g().thorough || which < 4 ? 3 : 2;
    if (s.oneway) depth++;
    if (small) depth--;
    do { s.run(depth); g().ticks = 0; } while (s.advance());
    outcome(fmt("channels: %s", p.name().c_str()));
}
static void setup() { rng::install(); }
VH_MAIN2(body, setup)
