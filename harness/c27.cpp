// C27: the echo programs' transport under a scripted socket layer, their identifiers and their key files.
#include "common/vh.hpp"
#include "common/rng.hpp"
#include "common/lib.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <csetjmp>
#include <cerrno>
#include <getopt.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/wait.h>
extern "C" {
#include "echo-common.h"
FILE *vh_out, *vh_err, *vh_in;
int vh_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(vh_out, f, ap); va_end(ap); return r; }
int srv_main(int, char **); int cli_main(int, char **); int gen_main(int, char **);
}
using namespace vh;
static FILE *devnull;

// ---------------------------------------------------------------- scripted sockets
static const int FD = 50000;
enum Mode { OFF, RECV, SEND, SESSION };
struct Net {
    Mode mode = OFF; int budget = 0; std::string trouble;
    bytes stream; size_t at = 0; bool ended = false;             // RECV
    bytes sent; bool dead = false;                               // SEND
    long calls = 0; uint8_t *lo = 0, *hi = 0; long after_dead = 0;
    void bad(const std::string &s) { if (trouble.empty()) trouble = s; }
};
static Net net;
static const int BUDGET_Q = 3, BUDGET_T = 5;

static ssize_t one_recv(void *buf, size_t n) {
    net.calls++; op();
    if (net.dead) { net.after_dead++; errno = ECONNRESET; return -1; }
    if (net.lo && ((uint8_t *)buf < net.lo || (uint8_t *)buf + n > net.hi)) { net.bad(fmt("recv is given %zu bytes at offset %zd of a buffer of %zu", n, (uint8_t *)buf - net.lo, (size_t)(net.hi - net.lo))); errno = EFAULT; net.dead = true; return -1; }
    if (n == 0) return 0;
    size_t have = net.stream.size() - net.at, k = std::min(n, have);
    int what = 0; if (net.budget > 0) { what = choose(have ? 7 : 4, "recv"); if (what) net.budget--; }
    switch (what) {
    case 0: break;
    case 1: errno = EINTR; return -1;
    case 2: errno = EAGAIN; return -1;
    case 3: net.dead = true; errno = ECONNRESET; return -1;
    case 4: k = 1; break;
    case 5: k = k > 2 ? k - 1 : 1; break;
    case 6: net.stream.resize(net.at); net.ended = true; return 0;      // the peer closes here
    }
    if (!have) { net.ended = true; return 0; }
    memcpy(buf, net.stream.data() + net.at, k); net.at += k; return (ssize_t)k;
}
static ssize_t one_send(const void *buf, size_t n, int flags) {
    net.calls++; op();
    if (net.dead) { net.after_dead++; errno = EPIPE; return -1; }
    if (!(flags & MSG_NOSIGNAL)) net.bad("send without MSG_NOSIGNAL");
    if (net.lo && ((uint8_t *)buf < net.lo || (uint8_t *)buf + n > net.hi)) { net.bad(fmt("send is given %zu bytes at offset %zd of a packet of %zu", n, (uint8_t *)buf - net.lo, (size_t)(net.hi - net.lo))); net.dead = true; errno = EFAULT; return -1; }
    size_t k = n; int what = 0; if (n && net.budget > 0) { what = choose(8, "send"); if (what) net.budget--; }
    switch (what) {
    case 1: errno = EINTR; return -1;
    case 2: errno = EAGAIN; return -1;
    case 3: net.dead = true; errno = EPIPE; return -1;
    case 4: net.dead = true; errno = ECONNRESET; return -1;
    case 5: net.dead = true; errno = ENOBUFS; return -1;
    case 6: k = 1; break;
    case 7: k = n > 2 ? n - 1 : 1; break;
    }
    net.sent.append((const uint8_t *)buf, k); return (ssize_t)k;
}

// ---------------------------------------------------------------- two programs and the network between them
struct Prog { int who = 0, status = -1, code = 0, conn = -1; bool done = false, exited = false, peer_closed = false; jmp_buf out; std::set<int> fds; bytes rx; };
static Prog prog[2];
static std::mutex mu; static std::condition_variable cv; static int turn; static bool stuck;
static thread_local Prog *self = nullptr;
static int next_fd, script_connect, script_accept;
static void wait_turn(int who) { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return turn == who; }); }
static void pass_turn(int who) { std::lock_guard<std::mutex> l(mu); turn = 1 - who; cv.notify_all(); }

static ssize_t s_recv(void *buf, size_t n) {
    op(); Prog &me = *self, &peer = prog[1 - me.who]; if (n == 0) return 0;
    auto ready = [&] { return net.dead || !me.rx.empty() || me.peer_closed || peer.done || stuck; };
    // nothing to read: the other program runs until it waits as well or ends
    if (!ready()) { pass_turn(me.who); wait_turn(me.who); if (!ready()) { stuck = true; } }
    if (net.dead) { errno = ECONNRESET; return -1; }
    size_t k = std::min(n, me.rx.size()); int what = 0; if (!k) return 0;
    if (net.budget > 0) { what = choose(k > 1 ? 6 : 4, "recv"); if (what) net.budget--; }
    if (what == 1) { errno = EINTR; return -1; } if (what == 2) { errno = EAGAIN; return -1; } if (what == 3) { net.dead = true; errno = ECONNRESET; return -1; }
    if (what == 4) k = 1; if (what == 5) k--;
    memcpy(buf, me.rx.data(), k); me.rx.erase(0, k); return (ssize_t)k;
}
static ssize_t s_send(const void *buf, size_t n, int flags) {
    op(); Prog &me = *self, &peer = prog[1 - me.who]; if (!(flags & MSG_NOSIGNAL)) net.bad("send without MSG_NOSIGNAL");
    if (net.dead || me.peer_closed || peer.done) { errno = EPIPE; return -1; }
    size_t k = n; int what = 0; if (net.budget > 0 && n) { what = choose(n > 1 ? 6 : 4, "send"); if (what) net.budget--; }
    if (what == 1) { errno = EINTR; return -1; } if (what == 2) { errno = EAGAIN; return -1; } if (what == 3) { net.dead = true; errno = ECONNRESET; return -1; }
    if (what == 4) k = 1; if (what == 5) k--;
    peer.rx.append((const uint8_t *)buf, k); return (ssize_t)k;
}
extern "C" {
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int); int __real_close(int); int __real_fork(); void __real_exit(int) __attribute__((noreturn));
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { (void)f; (void)fd; if (net.mode == RECV) return one_recv(b, n); if (net.mode == SESSION && self) return s_recv(b, n); errno = EBADF; return -1; }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { (void)fd; if (net.mode == SEND) return one_send(b, n, f); if (net.mode == SESSION && self) return s_send(b, n, f); errno = EBADF; return -1; }
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd < FD ? __real_read(fd, b, n) : __wrap_recv(fd, b, n, 0); }
int __wrap_close(int fd) {
    if (fd < FD) return __real_close(fd);
    if (self) { if (!self->fds.erase(fd)) net.bad("a socket is closed twice"); if (fd == self->conn) prog[1 - self->who].peer_closed = true; }
    return 0;
}
int __wrap_socket(int, int, int) { int fd = ++next_fd; if (self) self->fds.insert(fd); return fd; }
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **r) {
    static struct sockaddr_in a; static struct sockaddr_in6 b; static struct addrinfo v[2]; a.sin_family = AF_INET; b.sin6_family = AF_INET6;
    memset(v, 0, sizeof v); v[0].ai_family = AF_INET; v[0].ai_addr = (sockaddr *)&a; v[0].ai_addrlen = sizeof a; v[0].ai_next = &v[1]; v[1].ai_family = AF_INET6; v[1].ai_addr = (sockaddr *)&b; v[1].ai_addrlen = sizeof b;
    v[0].ai_socktype = v[1].ai_socktype = SOCK_STREAM; *r = v; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *) {}
int __wrap_connect(int fd, const struct sockaddr *, socklen_t) {
    if (script_connect-- > 0) { errno = ECONNREFUSED; return -1; }
    if (self) self->conn = fd; return 0;
}
int __wrap_bind(int, const struct sockaddr *, socklen_t) { return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_poll(struct pollfd *p, nfds_t n, int) { if (script_accept == 1) { script_accept = 0; errno = EINTR; return -1; } for (nfds_t i = 0; i < n; i++) p[i].revents = i == 0 ? POLLIN : 0; return 1; }
int __wrap_accept(int, struct sockaddr *, socklen_t *) { if (script_accept == 2) { script_accept = 0; errno = EINTR; return -1; } int fd = ++next_fd; self->fds.insert(fd); self->conn = fd; return fd; }
pid_t __wrap_fork() { if (script_accept == 3) { script_accept = 0; self->conn = -1; return 4711; } return 0; }     // 3: the caller goes on as the parent of another connection's process
pid_t __wrap_waitpid(pid_t, int *, int) { errno = ECHILD; return -1; }
void __wrap_perror(const char *) {}
int __wrap_noise_perror(const char *, int) { return 0; }
void __wrap_exit(int c) { if (self) { self->code = c; self->exited = true; longjmp(self->out, 1); } __real_exit(c); }
}

// ---------------------------------------------------------------- receiving and sending
static void receiving() {
    bool exact = flag("exact"); std::vector<size_t> lens; bool verbose = flag("verbose");
    static const size_t L[] = {1, 2, 3, 5, 300}; int n = 1 + choose(3, "frames"); for (int i = 0; i < n; i++) lens.push_back(pick(L, "length"));
    if (n == 3 && verbose) skip();
    static const int ROOM[] = {0, 1, 1000, -1, -2, -999, -1000}; int room = exact ? 0 : pick(ROOM, "room"); shard();
    net = Net(); net.mode = RECV; net.budget = (g().thorough ? BUDGET_T : BUDGET_Q) - (n == 3 ? 1 : 0); echo_verbose = verbose;
    std::vector<bytes> frames; for (int i = 0; i < n; i++) { bytes b = pattern(lens[i], 0x41 + 7 * i); frames.push_back(exact ? b : bytes(1, (uint8_t)(lens[i] >> 8)) + bytes(1, (uint8_t)lens[i]) + b); net.stream += frames.back(); }
    bytes all = net.stream; size_t pos = 0; bool lost = false;
    for (int i = 0; i < n && !lost; i++) {
        size_t want = frames[i].size(), cap = room <= -999 ? (size_t)(room + 1000) : want + room; Block b(cap, 0xA5); net.lo = b.p; net.hi = b.p + cap;
        size_t r = exact ? (size_t)echo_recv_exact(FD, b.p, want) : echo_recv(FD, b.p, cap);
        std::string ctx = fmt("%s %d of %d, %zu bytes into %zu: returned %zu after %zu of the stream's bytes", exact ? "bytes" : "frame", i + 1, n, want, cap, r, net.at - pos);
        CHECKK("socket misuse", net.trouble.empty(), "%s: %s", ctx.c_str(), net.trouble.c_str());
        CHECKK("used after loss", net.after_dead == 0, "%s: the socket was used after it had failed", ctx.c_str());
        size_t took = net.at - pos; bool whole = net.stream.size() - pos >= want && !net.dead;
        CHECK(took <= want, "%s: bytes of the next frame were taken", ctx.c_str());
        if (r) {
            CHECKK("frame accepted", cap >= want, "%s: accepted", ctx.c_str());
            CHECKK("whole frame", took == want && (exact || r == want) && b.get().substr(0, want) == frames[i], "%s: %s", ctx.c_str(), hex(b.get().substr(0, std::min(cap, want))).c_str());
            for (size_t k = want; k < cap; k++) CHECKK("written beyond the frame", b.p[k] == 0xA5, "%s: byte %zu", ctx.c_str(), k);
            pos += want; outcome("frame received");
        } else {
            lost = true;
            if (whole && cap >= want) CHECKK("frame lost", net.dead || net.ended, "%s: reported as lost", ctx.c_str());
            outcome(cap < want ? "frame larger than the buffer" : net.dead ? "connection failed" : "end of stream");
        }
        net.lo = net.hi = 0;
    }
    if (!lost) CHECK(net.at == all.size(), "the stream was not used up");
    distinct(hash_str(fmt("%d %d %d %s", exact, n, room, vec(g().choices).c_str()))); net.mode = OFF; echo_verbose = 0;
}
static void large() {       // the largest frames
    static const size_t L[] = {65533, 65534, 65535, 32768, 256, 255}; size_t len = pick(L, "length"); int d = choose(4, "room"); shard();
    net = Net(); net.mode = RECV; net.budget = 2; bytes body = pattern(len, 3); net.stream = bytes(1, (uint8_t)(len >> 8)) + bytes(1, (uint8_t)len) + body;
    size_t cap = len + d; Block b(cap, 0xA5); net.lo = b.p; net.hi = b.p + cap; size_t r = echo_recv(FD, b.p, cap); CHECKK("socket misuse", net.trouble.empty(), "%s", net.trouble.c_str());
    if (cap < len + 2) CHECK(r == 0, "a frame of %zu bytes into %zu returned %zu", len, cap, r);
    else if (r) CHECK(r == len + 2 && b.get().substr(2, len) == body, "a frame of %zu bytes returned %zu", len, r);
    else CHECK(net.dead || net.ended, "a frame of %zu bytes into %zu was lost", len, cap);
    net = Net(); net.mode = SEND; net.budget = 2; bytes f = pattern(len + 2, 9); Block p(f); net.lo = p.p; net.hi = p.p + p.n; int s = echo_send(FD, p.p, p.n); CHECKK("socket misuse", net.trouble.empty(), "%s", net.trouble.c_str());
    if (s) CHECK(net.sent == f, "sent %zu of %zu bytes", net.sent.size(), f.size()); else CHECK(net.dead, "%zu bytes: sending failed", f.size());
    net = Net(); distinct(hash_str(vec(g().choices))); outcome("large frames");
}
static void sending() {
    static const size_t L[] = {1, 2, 3, 5, 67}; int n = 1 + choose(3, "packets"); std::vector<size_t> lens; for (int i = 0; i < n; i++) lens.push_back(pick(L, "length")); bool verbose = flag("verbose"); if (n == 3 && verbose) skip(); shard();
    net = Net(); net.mode = SEND; net.budget = (g().thorough ? BUDGET_T : BUDGET_Q) - (n == 3 ? 1 : 0); echo_verbose = verbose; bytes expect;
    for (int i = 0; i < n; i++) {
        bytes f = pattern(lens[i], 0x31 + 9 * i); Block b(f); net.lo = b.p; net.hi = b.p + b.n; size_t before = net.sent.size(); int r = echo_send(FD, b.p, b.n);
        std::string ctx = fmt("packet %d of %d (%zu bytes): returned %d, %zu bytes sent", i + 1, n, lens[i], r, net.sent.size() - before);
        CHECKK("socket misuse", net.trouble.empty(), "%s: %s", ctx.c_str(), net.trouble.c_str()); CHECKK("used after loss", net.after_dead == 0, "%s: the socket was used after it had failed", ctx.c_str());
        CHECK(b.get() == f, "%s: the packet was changed", ctx.c_str());
        if (r) { expect += f; CHECKK("bytes sent", net.sent == expect, "%s: %s instead of %s", ctx.c_str(), hex(net.sent).c_str(), hex(expect).c_str()); CHECKK("success after a failure", !net.dead, "%s: success though the connection failed", ctx.c_str()); outcome("packet sent"); }
        else { CHECKK("sending failed", net.dead, "%s: failed without a failure", ctx.c_str()); CHECKK("bytes sent", net.sent.size() < expect.size() + f.size() && (expect + f).substr(0, net.sent.size()) == net.sent, "%s: %s", ctx.c_str(), hex(net.sent).c_str()); outcome("packet not sent"); break; }
    }
    distinct(hash_str(fmt("s %d %s", n, vec(g().choices).c_str()))); net.mode = OFF; echo_verbose = 0;
}

// ---------------------------------------------------------------- identifiers
static const int PATS[] = {NOISE_PATTERN_NN, NOISE_PATTERN_KN, NOISE_PATTERN_NK, NOISE_PATTERN_KK, NOISE_PATTERN_NX, NOISE_PATTERN_KX, NOISE_PATTERN_XN, NOISE_PATTERN_IN, NOISE_PATTERN_XK, NOISE_PATTERN_IK, NOISE_PATTERN_XX, NOISE_PATTERN_IX};
static const int HFS[] = {NOISE_PATTERN_NN_HFS, NOISE_PATTERN_KN_HFS, NOISE_PATTERN_NK_HFS, NOISE_PATTERN_KK_HFS, NOISE_PATTERN_NX_HFS, NOISE_PATTERN_KX_HFS, NOISE_PATTERN_XN_HFS, NOISE_PATTERN_IN_HFS, NOISE_PATTERN_XK_HFS, NOISE_PATTERN_IK_HFS, NOISE_PATTERN_XX_HFS, NOISE_PATTERN_IX_HFS};
static const int CIPH[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}, DHS[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}, HASHES[] = {NOISE_HASH_SHA256, NOISE_HASH_SHA512, NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b};
// -> whether every byte is defined
static bool wire(const uint8_t *b, NoiseProtocolId &n) {
    memset(&n, 0, sizeof n); bool ok = b[0] < 2 && (b[1] & 0x7f) < 12 && b[2] < 2 && (b[3] & 15) < 3 && (b[3] >> 4) < 4 && b[4] < 4; if (!ok) return false;
    n.prefix_id = b[0] ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD; n.pattern_id = b[1] & 0x80 ? HFS[b[1] & 0x7f] : PATS[b[1]]; n.cipher_id = CIPH[b[2]]; n.dh_id = DHS[b[3] & 15]; n.hybrid_id = b[3] >> 4 ? DHS[(b[3] >> 4) - 1] : NOISE_DH_NONE; n.hash_id = HASHES[b[4]]; return true;
}
static bool same_id(const NoiseProtocolId &a, const NoiseProtocolId &b) { return a.prefix_id == b.prefix_id && a.pattern_id == b.pattern_id && a.cipher_id == b.cipher_id && a.dh_id == b.dh_id && a.hybrid_id == b.hybrid_id && a.hash_id == b.hash_id; }
static void judge_wire(const uint8_t *b) {
    op(); EchoProtocolId id; static_assert(sizeof id == 5, "size"); memcpy(&id, b, 5); NoiseProtocolId want, got; memset(&got, 0xAA, sizeof got); bool ok = wire(b, want); int r = echo_to_noise_protocol_id(&got, &id);
    CHECKK("wire identifier", !!r == ok, "identifier %s is %s", hex(vh::B(b, 5)).c_str(), r ? "accepted" : "refused");
    if (!r) { outcome("wire identifier refused"); return; }
    CHECKK("wire identifier converted", same_id(got, want), "identifier %s converted to %x %x %x %x %x %x", hex(vh::B(b, 5)).c_str(), got.prefix_id, got.pattern_id, got.dh_id, got.cipher_id, got.hash_id, got.hybrid_id);
    if (!!(b[1] & 0x80) != !!(b[3] >> 4)) { outcome("hybrid without hfs or the reverse"); return; }
    char name[128]; int e = noise_protocol_id_to_name(name, sizeof name, &got); CHECK(e == 0, "%s has no name", hex(vh::B(b, 5)).c_str());
    EchoProtocolId back; memset(&back, 0xAA, sizeof back); r = echo_get_protocol_id(&back, name);
    CHECKK("identifier round trip", r && !memcmp(&back, b, 5), "identifier %s is %s, which is %s %s", hex(vh::B(b, 5)).c_str(), name, r ? "identifier" : "refused", hex(vh::B((uint8_t *)&back, 5)).c_str()); outcome("wire identifier converted");
}
static void ids_wire() {
    int p = choose(5, "first"), q = choose(5, "second"); if (q <= p) skip(); static const uint8_t V[3][5] = {{0, 0, 0, 0, 0}, {1, 0x8b, 1, 0x32, 3}, {0, 0x80, 1, 0x10, 2}}; int v = choose(3, "others"); int x = choose(256, "value"); shard();
    for (int y = 0; y < 256; y++) { uint8_t b[5]; memcpy(b, V[v], 5); b[p] = (uint8_t)x; b[q] = (uint8_t)y; judge_wire(b); }
    distinct(hash_str(fmt("w %d %d %d %d", p, q, v, x)));
}
static void ids_all() {     // every defined identifier
    int a = choose(24, "pattern"); shard();
    for (int psk = 0; psk < 2; psk++) for (int c = 0; c < 2; c++) for (int d = 0; d < 3; d++) for (int h = 0; h < 4; h++) for (int k = 0; k < 4; k++) { uint8_t b[5] = {(uint8_t)psk, (uint8_t)(a % 12 + (a >= 12 ? 0x80 : 0)), (uint8_t)c, (uint8_t)(d | h << 4), (uint8_t)k}; judge_wire(b); distinct(hash_bytes(b, 5)); }
}
static void ids_names() {
    static auto protos = lb::all_protos(); const rn::Proto &p = pick(protos, "protocol"); shard(); op(); std::string name = p.name(); NoiseProtocolId nid; if (noise_protocol_name_to_id(&nid, name.c_str(), name.size())) failk("name", "%s is not a name", name.c_str());
    uint8_t b[5]; bool ok = false; for (int i = 0; i < 12; i++) { if (PATS[i] == nid.pattern_id) { b[1] = (uint8_t)i; ok = true; } if (HFS[i] == nid.pattern_id) { b[1] = (uint8_t)(0x80 | i); ok = true; } }
    auto ix = [](const int *v, int n, int x) { for (int i = 0; i < n; i++) if (v[i] == x) return i; return -1; };
    b[0] = p.psk; b[2] = (uint8_t)ix(CIPH, 2, p.cipher); b[3] = (uint8_t)(ix(DHS, 3, p.dh) | (p.hybrid ? ix(DHS, 3, p.hybrid) + 1 : 0) << 4); b[4] = (uint8_t)ix(HASHES, 4, p.hash);
    EchoProtocolId id; memset(&id, 0xAA, sizeof id); int r = echo_get_protocol_id(&id, name.c_str()); CHECKK("name", !!r == ok, "%s is %s", name.c_str(), r ? "accepted" : "refused");
    if (ok) { CHECKK("name converted", !memcmp(&id, b, 5), "%s converted to %s instead of %s", name.c_str(), hex(vh::B((uint8_t *)&id, 5)).c_str(), hex(vh::B(b, 5)).c_str()); NoiseProtocolId back; CHECKK("name round trip", echo_to_noise_protocol_id(&back, &id) && same_id(back, nid), "%s comes back as another", name.c_str()); }
    outcome(ok ? "name converted" : "name without an identifier");
    for (size_t i = 0; i < name.size(); i++) { std::string t = name; t[i] ^= 1; NoiseProtocolId o; if (noise_protocol_name_to_id(&o, t.c_str(), t.size()) == 0) continue; EchoProtocolId e; CHECKK("unknown name", !echo_get_protocol_id(&e, t.c_str()), "%s is accepted", t.c_str()); }
    distinct(hash_str(name));
}

// ---------------------------------------------------------------- key files
static char cwd[400], dir[512]; static std::string keyfile;
static void spit(const std::string &f, const bytes &b) { FILE *o = fopen(f.c_str(), "wb"); if (!o || fwrite(b.data(), 1, b.size(), o) != b.size() || fclose(o)) { printf("@error cannot write %s\n", f.c_str()); fflush(stdout); _exit(3); } }
static bytes slurp(const std::string &f) { bytes b; FILE *i = fopen(f.c_str(), "rb"); if (!i) return b; int c; while ((c = getc(i)) != EOF) b.push_back((uint8_t)c); fclose(i); return b; }
static int open_fds() { int n = 0; for (int i = 3; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static bytes b64(const bytes &k) {
    bytes o; for (size_t i = 0; i < k.size(); i += 3) { uint32_t v = k[i] << 16 | (i + 1 < k.size() ? k[i + 1] : 0) << 8 | (i + 2 < k.size() ? k[i + 2] : 0); for (int j = 0; j < 4; j++) o.push_back(i + j > k.size() ? '=' : A64[v >> (18 - 6 * j) & 63]); } return o;
}
static void leak(int fds, size_t len, const std::string &ctx) {
    int now = open_fds(); g().checks++; if (now == fds + 1 && len > 2048) { vh::finding("key file left open: unsupported length", ctx); for (int i = 3; i < 64; i++) { char p[64], l[600]; snprintf(p, sizeof p, "/proc/self/fd/%d", i); ssize_t n = readlink(p, l, sizeof l - 1); if (n > 0 && bytes((uint8_t *)l, n).find(vh::B(keyfile)) != bytes::npos) close(i); } return; }
    CHECKK("file left open", now == fds, "%s: a file is left open", ctx.c_str());
}
enum { YES, NO, EITHER };
static int oracle(const bytes &c, size_t len, bytes &key) {
    bytes head, tail; bool eq = false, odd = false; key.clear();
    for (uint8_t x : c) {
        if (x == ' ' || x == '\t' || x == '\r' || x == '\n') continue;
        if (x == '\v' || x == '\f') { odd = true; continue; }
        if (x == '=') eq = true;
        if (eq) { if (x != '=') return NO; tail.push_back(x); } else { if (!x || !strchr(A64, x)) return NO; head.push_back(x); }
    }
    size_t n = head.size() % 4; if (n == 1) return NO; uint32_t acc = 0; int bits = 0;
    for (uint8_t x : head) { acc = acc << 6 | (uint32_t)(strchr(A64, x) - A64); bits += 6; if (bits >= 8) { bits -= 8; key.push_back((uint8_t)(acc >> bits)); acc &= (1u << bits) - 1; } }
    if (key.size() != len) return NO;
    return !odd && tail.size() == (n == 0 ? 0u : 4 - n) && acc == 0 ? YES : EITHER;
}
// What the decoder of the examples does (files under examples/ cannot be repaired here, see known-findings.txt): white space counts as
// one more digit like the last, everything behind the first '=' is ignored, and a single last digit is dropped.
static bool as_found(const bytes &c, size_t len, bytes &key) {
    key.clear(); uint32_t digit = 0, group = 0; size_t n = 0;
    for (uint8_t x : c) {
        if (x == '=') break; const char *p = x ? strchr(A64, x) : 0;
        if (p) digit = (uint32_t)(p - A64); else if (x != ' ' && x != '\t' && x != '\r' && x != '\n') return false;
        group = group << 6 | digit; if (++n == 4) { n = 0; for (int s : {16, 8, 0}) key.push_back((uint8_t)(group >> s)); if (key.size() > len) return false; }
    }
    if (n == 3) { key.push_back((uint8_t)(group >> 10)); key.push_back((uint8_t)(group >> 2)); } else if (n == 2) key.push_back((uint8_t)(group >> 4));
    return key.size() == len;
}
static void judge_public(const bytes &c, size_t len) {
    op(); spit(keyfile, c); int fds = open_fds(); Block b(len, 0xA5); int r = echo_load_public_key(keyfile.c_str(), b.p, len); bytes key, fkey; int o = oracle(c, len, key); if (len > 2048) o = NO;
    std::string ctx = fmt("a file of %zu bytes (%s) for a key of %zu", c.size(), hex(c).c_str(), len); bool bad = (r && o == NO) || (!r && o == YES) || (r && b.get() != key); g().checks++;
    if (bad && as_found(c, len, fkey) == !!r && (!r || b.get() == fkey) && len <= 2048) {
        bytes head = c.substr(0, c.find('=')); bool white = head.find_first_of(vh::B(" \t\r\n")) != bytes::npos; bool after = c.find_first_not_of(vh::B("= \t\r\n"), head.size()) != bytes::npos;
        if (white) vh::finding("public key file: white space as a digit", ctx + (r ? " is accepted" : " is refused")); else if (r && (after || c.size() > head.size())) vh::finding("public key file: data behind the first =", ctx + " is accepted"); else if (r && head.size() % 4 == 1) vh::finding("public key file: stray last digit", ctx + " is accepted"); else goto judge;
        outcome("known finding"); goto fd;
    }
judge:
    CHECKK("key file accepted", !(r && o == NO), "%s is accepted", ctx.c_str()); CHECKK("key file refused", r || o != YES, "%s is refused", ctx.c_str());
    if (r) CHECKK("key value", b.get() == key, "%s is read as %s", ctx.c_str(), hex(b.get()).c_str());
fd:
    leak(fds, len, ctx); outcome(r ? "public key read" : "public key refused"); distinct(hash_bytes(c.data(), c.size(), len));
}
static void public_small() {
    size_t len = 1 + choose(4, "length"); static const uint8_t A[] = {'A', '/', 'z', '=', ' ', '\n', '!', '9'}; int max = g().thorough ? 7 : 6; bytes c; int n = choose(max + 1, "characters"); int first = n > 2 ? 2 : n;
    for (int i = 0; i < first; i++) c.push_back(pick(A, "character")); shard(); for (int i = first; i < n; i++) c.push_back(pick(A, "character")); judge_public(c, len);
}
static void public_edits() {
    static const size_t L[] = {32, 56, 33, 1824, 2048}; size_t len = pick(L, "length"); int kind = choose(7, "kind"); bytes k = pattern(len, 0x80, 37), c = b64(k);
    if (kind == 0) { int at = choose((int)(len > 60 ? 9 : c.size()), "position"); shard(); for (int x = 0; x < 256; x++) { bytes d = c; d[len > 60 ? (at < 6 ? at : c.size() - (at - 5)) : at] = (uint8_t)x; judge_public(d, len); } }
    else if (kind == 1) { int at = choose((int)(len > 60 ? 9 : c.size() + 1), "position"); shard(); for (int x = 0; x < 256; x++) { bytes d = c; d.insert(len > 60 ? (at < 6 ? at : c.size() - (at - 6)) : at, 1, (uint8_t)x); judge_public(d, len); } }
    else if (kind == 2) { shard(); if (len > 60) skip(); static const char *W[] = {"\n", " ", "\t", "\r\n", "\n\n  "}; for (auto w : W) for (size_t i = 0; i <= c.size(); i++) for (size_t j = i; j <= c.size(); j++) { bytes d = c; d.insert(j, vh::B(w)); d.insert(i, vh::B(w)); judge_public(d, len); } }
    else if (kind == 3) { shard(); for (size_t i = 0; i < c.size(); i += len > 60 ? 97 : 1) { judge_public(c.substr(0, i), len); judge_public(c.substr(i), len); bytes d = c; d.erase(i, 1); judge_public(d, len); } for (size_t w = 1; w < 80; w++) { bytes d; for (size_t i = 0; i < c.size(); i++) { d.push_back(c[i]); if (i % w == w - 1) d.push_back('\n'); } judge_public(d, len); } }
    else if (kind == 4) { shard(); judge_public(c + c, len); judge_public(c + vh::B("\n") + c, len); judge_public(c + vh::B("\nAAAA"), len); for (int n = 1; n < 9; n++) { judge_public(c + bytes(n, 'A'), len); judge_public(c + bytes(n, '='), len); judge_public(b64(pattern(len + n, 0x80, 37)), len); if (len > (size_t)n) judge_public(b64(pattern(len - n, 0x80, 37)), len); } }
    else if (kind == 5) { shard(); for (size_t d = 0; d < 256; d++) judge_public(b64(pattern(len, (int)d, 11)), len); judge_public(b64(bytes(len, 0)), len); judge_public(b64(bytes(len, 0xff)), len); }
    else { shard(); for (size_t l : {(size_t)2049, (size_t)2050, (size_t)4096}) judge_public(b64(pattern(l)), l);
        int fds = open_fds(); Block b(len, 0); CHECK(!echo_load_public_key((std::string(dir) + "/missing").c_str(), b.p, len) && !echo_load_private_key((std::string(dir) + "/missing").c_str(), b.p, len), "a missing file is accepted");
        CHECK(!echo_load_public_key(dir, b.p, len) && !echo_load_private_key(dir, b.p, len), "a directory is accepted"); CHECKK("file left open", open_fds() == fds, "a file is left open"); }
}
static void private_keys() {
    static const size_t L[] = {1, 2, 31, 32, 56, 64, 2047, 2048, 2049, 4096}; size_t len = pick(L, "length"); static const int D[] = {0, 1, -1, 2, -2, 100, -100000}; int d = pick(D, "difference"); int fill = choose(5, "content"); shard(); op();
    size_t n = d == -100000 || (d < 0 && (size_t)-d > len) ? 0 : len + d; bytes c = fill == 0 ? pattern(n, 1) : fill == 1 ? bytes(n, '\n') : fill == 2 ? bytes(n, 0) : fill == 3 ? bytes(n, 0xff) : pattern(n, 200, 3); spit(keyfile, c);
    int fds = open_fds(); Block b(len, 0xA5); int r = echo_load_private_key(keyfile.c_str(), b.p, len); bool ok = n == len && len <= 2048; CHECKK("private key file", !!r == ok, "a file of %zu bytes for a key of %zu is %s", n, len, r ? "accepted" : "refused");
    if (r) CHECK(b.get() == c, "the key is not the file's content"); leak(fds, len, fmt("a private key file of %zu bytes for %zu", n, len)); outcome(r ? "private key read" : "private key refused"); distinct(hash_bytes(c.data(), c.size(), len));
}
static int run_gen(std::vector<std::string> a) { std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0); return gen_main((int)a.size(), v.data()); }
static void keygen() {
    static const char *T[] = {"25519", "448", "NewHope", "P256", "", "ChaChaPoly"}; int t = choose(6, "type"); int where = choose(4, "files"); shard(); op(); rng::reset(77 + t); std::string pf = std::string(dir) + "/priv", uf = std::string(dir) + "/pub"; unlink(pf.c_str()); unlink(uf.c_str());
    if (where == 1) pf = std::string(dir) + "/none/priv"; if (where == 2) uf = std::string(dir) + "/none/pub";
    int rc = where == 3 ? run_gen({"echo-keygen", T[t], pf}) : run_gen({"echo-keygen", T[t], pf, uf}); bool ok = t < 3 && where == 0; CHECKK("key generator", (rc == 0) == ok, "echo-keygen %s returned %d", T[t], rc);
    if (!ok) { CHECK(access(pf.c_str(), F_OK) && access(uf.c_str(), F_OK), "echo-keygen %s failed and left a file", T[t]); outcome("no keys generated"); return; }
    lb::DSt d; CHECK(noise_dhstate_new_by_name(d.out(), T[t]) == 0, "dhstate"); size_t pl = noise_dhstate_get_private_key_length(d), ul = noise_dhstate_get_public_key_length(d); Block p(pl), u(ul);
    CHECKK("generated keys", echo_load_private_key(pf.c_str(), p.p, pl) && echo_load_public_key(uf.c_str(), u.p, ul), "the generated keys of type %s cannot be loaded", T[t]);
    CHECK(slurp(uf) == b64(u.get()), "the public key file is not the base64 form"); if (t < 2) { CHECK(rc::dh_public(DHS[t], p.get()) == u.get(), "the public key of %s does not match", T[t]); }
    CHECK(noise_dhstate_set_keypair(d, p.p, pl, u.p, ul) == 0, "keypair"); outcome("keys generated"); unlink(pf.c_str()); unlink(uf.c_str()); distinct(hash_str(T[t]));
}

// ---------------------------------------------------------------- sessions
static void program(Prog *p, std::vector<std::string> args) {
    wait_turn(p->who); self = p; std::vector<char *> v; for (auto &s : args) v.push_back(&s[0]); v.push_back(0); optind = 0; volatile int rc = -1;
    if (setjmp(p->out) == 0) rc = p->who ? srv_main((int)args.size(), v.data()) : cli_main((int)args.size(), v.data()); else rc = p->code;
    p->status = rc; p->done = true; pass_turn(p->who);
}
static std::vector<bytes> chunks(const bytes &in) { std::vector<bytes> v; bytes c; for (uint8_t x : in) { c.push_back(x); if (x == '\n' || c.size() == 4079) { v.push_back(c); c.clear(); } } if (!c.empty()) v.push_back(c); return v; }
static bool fixed_keys, padding;
static void session_with(const rn::Proto &p, const bytes &input, int wrong, int budget) {
    static std::string D = dir; static const char *dhn[] = {"25519", "448"}; int dn = p.dh == NOISE_DH_CURVE448;
    net = Net(); net.mode = SESSION; net.budget = budget; for (int i = 0; i < 2; i++) { prog[i].who = i; prog[i].status = -1; prog[i].code = 0; prog[i].conn = -1; prog[i].done = prog[i].exited = prog[i].peer_closed = false; prog[i].fds.clear(); prog[i].rx.clear(); }
    turn = 0; stuck = false; next_fd = FD; rng::reset(5);
    std::vector<std::string> c = {"echo-client", "-c", D + "/client_key_" + dhn[dn], "-s", D + "/server_key_" + (wrong == 1 ? "other_" : "") + dhn[dn] + ".pub", "-p", D + (wrong == 2 ? "/psk_other" : "/psk"), p.name(), "localhost", "7000"}, s = {"echo-server", "-k", D, "7000"};
    if (fixed_keys) { c.insert(c.begin() + 1, "-f"); s.insert(s.begin() + 1, "-f"); } if (padding) c.insert(c.begin() + 1, "--padding");
    char *out = 0; size_t outn = 0; vh_out = open_memstream(&out, &outn); bytes in = input; vh_in = in.empty() ? fopen("/dev/null", "r") : fmemopen(&in[0], in.size(), "r");
    std::thread a(program, &prog[0], c), b(program, &prog[1], s); a.join(); b.join();
    fclose(vh_out); fclose(vh_in); vh_out = devnull; vh_in = 0; net.mode = OFF; bytes o = vh::B(out, outn); free(out);
    const bytes mark = vh::B("Received: "); std::vector<bytes> want = chunks(input); size_t at = o.find(mark); bytes rest = at == bytes::npos ? bytes() : o.substr(at); size_t got = 0; bytes sofar; while (got < want.size() && sofar + mark + want[got] == rest.substr(0, sofar.size() + mark.size() + want[got].size())) { sofar += mark + want[got]; got++; }
    std::string ctx = fmt("%s, %zu lines%s: client ended with %d, server with %d, %zu echoes", p.name().c_str(), want.size(), wrong == 1 ? ", wrong server key" : wrong == 2 ? ", wrong psk" : "", prog[0].status, prog[1].status, got);
    note(""); CHECKK("session stuck", !stuck, "%s: both programs wait for each other", ctx.c_str()); CHECKK("socket misuse", net.trouble.empty(), "%s: %s", ctx.c_str(), net.trouble.c_str());
    CHECKK("echo", rest == sofar, "%s: the client wrote %s", ctx.c_str(), hex(rest.substr(sofar.size()), 120).c_str());
    const rn::Pattern *pt = rn::find(p.pattern); bool fails = wrong == 2 ? p.psk : wrong == 1 ? rn::knows_remote_before(*pt, true) : false;
    if (net.dead) { CHECKK("loss not reported", prog[0].status != 0 || got == want.size(), "%s: the connection broke and the client ended as if all was well", ctx.c_str()); outcome("broken connection"); }
    else if (fails) { CHECKK("wrong key accepted", prog[0].status != 0 && got == 0 && at == bytes::npos, "%s", ctx.c_str()); outcome("wrong key refused"); }
    else { CHECKK("session", prog[0].status == 0 && prog[1].status == 0 && got == want.size(), "%s", ctx.c_str()); outcome("session complete"); }
    for (int i = 0; i < 2; i++) CHECKK("socket left open", prog[i].exited || prog[i].fds.empty(), "%s: %s leaves %zu sockets open", ctx.c_str(), i ? "the server" : "the client", prog[i].fds.size());
    distinct(hash_str(p.name() + vec(g().choices)));
}
static std::vector<bytes> inputs() { bytes l1 = pattern(4078, 'a', 0) + vh::B("\n"), l2 = pattern(4079, 'b', 0) + vh::B("\n"), l3 = pattern(9000, 'c', 0); return {vh::B("hello\n"), bytes(), vh::B("\n\n"), vh::B("one\ntwo\nthree\nfour\n"), l1, vh::B("x\n") + l2, l3, vh::B("no newline")}; }
static void sessions() {
    static auto protos = [] { std::vector<rn::Proto> v; int i = 0; for (auto &p : lb::all_protos()) { const rn::Pattern *pt = rn::find(p.pattern); if (pt->oneway || (p.dh == NOISE_DH_NEWHOPE && p.hybrid == NOISE_DH_NEWHOPE) || p.pattern == NOISE_PATTERN_XX_FALLBACK || p.pattern == NOISE_PATTERN_XX_FALLBACK_HFS) continue; bool known = false; for (int k = 0; k < 12; k++) if (p.pattern == PATS[k] || p.pattern == HFS[k]) known = true; if (!known) continue; if (i++ % (g().thorough ? 1 : 5) == 0) v.push_back(p); } return v; }();
    const rn::Proto &p = pick(protos, "protocol"); int wrong = choose(3, "keys"); if (wrong == 2 && !p.psk) skip(); shard(); static auto ins = inputs();
    script_connect = 0; script_accept = 0; session_with(p, wrong ? ins[0] : padding ? ins[3] : ins[(size_t)(p.pattern + p.hash) % ins.size()], wrong, 0);
}
static void session_schedules() {
    static std::vector<rn::Proto> protos; if (protos.empty()) { rn::Proto p; p.dh = NOISE_DH_CURVE25519; p.cipher = NOISE_CIPHER_CHACHAPOLY; p.hash = NOISE_HASH_BLAKE2s; for (int pt : {NOISE_PATTERN_XX, NOISE_PATTERN_IK, NOISE_PATTERN_NN}) { p.pattern = pt; protos.push_back(p); } }
    int which = choose(3, "protocol"); int in = choose(padding ? 1 : 2, "input"); script_connect = choose(3, "failing connects"); script_accept = choose(4, "accept"); if (script_connect && script_accept) skip(); bool plain = !script_connect && !script_accept;
    int before = script_connect; int a = choose(8, "unit"); shard(); (void)a; if (g().choices[g().pos - 1] && !plain) skip();
    static auto ins = inputs(); int budget = !plain ? 1 : which == 2 || g().thorough ? 2 : 1; if (a && budget == 1) skip(); net.budget = budget;
    if (before == 2) {      // no address answers
        script_connect = 2; net = Net(); net.mode = SESSION; for (int i = 0; i < 2; i++) { prog[i].who = i; prog[i].conn = -1; prog[i].done = prog[i].exited = prog[i].peer_closed = false; prog[i].fds.clear(); prog[i].rx.clear(); } turn = 0; stuck = false; next_fd = FD; prog[1].done = true; std::string D = dir;
        std::thread t(program, &prog[0], std::vector<std::string>{"echo-client", "-c", D + "/client_key_25519", "-s", D + "/server_key_25519.pub", "-p", D + "/psk", protos[which].name(), "localhost", "7000"}); t.join(); net.mode = OFF;
        CHECK(prog[0].status == 1, "the client ended with %d though nothing could be connected to", prog[0].status); CHECKK("socket left open", prog[0].fds.empty(), "the client leaves sockets open"); outcome("no connection"); return;
    }
    session_with(protos[which], in ? ins[3] : ins[0], 0, budget);
}
static void body() {
    if (padding || fixed_keys) { if (flag("part")) session_schedules(); else sessions(); return; }
    switch (choose(13, "part")) {
    case 0: return receiving(); case 1: return sending(); case 2: return large(); case 3: return ids_wire(); case 4: return ids_all(); case 5: return ids_names(); case 6: return public_small(); case 7: return public_edits(); case 8: return private_keys(); case 9: return keygen(); case 10: return sessions(); case 11: return session_schedules();
    case 12: shard(); CHECK(echo_recv(FD, (uint8_t *)"", 0) == 0 && echo_recv(FD, (uint8_t *)"", 1) == 0, "tiny buffers"); return;
    }
}
static void setup() {
    devnull = fopen("/dev/null", "w"); vh_out = vh_err = devnull; snprintf(dir, sizeof dir, "%s/c27-XXXXXX", getcwd(cwd, sizeof cwd)); if (!mkdtemp(dir)) { printf("@error mkdtemp\n"); fflush(stdout); _exit(3); }
    std::string D = dir; keyfile = D + "/key"; fixed_keys = g().opts.count("fixed"); padding = g().opts.count("padding");
    for (int k = 0; k < 2; k++) { int dh = DHS[k]; std::string n = k ? "448" : "25519"; size_t l = k ? 56 : 32; bytes cs = lb::secret('i', 's', l), ss = lb::secret('r', 's', l), os = lb::secret('x', 's', l);
        spit(D + "/client_key_" + n, cs); spit(D + "/server_key_" + n, ss); spit(D + "/client_key_" + n + ".pub", b64(rc::dh_public(dh, cs))); spit(D + "/server_key_" + n + ".pub", b64(rc::dh_public(dh, ss)) + vh::B("\n")); spit(D + "/server_key_other_" + n + ".pub", b64(rc::dh_public(dh, os))); }
    spit(D + "/psk", b64(pattern(32, 50))); spit(D + "/psk_other", b64(pattern(32, 51)));
}
int main(int argc, char **argv) { return vh::run_main(argc, argv, body, setup); }
