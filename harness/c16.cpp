// C16: every file operation made while saving and loading certificates and keys fails, or is short, at every point.
// Two injectors: the stdio stream the library gets is backed by callbacks that follow a fault plan (every callback, every
// byte count), and the operating system itself refuses (file size limit at every byte, descriptor limit, /dev/full, pipes,
// directories).  Success may be reported only when the whole content arrived.
#include "alloc.hpp"
#include "certs.hpp"
#include "rng.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
using namespace vh;

enum Kind { READ, WRITE, SEEK, CLOSE, OPEN };
static struct Io {
    bool on = false; int calls = 0; int open_streams = 0; std::vector<Kind> log;
    int fault_at = -1, action = 0; bool sticky = false; int fault_at2 = -1;      // at this callback: fail, or transfer fewer bytes
    long limit = -1; int limit_kind = 0; size_t chunk = 0;                       // after this many bytes: 0 end/no space, 1 error
    bool fired = false, seek_failed = false, close_failed = false, op_failed = false;
} io;
struct Cookie { int fd; };
static const int NACT = 6;
static bool hit() { int i = io.calls++; return io.fault_at >= 0 && (i == io.fault_at || i == io.fault_at2 || (io.sticky && i > io.fault_at)); }
static ssize_t c_read(void *c, char *b, size_t n) {
    int fd = ((Cookie *)c)->fd; io.log.push_back(READ); bool f = hit(); if (f && io.action == 2 && io.seek_failed) f = false;     // not seekable and already at the end: an empty pipe, which nobody can tell
   
    if (f) { io.fired = true; switch (io.action) { case 0: errno = EIO; return -1; case 1: errno = EINTR; return -1; case 2: return 0; case 3: n = n ? 1 : 0; break; case 4: n = n / 2 ? n / 2 : 1; break; default: n = n > 1 ? n - 1 : n; } }
    if (io.chunk && n > io.chunk) n = io.chunk;
    if (io.limit >= 0) { long pos = lseek(fd, 0, SEEK_CUR); if (pos >= io.limit) { struct stat st; fstat(fd, &st); if (pos < st.st_size) io.fired = true; if (io.limit_kind) { io.fired = true; errno = EIO; return -1; } return 0; } if (n > (size_t)(io.limit - pos)) n = io.limit - pos; }
    return read(fd, b, n);
}
static ssize_t c_write(void *c, const char *b, size_t n) {
    int fd = ((Cookie *)c)->fd; io.log.push_back(WRITE); bool f = hit();
    if (f) { io.fired = true; switch (io.action) { case 0: errno = EIO; return 0; case 1: errno = EINTR; return 0; case 2: errno = ENOSPC; return 0; case 3: n = n ? 1 : 0; break; case 4: n = n / 2 ? n / 2 : 1; break; default: n = n > 1 ? n - 1 : n; } }
    if (io.chunk && n > io.chunk) { n = io.chunk; io.fired = true; }      // stdio gives up on a short write
    if (io.limit >= 0) { long pos = lseek(fd, 0, SEEK_CUR); if (pos >= io.limit) { io.fired = true; errno = io.limit_kind ? EIO : ENOSPC; return 0; } if (n > (size_t)(io.limit - pos)) { n = io.limit - pos; io.fired = true; } }
    ssize_t r = write(fd, b, n); return r < 0 ? 0 : r;
}
static int c_seek(void *c, off64_t *o, int w) {
    io.log.push_back(SEEK); if (hit()) { io.fired = io.seek_failed = true; errno = io.action == 2 ? ESPIPE : io.action == 1 ? EINTR : EIO; return -1; }
    off_t r = lseek(((Cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0;
}
static int c_close(void *c) {
    io.log.push_back(CLOSE); bool f = hit(); Cookie *k = (Cookie *)c; close(k->fd); ::operator delete(k); io.open_streams--;
    if (f) { io.fired = io.close_failed = true; errno = io.action == 2 ? ENOSPC : EIO; return -1; }
    return 0;
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *f, const char *m) {
    if (!io.on) return __real_fopen(f, m);
    io.log.push_back(OPEN);
    if (hit()) { io.fired = true; errno = io.action == 0 ? EACCES : io.action == 1 ? EINTR : EMFILE; return 0; }
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = open(f, fl, 0600); if (fd < 0) return 0;
    Cookie *k = (Cookie *)::operator new(sizeof(Cookie)); k->fd = fd; cookie_io_functions_t fn = {c_read, c_write, c_seek, c_close};
    bool was = al::a().on; al::a().on = false; FILE *r = fopencookie(k, m, fn); al::a().on = was; if (r) io.open_streams++; return r;
}
static int open_fds() { int n = 0; for (int i = 0; i < 128; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }

struct Dir { char d[32] = "vh-c16-XXXXXX"; std::string f; Dir() { if (!mkdtemp(d)) { printf("@error mkdtemp\n"); _exit(3); } f = std::string(d) + "/file"; } ~Dir() { unlink(f.c_str()); rmdir(d); } };
static bytes slurp(const std::string &f) { bytes b; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return b; uint8_t t[4096]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.append(t, n); close(fd); return b; }
static void spit(const std::string &f, const bytes &b) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (b.size() != (size_t)write(fd, b.data(), b.size())) { printf("@error write\n"); _exit(3); } close(fd); }
static const char *PASS = "a passphrase", *PROT = "ChaChaPoly_BLAKE2s_PBKDF2";

// The objects.  type 0 certificate, 1 chain, 2 private key
struct Obj { int type; ct::Cert c; ct::Chain h; ct::PrivKey k; bytes enc() const { return type == 0 ? c.enc() : type == 1 ? h.enc() : k.enc(); } };
static const int NOBJ = 8;
static const char *onames[] = {"certificate", "long certificate", "chain", "long chain", "private key", "long private key", "tiny certificate", "certificate of a buffer's size"};
static Obj object(int i) {
    Obj o; o.type = i == 2 || i == 3 ? 1 : i == 4 || i == 5 ? 2 : 0; o.c = ct::mkcert(2); o.h.certs = {ct::mkcert(1), ct::mkcert(2)}; o.k = ct::mksubj(1);
    if (i == 1) o.c.subject->name = bytes(30000, 'n');
    if (i == 3) for (int k = 0; k < 6; k++) { ct::Cert c = ct::mkcert(1); c.subject->name = bytes(3000 + k, 'n'); o.h.certs.push_back(c); }
    if (i == 5) o.k.keys[0].key = pattern(20000);
    if (i == 6) { o.c = ct::Cert(); o.c.version = 1; o.c.subject = ct::Subj(); }
    if (i == 7) { size_t n = o.c.enc().size(); o.c.subject->name = bytes(4096 - n, 'x'); while (o.c.enc().size() > 4096) o.c.subject->name->pop_back(); while (o.c.enc().size() < 4096) o.c.subject->name->push_back('x'); }
    return o;
}
struct Held { ct::CertO c; ct::ChainO h; ct::PrivO k; };
static void build(Held &d, const Obj &o) {
    int e = o.type == 0 ? Noise_Certificate_new(d.c.out()) : o.type == 1 ? Noise_CertificateChain_new(d.h.out()) : Noise_PrivateKey_new(d.k.out()); CHECK(e == 0, "new");
    e = o.type == 0 ? ct::build(d.c.p, o.c, ct::plain) : o.type == 1 ? ct::build(d.h.p, o.h, ct::plain) : ct::build(d.k.p, o.k, ct::plain); CHECK(e == 0, "build");
}
static int save(Held &d, const Obj &o, const std::string &f) { op(); return o.type == 0 ? noise_save_certificate_to_file(d.c.p, f.c_str()) : o.type == 1 ? noise_save_certificate_chain_to_file(d.h.p, f.c_str()) : noise_save_private_key_to_file(d.k.p, f.c_str(), PASS, strlen(PASS), PROT); }
// Loads and says whether the object is there and equal to o.  cross: through the other certificate entry point
struct Loaded { int e; bool there, equal; };
static Loaded load(const Obj &o, const std::string &f, bool cross = false) {
    Loaded r; Held d; *d.c.out() = 0; *d.h.out() = 0; *d.k.out() = 0; op();
    if (o.type == 2) { r.e = noise_load_private_key_from_file(d.k.out(), f.c_str(), PASS, strlen(PASS)); bool on = io.on; io.on = false; al::Pause p; r.there = d.k.p; r.equal = r.there && ct::get(d.k.p) == o.k; io.on = on; }
    else if ((o.type == 0) != cross) { r.e = noise_load_certificate_from_file(d.c.out(), f.c_str()); al::Pause p; r.there = d.c.p; r.equal = r.there && ct::get(d.c.p) == (o.type ? o.h.certs[0] : o.c); }
    else { r.e = noise_load_certificate_chain_from_file(d.h.out(), f.c_str()); al::Pause p; ct::Chain one; one.certs = {o.c}; r.there = d.h.p; r.equal = r.there && ct::get(d.h.p) == (o.type ? o.h : one); }
    return r;
}
static bytes fileof(const Obj &o) { return o.type == 2 ? ct::protect(o.k.enc(), B(PASS), PROT, NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2s, 2, pattern(16, 5)) : o.enc(); }
// The file holds the whole object.
static bool complete(const Obj &o, const std::string &f) { if (o.type != 2) return slurp(f) == o.enc(); bool on = io.on; io.on = false; Io keep = io; Loaded l = load(o, f); io = keep; io.on = on; return l.e == 0 && l.equal; }
struct Guard { int fds; size_t live; Guard() { fds = open_fds(); al::start(); io = Io(); io.on = true; }
    void done(const std::string &what) { io.on = false; size_t l = al::live(); std::string t = al::live_text(); al::stop(); CHECK(io.open_streams == 0, "%s: %d files left open", what.c_str(), io.open_streams); CHECK(open_fds() == fds, "%s: %d descriptors open, %d before", what.c_str(), open_fds(), fds); CHECK(l == 0, "%s: %zu blocks leaked: %s", what.c_str(), l, t.c_str()); }
    ~Guard() { io.on = false; al::stop(); } };
static std::string kinds() { std::string s; for (Kind k : io.log) s += "rwsco"[k]; return s; }
static const char *acts[] = {"error", "interrupted", "end/no space/not seekable", "one byte", "half", "all but one byte"};

static void judge_save(const Obj &o, const std::string &f, int e, const std::string &what) {
    if (e == 0) { CHECKK("save success with incomplete file", complete(o, f), "%s: the save was reported as successful but the file is not complete", what.c_str()); CHECKK("close failure ignored", !io.close_failed, "%s: the save was reported as successful although closing the file failed", what.c_str()); outcome("saved completely"); }
    else { CHECKK("save fails without a fault", io.fired, "%s: the save returned %s without a fault", what.c_str(), lb::err(e).c_str()); outcome("save reported " + lb::err(e)); }
}
static void judge_load(const Obj &o, const Loaded &l, const std::string &what) {
    (void)o;
    if (l.e == 0) { CHECKK("load success with wrong object", l.there && l.equal, "%s: the load was reported as successful with %s", what.c_str(), l.there ? "an incomplete object" : "no object"); outcome("loaded completely"); }
    else { CHECKK("object with an error", !l.there, "%s: the load returned %s and an object", what.c_str(), lb::err(l.e).c_str()); CHECKK("load fails without a fault", io.fired, "%s: the load returned %s without a fault", what.c_str(), lb::err(l.e).c_str()); outcome("load reported " + lb::err(l.e)); }
}
// Every callback x every action x once / from then on
static void callbacks() {
    bool saving = flag("save"); int oi = choose(NOBJ, "object"); bool cross = !saving && object(oi).type != 2 && flag("other entry point"); size_t chunk = pick((const size_t[]){0, 1000, 7}, "chunk"); bool old = saving && flag("existing file"); shard();
    if (chunk == 7 && object(oi).enc().size() > 5000) skip();
    if (saving && object(oi).type == 2 && (chunk || old) && !g().thorough) skip();
    Obj o = object(oi); Dir d; Held h; if (saving) build(h, o); else spit(d.f, fileof(o));
    auto run = [&](int at, int act, bool sticky, int at2) {
        if (old) spit(d.f, o.enc() + o.enc() + pattern(50)); else if (saving) unlink(d.f.c_str());
        std::string what = fmt("%s %s, callback %d%s (%s)%s", saving ? "saving" : "loading", onames[oi], at, at2 >= 0 ? fmt("+%d", at2).c_str() : "", acts[act], sticky ? " and all later ones" : "");
        Guard gd; io.chunk = chunk; io.fault_at = at; io.action = act; io.sticky = sticky; io.fault_at2 = at2; rng::reset(at + 7);
        if (saving) { int e = save(h, o, d.f); io.on = false; judge_save(o, d.f, e, what + " [" + kinds() + "]"); }
        else { Loaded l = load(o, d.f, cross); io.on = false; judge_load(o, l, what + " [" + kinds() + "]"); }
        gd.done(what); distinct(mix(mix(oi * 4 + saving * 2 + cross, mix(at + 5, act * 2 + sticky)), mix(chunk * 2 + old, at2 + 3))); distinct(hash_str(kinds(), act));
    };
    run(-1, 0, false, -1); int n = io.calls; if (n == 0) { outcome("stream seam not reached"); return; } if (chunk == 0) sample(fmt("%s %s: callbacks %s", saving ? "saving" : "loading", onames[oi], kinds().c_str()));
    int stride = n > 60 && !g().thorough ? n / 40 : 1;
    for (int at = 0; at < n; at += (at < 10 || at >= n - 10) ? 1 : stride) for (int act = 0; act < NACT; act++) for (int s = 0; s < 2; s++) {
        if (saving && o.type == 2 && act > 3 && s) continue;
        run(at, act, s, -1); if (!s && act < 3 && ((g().thorough && n < 60) || (n < 12 && o.type != 2))) for (int a2 = at + 1; a2 < n + 1; a2++) run(at, act, false, a2);
    }
}
// The file ends, or the disk is full, after every number of bytes
static void limits() {
    bool saving = flag("save"); int oi = choose(NOBJ, "object"); bool cross = !saving && object(oi).type != 2 && flag("other entry point"); int kind = choose(3, "end, error, system limit"); int slice = choose(8, "slice"); shard();
    if (!saving && kind == 2) skip();
    Obj o = object(oi); Dir d; Held h; if (saving) build(h, o); else spit(d.f, fileof(o));
    long size = saving ? (o.type == 2 ? (long)o.enc().size() + 90 : (long)o.enc().size()) : (long)fileof(o).size(), step = size > 5000 ? (g().thorough ? 61 : 509) : 1; if (saving && o.type == 2) step = g().thorough ? (size > 5000 ? 61 : 1) : (size > 5000 ? 1801 : 17);
    std::vector<long> ls; for (long l = 0; l <= size + 1; l += step) ls.push_back(l); for (long l : {1L, 4095L, 4096L, 4097L, 8191L, 8192L, 8193L, 12288L, size - 1, size, size + 1}) if (l >= 0 && l <= size + 1) ls.push_back(l);
    for (size_t x = slice; x < ls.size(); x += 8) {
        long l = ls[x]; std::string what = fmt("%s %s, %s after %ld of %ld bytes", saving ? "saving" : "loading", onames[oi], kind == 0 ? "end of file or disk" : kind == 1 ? "I/O error" : "file size limit", l, size);
        Guard gd; rng::reset(l); if (saving) { io.on = false; unlink(d.f.c_str()); io.on = true; }
        if (kind == 2) {
            io.on = false; struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = l; setrlimit(RLIMIT_FSIZE, &lim); int e = save(h, o, d.f); setrlimit(RLIMIT_FSIZE, &old);
            long got = slurp(d.f).size(); io.fired = got >= l; judge_save(o, d.f, e, what); CHECK(got <= l, "the limit did not work"); if (o.type != 2) CHECK((e == 0) == (l >= size), "%s returned %s", what.c_str(), lb::err(e).c_str());
        } else {
            io.limit = l; io.limit_kind = kind;
            if (saving) { int e = save(h, o, d.f); io.on = false; judge_save(o, d.f, e, what); if (o.type != 2 && l < size && io.calls) CHECK(e != 0, "%s was reported as successful", what.c_str()); }
            else { Loaded r = load(o, d.f, cross); io.on = false; judge_load(o, r, what); if (l < size && io.calls && io.fired) CHECK(r.e != 0, "%s was reported as successful", what.c_str()); }
        }
        gd.done(what); distinct(mix(77, mix(mix(oi * 4 + saving * 2 + cross, kind), l)));
    }
}
// Things the operating system refuses or delivers in pieces
static void system_cases() {
    int oi = choose(NOBJ, "object"); int what = choose(9, "case"); shard();
    Obj o = object(oi); Dir d; Held h; build(h, o); Guard gd; io.on = false; io.fired = true;
    auto loads = [&](const std::string &f, const std::string &w, int want) { for (int cross = 0; cross < (o.type == 2 ? 1 : 2); cross++) { Loaded l = load(o, f, cross); if (want == 0) CHECK(l.e == 0 && l.equal, "%s: %s", w.c_str(), l.e ? lb::err(l.e).c_str() : "another object"); else { CHECK(l.e != 0, "%s was reported as successful", w.c_str()); CHECK(!l.there, "%s: an error and an object", w.c_str()); outcome(w + ": " + lb::err(l.e)); } } };
    switch (what) {
    case 0: { if (symlink("/dev/full", d.f.c_str())) { printf("@error symlink\n"); _exit(3); } int e = save(h, o, d.f); CHECK(e != 0, "saving to a full device was reported as successful"); outcome("full device: " + lb::err(e)); break; }
    case 1: { int e = save(h, o, d.d); CHECK(e != 0, "saving to a directory was reported as successful"); loads(d.d, "loading a directory", 1); break; }
    case 2: { std::string f = d.f + "/x"; int e = save(h, o, f); CHECK(e == NOISE_ERROR_SYSTEM, "saving below a missing directory returned %s", lb::err(e).c_str()); loads(f, "loading a missing file", 1); CHECK(access(d.f.c_str(), F_OK) != 0, "created"); break; }
    case 3: { struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 0; bool have = false; spit(d.f, fileof(o)); setrlimit(RLIMIT_NOFILE, &lim); int e = save(h, o, d.f); Loaded l = load(o, d.f); setrlimit(RLIMIT_NOFILE, &old); CHECK(e != 0, "saving without descriptors was reported as successful"); CHECK(l.e != 0 && !l.there, "loading without descriptors was reported as successful"); CHECK(slurp(d.f) == fileof(o), "a failed save changed the file"); (void)have; break; }
    case 4: loads("/proc/self/mem", "loading a file that cannot be read", 1); spit(d.f, bytes()); loads(d.f, "loading an empty file", 1); loads("/dev/null", "loading the null device", 1); break;
    case 5: {   // pipes of every interesting length: all in one piece
        bytes f = fileof(o); size_t n = f.size(); std::vector<size_t> cut = {0, 1, n / 2, n - 1, n};
        for (size_t c : cut) { int p[2]; if (pipe(p)) { printf("@error pipe\n"); _exit(3); } fcntl(p[1], F_SETPIPE_SZ, 1 << 20); if ((ssize_t)c != write(p[1], f.data(), c)) { printf("@error pipe write\n"); _exit(3); } close(p[1]); std::string path = fmt("/proc/self/fd/%d", p[0]); io.fired = true; Loaded l = load(o, path); if (c == n || o.type == 2 || l.e) judge_load(o, l, fmt("loading %zu of %zu bytes from a pipe", c, n)); /* a shorter certificate may be a certificate */ if (c == n) CHECK(l.e == 0, "loading from a pipe: %s", lb::err(l.e).c_str()); close(p[0]); }
        break; }
    case 6: {   // a pipe, a device or a file holding more than can be loaded, whose first 65535 bytes are a valid object
        if (o.type == 2) break;
        ct::Chain c; ct::Cert x = ct::mkcert(1); auto size = [&] { c.certs = {x}; return c.enc().size(); }; x.subject->name = bytes(60000, 'x'); x.subject->name = bytes(60000 + 65535 - size(), 'x'); CHECK(size() == 65535, "size"); Obj big; big.type = 1; big.h = c;
        for (int extra = 0; extra < 5; extra++) { bytes f = c.enc(); if (extra) f += ct::pb::delim(8, ct::mkcert(extra < 4 ? extra - 1 : 1).enc()); if (extra == 4) f += f.substr(0, 65535);
            int p[2]; if (pipe(p)) { printf("@error pipe\n"); _exit(3); } fcntl(p[1], F_SETPIPE_SZ, 1 << 20); if ((ssize_t)f.size() != write(p[1], f.data(), f.size())) { printf("@error pipe write\n"); _exit(3); } close(p[1]); std::string path = fmt("/proc/self/fd/%d", p[0]);
            bool cross = oi & 1; Loaded l = load(big, path, cross); if (extra == 0) CHECK(l.e == 0 && l.equal, "65535 bytes from a pipe: %s", lb::err(l.e).c_str()); else CHECKK("long pipe truncated", l.e != 0 && !l.there, "%zu bytes from a pipe were loaded as if they were 65535", f.size()); close(p[0]);
            spit(d.f, f); l = load(big, d.f, cross); CHECK((l.e == 0) == (extra == 0), "a file of %zu bytes: %s", f.size(), lb::err(l.e).c_str()); }
        break; }
    case 7: {   // overwriting and removing
        spit(d.f, pattern(50000)); int e = save(h, o, d.f); CHECK(e == 0 && complete(o, d.f), "saving over a longer file: %s", lb::err(e).c_str()); bytes f = slurp(d.f); CHECK(f.size() < 50000, "the old contents are still there"); loads(d.f, "loading", 0); e = save(h, o, d.f); CHECK(e == 0 && complete(o, d.f), "saving twice: %s", lb::err(e).c_str()); spit(d.f, f); loads(d.f, "loading", 0); break; }
    default: {  // saving into a pipe whose reader is gone; a read-only device
        int p[2]; if (pipe(p)) { printf("@error pipe\n"); _exit(3); } std::string path = fmt("/proc/self/fd/%d", p[1]); close(p[0]); int e = save(h, o, path); CHECK(e != 0, "saving into a broken pipe was reported as successful"); close(p[1]); outcome("broken pipe: " + lb::err(e)); }
    }
    gd.done(fmt("case %d for the %s", what, onames[oi])); outcome("operating system cases"); distinct(mix(99, mix(oi, what)));
}
// Two faults of different kinds: allocation failures while a file is open
static void memory() {
    bool saving = flag("save"); int oi = choose(6, "object"); if (oi == 1 || oi == 3 || oi == 5) skip(); bool cross = !saving && object(oi).type != 2 && flag("other entry point"); shard();
    Obj o = object(oi); Dir d; Held h; if (saving) build(h, o); else spit(d.f, fileof(o));
    for (int at = 0; at < 400; at++) {
        Guard gd; rng::reset(at); al::a().fail_at = at; bool failed; std::string what = fmt("%s %s, allocation %d fails", saving ? "saving" : "loading", onames[oi], at);
        if (saving) { int e = save(h, o, d.f); failed = al::a().failed; io.on = false; al::a().fail_at = -1; io.fired = failed; al::stop(); if (e == 0) CHECK(complete(o, d.f), "%s: incomplete", what.c_str()); else CHECK(failed, "%s: %s", what.c_str(), lb::err(e).c_str()); }
        else { Loaded l = load(o, d.f, cross); failed = al::a().failed; io.on = false; io.fired = failed; judge_load(o, l, what); }
        gd.done(what); distinct(mix(111, mix(oi * 4 + saving * 2 + cross, at))); if (!failed) break;
    }
    outcome("allocation failures with files");
}
static void body() { switch (choose(4, "part")) { case 0: callbacks(); break; case 1: limits(); break; case 2: system_cases(); break; default: memory(); } }
static void setup() { rng::install(); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN); }
VH_MAIN2(body, setup)
