// C28: the key tool, run as a whole program in a child process per execution, under scripted prompts, files and memory.
#include "common/alloc.hpp"
#include "common/certs.hpp"
#include "common/rng.hpp"
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vh;
extern "C" int kt_main(int, char **);
typedef std::vector<std::string> Args;

// ---------------------------------------------------------------- the child's world
struct Shared { long allocs, opens, written, prompts, failed, rand_calls; };
static Shared *sh;
struct Plan { std::vector<std::optional<std::string>> prompts; long fail_alloc = -1, fail_open = -1, write_limit = -1, fail_close = -1, read_limit = -1; bool alloc_on = false, io_on = false; };
static Plan plan; static bool in_child;
static long closes;
struct Cookie { int fd; };
static ssize_t c_read(void *c, char *b, size_t n) {
    if (plan.read_limit >= 0) { off_t at = lseek(((Cookie *)c)->fd, 0, SEEK_CUR); if (at >= plan.read_limit) { sh->failed++; errno = EIO; return -1; } if ((long)n > plan.read_limit - at) n = plan.read_limit - at; }
    return read(((Cookie *)c)->fd, b, n);
}
static ssize_t c_write(void *c, const char *b, size_t n) {
    if (plan.write_limit >= 0 && sh->written + (long)n > plan.write_limit) { n = plan.write_limit > sh->written ? plan.write_limit - sh->written : 0; sh->failed++; if (!n) { errno = ENOSPC; return 0; } }
    ssize_t r = write(((Cookie *)c)->fd, b, n); if (r > 0) sh->written += r; return r < 0 ? 0 : r;
}
static int c_seek(void *c, off64_t *o, int w) { off_t r = lseek(((Cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *c) { Cookie *k = (Cookie *)c; close(k->fd); ::operator delete(k); if (closes++ == plan.fail_close) { sh->failed++; errno = EIO; return -1; } return 0; }
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *f, const char *m) {
    if (!in_child || !plan.io_on) return __real_fopen(f, m);
    if (sh->opens++ == plan.fail_open) { sh->failed++; errno = EACCES; return 0; }
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = open(f, fl, 0600); if (fd < 0) return 0;
    Cookie *k = (Cookie *)::operator new(sizeof(Cookie)); k->fd = fd; cookie_io_functions_t fn = {c_read, c_write, c_seek, c_close};
    bool was = al::a().on; al::a().on = false; FILE *r = fopencookie(k, m, fn); al::a().on = was; return r;
}
extern "C" char *__wrap_getpass(const char *) {
    static char buf[8192]; size_t i = sh->prompts++;
    if (i >= plan.prompts.size() || !plan.prompts[i]) { errno = ENXIO; return 0; }
    snprintf(buf, sizeof buf, "%s", plan.prompts[i]->c_str()); return buf;
}

static bytes slurp(const std::string &f) { bytes b; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return b; uint8_t t[8192]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.append(t, n); close(fd); return b; }
static void spit(const std::string &f, const bytes &b) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || b.size() != (size_t)write(fd, b.data(), b.size())) { printf("@error cannot write %s\n", f.c_str()); fflush(stdout); _exit(3); } close(fd); }
static bool exists(const std::string &f) { struct stat st; return lstat(f.c_str(), &st) == 0; }

// A scratch directory below the current one, which is itself the runner's scratch directory.
struct Dir {
    char d[32] = "kt-XXXXXX";
    Dir() { if (!mkdtemp(d)) { printf("@error mkdtemp\n"); fflush(stdout); _exit(3); } }
    std::string at(const char *n) const { return std::string(d) + "/" + n; }
    ~Dir() { if (DIR *p = opendir(d)) { while (dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { std::string f = at(e->d_name); struct stat st; if (!lstat(f.c_str(), &st)) { if (S_ISDIR(st.st_mode)) rmdir(f.c_str()); else unlink(f.c_str()); } } closedir(p); } rmdir(d); }
};
struct Result { int rc = -1, sig = 0; std::string out, err; Shared s; };
static Result tool(const Dir &d, const Args &args, const Plan &p, uint64_t seed = 1) {
    std::string fo = d.at(".out"), fe = d.at(".err"); memset(sh, 0, sizeof *sh); fflush(stdout); op();
    pid_t pid = fork(); if (pid < 0) { printf("@error fork\n"); fflush(stdout); _exit(3); }
    if (!pid) {
        int o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_RDONLY);
        if (o < 0 || e < 0 || z < 0) _exit(96); dup2(z, 0); dup2(o, 1); dup2(e, 2); close(o); close(e); close(z);
        std::vector<std::string> a = {"noise-keytool"}; a.insert(a.end(), args.begin(), args.end());
        std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0);
        plan = p; in_child = true; closes = 0; rng::reset(seed); optind = 1;
        if (p.alloc_on) { al::start(); al::a().fail_at = p.fail_alloc; }
        int rc = kt_main((int)a.size(), v.data());
        sh->allocs = al::a().serial; if (p.alloc_on) sh->failed += al::a().failed; al::stop(); sh->rand_calls = rng::r().calls;
        fflush(stdout); fflush(stderr); _exit(rc);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; bytes b = slurp(fo); r.out.assign((const char *)b.data(), b.size()); b = slurp(fe); r.err.assign((const char *)b.data(), b.size()); r.s = *sh; unlink(fo.c_str()); unlink(fe.c_str());
    if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.rc = WEXITSTATUS(st);
    CHECKK("the tool crashes", !r.sig && !strstr(r.err.c_str(), "Sanitizer") && !strstr(r.err.c_str(), "runtime error:"), "the tool died: signal %d, status %d, %s", r.sig, r.rc, r.err.substr(0, 600).c_str());
    return r;
}
static std::string show_args(const Args &a) { std::string s; for (auto &x : a) s += " '" + (x.size() > 40 ? x.substr(0, 40) + "..." : x) + "'"; return s; }

// ---------------------------------------------------------------- what a request means
struct Request { std::vector<std::string> algs; std::optional<std::string> id, name, role; std::string pass; bool optional_newhope = false; };
static int known(const std::string &n) { return n == "25519" ? NOISE_DH_CURVE25519 : n == "448" ? NOISE_DH_CURVE448 : n == "Ed25519" ? NOISE_SIGN_ED25519 : 0; }
static ct::OB ob(const std::optional<std::string> &s) { if (!s) return {}; return B(*s); }
static bytes public_of(const std::string &alg, const bytes &priv) { return alg == "Ed25519" ? rc::ed_public(priv) : rc::dh_public(known(alg), priv); }
static bool contains(const bytes &hay, const bytes &needle) { return hay.find(needle) != bytes::npos; }

// Both files hold exactly what was asked for.
static void files_right(const std::string &cf, const std::string &kf, Request q, const Result &r, const std::vector<std::string> &wrong, const std::string &what) {
    const char *w = what.c_str(); if (q.algs.empty()) q.algs = {"25519", "448", "Ed25519"};
    ct::CertO c; ct::PrivO k; int e = noise_load_certificate_from_file(c.out(), cf.c_str()); CHECK(e == 0, "%s: the certificate does not load: %s", w, lb::err(e).c_str());
    e = noise_load_private_key_from_file(k.out(), kf.c_str(), q.pass.data(), q.pass.size()); CHECK(e == 0, "%s: the private key does not load with its passphrase: %s", w, lb::err(e).c_str());
    ct::Cert C = ct::get(c.p); ct::PrivKey K = ct::get(k.p); CHECK(C.version == 1, "%s: the certificate has version %u", w, C.version); CHECK(C.sigs.empty(), "%s: the certificate has signatures", w); CHECK(C.subject.has_value(), "%s: the certificate has no subject", w);
    const ct::Subj &S = *C.subject;
    CHECK(S.id == ob(q.id) && K.id == ob(q.id), "%s: another id", w); CHECK(S.name == ob(q.name) && K.name == ob(q.name), "%s: another name", w); CHECK(S.role == ob(q.role) && K.role == ob(q.role), "%s: another role", w); CHECK(S.meta.empty() && K.meta.empty(), "%s: meta information that nobody asked for", w);
    std::map<std::string, bytes> pub, priv;
    for (auto &x : S.keys) { CHECK(x.alg && x.key, "%s: incomplete public key", w); std::string a((const char *)x.alg->data(), x.alg->size()); CHECK(!pub.count(a), "%s: %s twice in the certificate", w, a.c_str()); pub[a] = *x.key; }
    for (auto &x : K.keys) { CHECK(x.alg && x.key, "%s: incomplete private key", w); std::string a((const char *)x.alg->data(), x.alg->size()); CHECK(!priv.count(a), "%s: %s twice in the private key", w, a.c_str()); priv[a] = *x.key; }
    if (q.optional_newhope) { CHECK(pub.count("NewHope") == priv.count("NewHope"), "%s: half a NewHope key", w); pub.erase("NewHope"); priv.erase("NewHope"); }
    CHECK(pub.size() == q.algs.size() && priv.size() == q.algs.size(), "%s: %zu public and %zu private keys instead of %zu", w, pub.size(), priv.size(), q.algs.size());
    bytes certraw = slurp(cf), keyraw = slurp(kf); std::set<bytes> seen;
    for (auto &a : q.algs) {
        CHECK(pub.count(a) && priv.count(a), "%s: no %s key", w, a.c_str()); size_t n = a == "448" ? 56 : 32; CHECK(priv[a].size() == n && pub[a].size() == n, "%s: the %s key has another length", w, a.c_str());
        CHECK(public_of(a, priv[a]) == pub[a], "%s: the %s public key is not that of the private key", w, a.c_str()); CHECK(seen.insert(bytes(priv[a].begin(), priv[a].begin() + 16)).second, "%s: the same key for two algorithms", w);
        CHECK(!contains(certraw, priv[a]), "%s: the certificate contains the %s private key", w, a.c_str()); CHECK(!contains(keyraw, priv[a]), "%s: the private key file contains the %s private key in clear", w, a.c_str());
    }
    if (q.pass.size() >= 8) CHECK(!contains(certraw, B(q.pass)) && !contains(keyraw, B(q.pass)) && r.out.find(q.pass) == std::string::npos && r.err.find(q.pass) == std::string::npos, "%s: the passphrase is written out", w);
    for (auto &p : wrong) { Noise_PrivateKey *x = 0; int e2 = noise_load_private_key_from_file(&x, kf.c_str(), p.data(), p.size()); bool got = e2 == 0; if (got) Noise_PrivateKey_free(x); CHECKK("loads with another passphrase", !got, "%s: the private key also loads with the passphrase '%s'", w, p.substr(0, 60).c_str()); }
}
static std::vector<std::string> near(const std::string &p, bool many) {
    std::vector<std::string> v; if (!p.empty()) { std::string x = p; x[x.size() - 1] ^= 1; v.push_back(x); } else v.push_back("x");
    if (many) { if (!p.empty()) { v.push_back(p.substr(0, p.size() - 1)); v.push_back(p.substr(1)); std::string x = p; x[0] ^= 0x20; v.push_back(x); v.push_back(""); } v.push_back(p + "x"); v.push_back(p + p + "1"); }
    return v;
}
static void says_why(const Result &r, const std::string &what) { CHECK(r.rc != 0, "%s: exit status 0", what.c_str()); CHECK(!r.err.empty() || r.out.find("Usage") != std::string::npos, "%s: fails without saying why", what.c_str()); }

static Args generate_args(const Args &opts, const std::string &cf, const std::string &kf) { Args a = {"generate"}; a.insert(a.end(), opts.begin(), opts.end()); a.push_back(cf); a.push_back(kf); return a; }
static void add(Args &a, int style, char s, const char *l, const std::string &v) {
    switch (style) { case 0: a.push_back(std::string("-") + s); a.push_back(v); break; case 1: a.push_back(std::string("--") + l + "=" + v); break; case 2: a.push_back(std::string("--") + l); a.push_back(v); break; default: if (v.empty()) { a.push_back(std::string("-") + s); a.push_back(v); } else a.push_back(std::string("-") + s + v); }
}

// Lists of algorithms
static void algorithms() {
    static const char *lists[] = {"25519", "448", "Ed25519", "all", "Bogus", "NewHope", "25519x"};
    static const char *odd[] = {"2551", "255190", "44", "4480", "ed25519", "ED25519", "ALL", "al", "alll", "Curve25519", " 25519", "25519 ", "ChaChaPoly", "AESGCM", "SHA256", "BLAKE2b", "XX", "Noise", "psk", "None", "0", "*", "Ed25519+448", "25519+448", "25519;448", "25519 448", "newhope", "%s%n"};
    static const int NODD = sizeof odd / sizeof *odd;
    int n = choose(6, "length"); std::vector<std::string> l; bool empties = false;
    if (n == 0) { }                                             // no option at all
    else if (n <= 3) for (int i = 0; i < n; i++) l.push_back(pick(lists, "name"));
    else if (n == 4) { int where = choose(3, "position"); std::string o = odd[choose(NODD, "odd name")]; if (where == 0) l = {o}; else if (where == 1) l = {"25519", o}; else l = {o, "448"}; }
    else { static const char *e[] = {"", ",", ",25519", "25519,", "25519,,448", ",,", "all,"}; l = {pick(e, "list")}; empties = true; }
    int style = n == 1 ? choose(4, "style") : n == 5 ? 1 : 0; bool existing = n == 2 ? flag("existing files") : false; shard();
    std::string s; for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + l[i];
    Request q; q.pass = "correct horse"; bool bad = false; std::vector<std::string> items; if (empties) { size_t at = 0; for (;;) { size_t c = s.find(',', at); items.push_back(s.substr(at, c == std::string::npos ? c : c - at)); if (c == std::string::npos) break; at = c + 1; } } else items = l;
    for (auto &x : items) { if (x == "all") { for (auto *a : {"25519", "448", "Ed25519"}) if (std::find(q.algs.begin(), q.algs.end(), a) == q.algs.end()) q.algs.push_back(a); } else if (known(x)) { if (std::find(q.algs.begin(), q.algs.end(), x) == q.algs.end()) q.algs.push_back(x); } else if (x == "NewHope") q.optional_newhope = true; else if (!x.empty()) bad = true; }
    Args o; add(o, 0, 'p', "passphrase", q.pass); if (n) add(o, style, 'a', "algorithms", s);
    Dir d; std::string cf = d.at("cert"), kf = d.at("key"); bytes oldc = B("old certificate"), oldk = B("old key"); if (existing) { spit(cf, oldc); spit(kf, oldk); }
    std::string what = "generate" + show_args(o); Result r = tool(d, generate_args(o, cf, kf), Plan());
    if (bad) { says_why(r, what); CHECK(existing ? slurp(cf) == oldc && slurp(kf) == oldk : !exists(cf) && !exists(kf), "%s: files are written although the request is refused", what.c_str()); outcome("unknown name refused"); }
    else if (r.rc && (empties || q.optional_newhope)) { says_why(r, what); outcome("unspecified list refused"); }
    else { CHECK(r.rc == 0, "%s: exit status %d, %s", what.c_str(), r.rc, r.err.c_str()); if (q.optional_newhope && q.algs.empty()) { outcome("NewHope"); ct::CertO c; CHECK(noise_load_certificate_from_file(c.out(), cf.c_str()) == 0, "%s: the certificate does not load", what.c_str()); } else { files_right(cf, kf, q, r, near(q.pass, false), what); outcome("keys generated"); } }
    distinct(hash_bytes((const uint8_t *)s.data(), s.size(), n * 8 + style + existing));
}
// Options
static void options() {
    static const std::string vals[] = {"", "v", "A long one, with = -- spaces and \xc3\xa9\xe2\x82\xac", std::string(300, 'x'), "-x", std::string(70, 'y')};
    int nv = g().thorough ? 6 : 4; std::optional<std::string> v[3]; for (auto &x : v) { int c = choose(nv + 1, "value"); if (c) x = vals[c - 1]; }
    int style = choose(4, "style"); int order = choose(3, "order"); if (!g().thorough && order != style % 3) skip(); shard();
    Request q; q.id = v[0]; q.name = v[1]; q.role = v[2]; q.pass = "p"; q.algs = {"25519"};
    Args o; auto put = [&](int i) { if (v[i]) add(o, style, "inr"[i], i == 0 ? "id" : i == 1 ? "name" : "role", *v[i]); };
    Dir d; std::string cf = d.at("cert"), kf = d.at("key"); Args a;
    if (order == 0) { put(0); put(1); put(2); add(o, style, 'p', "passphrase", q.pass); add(o, style, 'a', "algorithms", "25519"); a = generate_args(o, cf, kf); }
    else if (order == 1) { add(o, style, 'a', "algorithms", "25519"); add(o, style, 'p', "passphrase", q.pass); put(2); put(1); put(0); o.push_back("--"); a = generate_args(o, cf, kf); }
    else { put(1); add(o, style, 'p', "passphrase", q.pass); a = {"generate", cf, kf}; put(0); add(o, style, 'a', "algorithms", "25519"); put(2); a.insert(a.end(), o.begin(), o.end()); }
    Result r = tool(d, a, Plan()); std::string what = show_args(a); CHECK(r.rc == 0, "%s: exit status %d, %s", what.c_str(), r.rc, r.err.c_str()); files_right(cf, kf, q, r, {}, what); outcome("options"); distinct(hash_bytes((const uint8_t *)what.data(), what.size(), 5));
}
// Passphrases, given and prompted for
static void passphrases() {
    static const size_t lens[] = {0, 1, 2, 8, 63, 64, 65, 127, 128, 129, 130, 255, 256, 1022, 1023, 1024, 1025, 3000}; size_t n = pick(lens, "length"); int how = choose(5, "how"); int fill = n ? choose(3, "content") : 0; shard();
    std::string p(n, 'a'); for (size_t i = 0; i < n; i++) p[i] = fill == 0 ? "abcdefgh"[i % 8] : fill == 1 ? ' ' : (char)(0x80 + i % 127);
    Dir d; std::string cf = d.at("cert"), kf = d.at("key"); Request q; q.pass = p; q.algs = {"Ed25519"}; Args o = {"-a", "Ed25519"}; Plan pl; bool ok = true;
    switch (how) {
    case 0: add(o, 0, 'p', "passphrase", p); break;
    case 1: pl.prompts = {p, p}; break;
    case 2: { std::string x = p; if (n) x[n - 1] ^= 1; else x = "x"; pl.prompts = {p, x}; ok = false; break; }
    case 3: pl.prompts = {p, p + "x"}; ok = false; break;
    case 4: pl.prompts = {p + "x", p}; ok = false; break;
    }
    std::string what = fmt("a passphrase of %zu characters, %s", n, how == 0 ? "given" : how == 1 ? "typed twice" : "typed differently the second time"); Result r = tool(d, generate_args(o, cf, kf), pl);
    if (ok && n >= 1024 && how && r.rc) { says_why(r, what); outcome("too long to prompt for"); }
    else if (ok) { CHECK(r.rc == 0, "%s: exit status %d, %s", what.c_str(), r.rc, r.err.c_str()); files_right(cf, kf, q, r, near(p, true), what); outcome("passphrase"); }
    else { says_why(r, what); CHECK(!exists(cf) && !exists(kf), "%s: files are written", what.c_str()); outcome("prompt refused"); }
    distinct(n * 64 + how * 4 + fill);
}
static void no_prompt() {
    int i = choose(3, "prompt"); int cmd = flag("show"); shard(); Dir d; std::string cf = d.at("cert"), kf = d.at("key"); Plan pl; if (i == 1) pl.prompts = {std::string("secret")}; if (i == 2) pl.prompts = {std::string("secret"), {}};
    if (!cmd) { Result r = tool(d, generate_args({}, cf, kf), pl); says_why(r, "no terminal to prompt on"); CHECK(!exists(cf) && !exists(kf), "no terminal: files are written"); outcome("no terminal"); return; }
    ct::EncKey ek; bytes f = ct::protect(ct::mksubj(1).enc(), B("secret"), "ChaChaPoly_BLAKE2b_PBKDF2", NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2b, 3, pattern(16)); spit(kf, f);
    Result r = tool(d, {"show", kf}, pl); if (i == 0) says_why(r, "no terminal to prompt on"); else { CHECK(r.rc == 0 && r.out.find("Id: id") != std::string::npos, "show with a prompt: status %d, %s", r.rc, r.out.c_str()); } distinct(1000 + i * 2 + cmd);
}
// Paths that cannot be written
static void bad_paths() {
    static const char *kinds[] = {"missing directory", "a directory", "empty name", "too long a name", "below a file", "full device", "good"};
    int a = choose(7, "certificate"), b = choose(7, "key"); shard(); Dir d; std::string f[2]; bool good = true;
    for (int i = 0; i < 2; i++) { std::string n = i ? "key" : "cert"; switch (i ? b : a) {
        case 0: f[i] = d.at("none") + "/" + n; good = false; break; case 1: f[i] = d.at((n + "d").c_str()); mkdir(f[i].c_str(), 0700); good = false; break; case 2: f[i] = ""; good = false; break;
        case 3: f[i] = d.at(std::string(300, 'n').c_str()); good = false; break; case 4: spit(d.at("plain"), B("x")); f[i] = d.at("plain") + "/" + n; good = false; break;
        case 5: f[i] = d.at((n + "full").c_str()); if (symlink("/dev/full", f[i].c_str())) { printf("@error symlink\n"); fflush(stdout); _exit(3); } good = false; break;
        case 6: f[i] = d.at(n.c_str()); break; } }
    Request q; q.pass = "p"; q.algs = {"25519"}; q.id = "me"; Args o = {"-p", "p", "-a", "25519", "-i", "me"}; std::string what = fmt("certificate: %s, key: %s", kinds[a], kinds[b]); Result r = tool(d, generate_args(o, f[0], f[1]), Plan());
    if (good) { CHECK(r.rc == 0, "%s: exit status %d, %s", what.c_str(), r.rc, r.err.c_str()); files_right(f[0], f[1], q, r, {}, what); outcome("good paths"); } else { says_why(r, what); CHECKK("no reason on standard error", !r.err.empty(), "%s: nothing on standard error", what.c_str()); outcome("bad path refused"); }
    distinct(2000 + a * 7 + b);
}
// Everything that can fail while generating
static void faults() {
    static const char *algs[] = {"25519", "Ed25519", "25519,448,Ed25519"}; int ai = choose(3, "algorithms"); int full = flag("identity"); int kind = choose(4, "fault");
    Request q; q.pass = "correct horse"; Args o = {"-p", q.pass, "-a", algs[ai]}; if (ai == 2) q.algs = {"25519", "448", "Ed25519"}; else q.algs = {algs[ai]}; if (full) { q.id = "me@here"; q.name = "Me"; q.role = "tester"; for (auto &x : {std::pair<const char *, const char *>{"-i", "me@here"}, {"-n", "Me"}, {"-r", "tester"}}) { o.push_back(x.first); o.push_back(x.second); } }
    static std::map<int, Shared> sizes; int key = ai * 2 + full; if (!sizes.count(key)) { Dir d; Plan p; p.alloc_on = p.io_on = true; Result r = tool(d, generate_args(o, d.at("cert"), d.at("key")), p); CHECK(r.rc == 0, "generate without faults: status %d, %s", r.rc, r.err.c_str()); sizes[key] = r.s; }
    Shared s = sizes[key]; Plan p; p.alloc_on = p.io_on = true; long at = 0;
    switch (kind) {
    case 0: { if (s.allocs < 1) skip(); at = choose((int)s.allocs, "allocation"); p.fail_alloc = at; break; }
    case 1: if (s.opens < 1) skip(); at = choose((int)s.opens, "open"); p.fail_open = at; break;
    case 2: { if (s.written < 1) skip(); int step = g().thorough ? 1 : 7; at = choose((int)(s.written / step + 1), "bytes") * step; if (at >= s.written) skip(); p.write_limit = at; break; }
    case 3: if (s.opens < 1) skip(); at = choose((int)s.opens, "close"); p.fail_close = at; break;
    }
    if (!g().thorough && full && ai == 1) skip();
    shard(); Dir d; std::string cf = d.at("cert"), kf = d.at("key"); Result r = tool(d, generate_args(o, cf, kf), p); static const char *kn[] = {"allocation", "opening file", "writing after byte", "closing file"}; std::string what = fmt("%s %ld fails%s", kn[kind], at, show_args(o).c_str());
    if (r.rc) { says_why(r, what); CHECKK("no reason on standard error", !r.err.empty(), "%s: nothing on standard error", what.c_str()); outcome(std::string(kn[kind]) + " fails: reported"); }
    else { files_right(cf, kf, q, r, {}, what); outcome(std::string(kn[kind]) + (r.s.failed ? " fails: not needed" : ": not reached")); }
    distinct(mix(3000 + key * 4 + kind, at));
}
// Wrong ways of calling it
static void usage() {
    static const Args cases[] = {{}, {"generate"}, {"generate", "c"}, {"generate", "c", "k", "x"}, {"generate", "-p", "p"}, {"generate", "-p", "p", "c"}, {"generate", "-p", "p", "c", "k", "extra"}, {"generate", "-p"}, {"generate", "c", "k", "-p"}, {"generate", "-z", "c", "k"}, {"generate", "--unknown", "c", "k"}, {"generate", "--unknown=x", "-p", "p", "c", "k"}, {"generate", "-p", "p", "-q", "c", "k"}, {"generate", "-p", "p", "--algorithms"}, {"bogus"}, {"Generate", "-p", "p", "c", "k"}, {"show"}, {"show", "-p"}, {"show", "-z", "f"}, {"show", "--nothing", "f"}, {"help"}, {"help", "bogus"}, {"gen", "-p", "p", "c", "k"}, {"-p", "p", "c", "k"}};
    int i = choose((int)(sizeof cases / sizeof *cases) + 3, "case"); shard(); Dir d; int n = sizeof cases / sizeof *cases;
    if (i >= n) { static const char *h[] = {"generate", "show", "sign"}; Result r = tool(d, {"help", h[i - n]}, Plan()); CHECK(r.rc == 0 && r.out.find("Usage") != std::string::npos && r.out.find(h[i - n]) != std::string::npos, "help %s: status %d, %s", h[i - n], r.rc, r.out.c_str()); if (i == n) for (auto *w : {"--id", "--name", "--role", "--algorithms", "--passphrase", "25519", "448", "Ed25519"}) CHECK(r.out.find(w) != std::string::npos, "the help does not mention %s", w); outcome("help"); distinct(4000 + i); return; }
    Args a = cases[i]; for (auto &x : a) if (x == "c" || x == "k" || x == "f" || x == "x" || x == "extra") x = d.at(x.c_str());
    Plan p; p.prompts = {std::string("p"), std::string("p")}; Result r = tool(d, a, p); says_why(r, show_args(a)); for (auto *x : {"c", "k", "f", "x", "extra"}) CHECK(!exists(d.at(x)), "%s: writes a file", show_args(a).c_str()); outcome("usage refused"); distinct(4000 + i);
}

// ---------------------------------------------------------------- show
static std::string str(const ct::OB &o) { return o ? std::string((const char *)o->data(), o->size()) : ""; }
static std::string fingerprint(const bytes &pub, bool full) { bytes h = rc::hash(NOISE_HASH_SHA256, pub); std::string s; for (size_t i = 0; i < (full ? 32u : 16u); i++) s += (i ? ":" : "") + fmt("%02x", h[i]); return s; }
static void subject_lines(std::string &o, const ct::Subj &s, bool full, bool priv) {
    if (s.id) o += "Id: " + str(s.id) + "\n"; if (s.name) o += "Name: " + str(s.name) + "\n"; if (s.role) o += "Role: " + str(s.role) + "\n";
    for (auto &k : s.keys) { std::string a = k.alg ? str(k.alg) : "Unknown"; o += "Public-Key-" + a + ": "; if (!k.key || k.key->empty()) o += "Not-Specified"; else if (!priv) o += fingerprint(*k.key, full); else { int id = known(a); size_t n = id == NOISE_DH_CURVE448 ? 56 : 32; if (!id || k.key->size() != n) o += "Unknown"; else o += fingerprint(public_of(a, *k.key), full); } o += "\n"; }
    for (auto &m : s.meta) o += "Meta: " + (m.name ? str(m.name) : std::string("Unknown")) + "=" + str(m.value) + "\n";
}
static std::string cert_lines(const ct::Cert &c, bool full) { std::string o = fmt("Version: %u\n", c.version); if (c.subject) subject_lines(o, *c.subject, full, false); return o; }
struct Shown { bytes file; std::string text; bool ok; };
static const std::vector<size_t> KEY_LENS = [] { std::vector<size_t> v; for (size_t n = 0; n <= 70; n++) v.push_back(n); for (size_t n : {71, 96, 100, 112, 114, 127, 128, 129, 255, 256, 257, 1024, 1792, 1824, 2048, 2049, 5000, 14000}) v.push_back(n); return v; }();
static const std::vector<size_t> TEXT_LENS = {1, 2, 15, 16, 31, 32, 63, 64, 65, 79, 80, 100, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8000, 9000};
static const std::vector<size_t> COUNTS = {3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129, 257};
static ct::Subj subj_of(int i) {
    ct::Subj s; if (i & 1) s.id = ct::S("someone@example.com"); if (i & 2) s.name = ct::S("Someone \xc3\xa9"); if (i & 4) s.role = ct::S("");
    static const char *as[] = {"25519", "448", "Ed25519", "Other"}; if (i & 8) for (int k = 0; k < 4; k++) { ct::Key x; x.alg = ct::S(as[k]); x.key = pattern(k == 1 ? 56 : 32, (uint8_t)(k * 31 + 5)); s.keys.push_back(x); }
    if (i & 16) { ct::Key x; x.key = pattern(32, 9); s.keys.push_back(x); x.key = {}; x.alg = ct::S("25519"); s.keys.push_back(x); x.key = bytes(); s.keys.push_back(x); x.key = pattern(31); s.keys.push_back(x); x.key = pattern(33); x.alg = ct::S("Ed25519"); s.keys.push_back(x); }
    if (i & 32) { ct::Meta m; m.name = ct::S("mail"); m.value = ct::S("a@b"); s.meta.push_back(m); m.value = {}; s.meta.push_back(m); m.name = {}; m.value = ct::S("v"); s.meta.push_back(m); m.name = ct::S(""); m.value = ct::S(""); s.meta.push_back(m); }
    return s;
}
static const char *PROTS[] = {"ChaChaPoly_BLAKE2b_PBKDF2", "AESGCM_SHA256_PBKDF2"};
static void fill_up(ct::Cert &c, size_t total) {
    for (;;) {
        size_t left = total - c.enc().size(); if (!left) return; ct::Sig x;
        for (size_t n = left > 2500 ? 1000 : left > 1300 ? 600 : left; ; n--) { x.sig = bytes(n, 's'); if (ct::pb::delim(3, x.enc()).size() <= left) break; }
        c.sigs.push_back(x);
    }
}
static Shown shown(int type, int subset, bool full, const std::string &pass, bool right) {
    Shown r; r.ok = true; ct::Subj s = subj_of(subset);
    switch (type) {
    case 0: { ct::Cert c; c.version = subset % 3; c.subject = s; if (subset & 1) c.sigs.push_back(ct::mksig(2)); r.file = c.enc(); r.text = cert_lines(c, full); break; }
    case 1: { ct::Chain h; for (int k = 0; k < 1 + subset % 3; k++) { ct::Cert c; c.version = 1 + k; c.subject = subj_of((subset + k * 7) % 64); h.certs.push_back(c); } r.file = h.enc(); for (size_t k = 0; k < h.certs.size(); k++) r.text += (k ? "--------\n" : "") + cert_lines(h.certs[k], full); break; }
    case 2: { r.file = ct::protect(s.enc(), B(right ? pass : pass + "?"), PROTS[subset & 1], subset & 1 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY, subset & 1 ? NOISE_HASH_SHA256 : NOISE_HASH_BLAKE2b, 3, pattern(16, (uint8_t)subset)); if (right) subject_lines(r.text, s, full, true); else r.ok = false; break; }
    case 3: r.file = bytes(); r.ok = false; break;                                      // empty file
    case 4: { ct::Cert c = ct::mkcert(1); r.file = c.enc(); r.file.pop_back(); r.ok = false; break; }
    case 5: { ct::Cert c = ct::mkcert(2); c.subject->name = bytes(70000, 'n'); r.file = c.enc(); r.ok = false; break; }   // longer than any certificate may be
    case 8: case 9: case 10: {                                                          // keys and texts of every length, many of them; as a certificate, in a chain, in a private key
        int form = subset % 3, i = subset / 3; s = ct::Subj();
        if (type == 8) { static const char *as[] = {"25519", "448", "Ed25519", "Other"}; for (int k = 0; k < 4; k++) { ct::Key x; x.alg = ct::S(as[k]); x.key = pattern(KEY_LENS[i], (uint8_t)(k * 31 + 5)); s.keys.push_back(x); } }
        if (type == 9) { size_t n = TEXT_LENS[i]; s.id = bytes(n, 'i'); s.name = bytes(n, 'n'); s.role = bytes(n, 'r'); ct::Key x; x.alg = bytes(n, 'a'); x.key = pattern(32); s.keys.push_back(x); ct::Meta m; m.name = bytes(n, 'm'); m.value = bytes(n, 'v'); s.meta.push_back(m); }
        if (type == 10) { size_t n = COUNTS[i]; for (size_t k = 0; k < n; k++) { ct::Key x; x.alg = ct::S(k % 3 ? "25519" : "Other"); x.key = pattern(32, (uint8_t)k); s.keys.push_back(x); ct::Meta m; m.name = ct::S(fmt("m%zu", k).c_str()); m.value = ct::S(fmt("v%zu", k).c_str()); s.meta.push_back(m); } }
        ct::Cert c; c.version = 1; c.subject = s;
        if (form == 0) { r.file = c.enc(); r.text = cert_lines(c, full); }
        else if (form == 1) { ct::Chain h; for (size_t k = 0; k < (type == 10 ? COUNTS[i] : 2); k++) { h.certs.push_back(k ? ct::mkcert(1) : c); } r.file = h.enc(); for (size_t k = 0; k < h.certs.size(); k++) r.text += (k ? "--------\n" : "") + cert_lines(h.certs[k], full); }
        else { r.file = ct::protect(s.enc(), B(right ? pass : pass + "?"), PROTS[0], NOISE_CIPHER_CHACHAPOLY, NOISE_HASH_BLAKE2b, 3, pattern(16)); if (right) subject_lines(r.text, s, full, true); else r.ok = false; }
        break; }
    case 6: case 7: { ct::Cert c; c.version = 1; c.subject = s; fill_up(c, 65535); if (type == 6) r.text = cert_lines(c, full); else { ct::Sig x; x.sig = B("s"); c.sigs.push_back(x); r.ok = false; } r.file = c.enc(); break; }   // the longest file; one with an element more than that
    }
    return r;
}
static void show() {
    int type = choose(11, "file"); int subset = type < 3 ? choose(64, "fields") : type == 6 ? choose(4, "fields") : type > 7 ? choose(3 * (int)(type == 8 ? KEY_LENS : type == 9 ? TEXT_LENS : COUNTS).size(), "fields") : 0; int how = type > 7 ? choose(2, "options") : choose(4, "options"); int right = type == 2 ? 1 - choose(2, "wrong passphrase") : 1; shard();
    if (type == 2 && !right && how != 0) skip();
    bool full = how & 1; std::string pass = subset & 2 ? "pass" : std::string(200, 'p'); Shown s = shown(type, subset, full, pass, right); Dir d; std::string f = d.at("file"); spit(f, s.file);
    Args a = {"show"}; if (how == 1) a.push_back("-F"); if (how == 2) a.push_back("--basic-fingerprint"); if (how == 3) { a.push_back("-f"); a.push_back("--full-fingerprint"); } Plan p; p.io_on = type > 7 ? false : flag("cookie"); if (subset & 4) { a.push_back("-p"); a.push_back(pass); } else p.prompts = {pass}; a.push_back(f);
    Result r = tool(d, a, p); std::string what = fmt("show of a file of type %d, fields %d%s", type, subset, show_args(a).c_str());
    if (s.ok) { CHECK(r.rc == 0, "%s: exit status %d, %s", what.c_str(), r.rc, r.err.c_str()); CHECK(r.out == s.text, "%s: shows\n%s\ninstead of\n%s", what.c_str(), r.out.c_str(), s.text.c_str()); outcome("shown"); } else { says_why(r, what); CHECK(r.out.empty(), "%s: shows %s", what.c_str(), r.out.c_str()); outcome("not shown"); }
    CHECK(slurp(f) == s.file, "%s: the file changed", what.c_str()); distinct(mix(5000 + type, subset * 8 + how * 2 + right));
}
// Several files, some of which cannot be shown; read errors at every byte
static void show_many() {
    int n = 2 + choose(2, "files"); std::vector<int> t; for (int i = 0; i < n; i++) t.push_back(choose(5, "file")); shard(); Dir d; Args a = {"show", "-p", "pass"}; std::string text; bool ok = true; bool any_bad = false;
    for (int i = 0; i < n; i++) { std::string f = d.at(fmt("f%d", i).c_str()); a.push_back(f); if (t[i] == 4) { ok = false; any_bad = true; continue; } Shown s = shown(t[i], 9 + i, false, "pass", true); spit(f, s.file); if (!s.ok) { ok = false; any_bad = true; continue; } text += "--------\n" + f + ":\n" + s.text; }
    Result r = tool(d, a, Plan()); std::string what = show_args(a); CHECK((r.rc == 0) == ok, "%s: exit status %d", what.c_str(), r.rc); CHECK(r.out == text, "%s: shows\n%s\ninstead of\n%s", what.c_str(), r.out.c_str(), text.c_str()); if (any_bad) CHECK(!r.err.empty(), "%s: fails without saying why", what.c_str()); outcome("several files"); distinct(mix(6000, hash_bytes((const uint8_t *)t.data(), t.size() * sizeof(int), n)));
}
static void show_faults() {
    int type = choose(3, "file"); Shown s = shown(type, 63, false, "pass", true); int step = g().thorough ? 1 : 5; int at = choose((int)s.file.size() / step + 1, "byte") * step; if (at > (int)s.file.size()) skip(); shard(); Dir d; std::string f = d.at("file"); spit(f, s.file); Plan p; p.io_on = true; p.read_limit = at;
    Result r = tool(d, {"show", "-p", "pass", f}, p); std::string what = fmt("show of a file of type %d, unreadable from byte %d of %zu", type, at, s.file.size());
    if (r.s.failed) { says_why(r, what); CHECK(r.out.empty(), "%s: shows %s", what.c_str(), r.out.c_str()); outcome("read error"); } else { CHECK(r.rc == 0 && r.out == s.text, "%s: status %d", what.c_str(), r.rc); outcome("not reached"); } distinct(mix(7000 + type, at));
}
// What generate writes is what show shows; other random numbers give other keys.
static void round_trip() {
    int alg = choose(4, "algorithms"); int full = flag("full"); int ident = flag("identity"); shard(); static const char *as[] = {"25519", "448", "Ed25519", "all"}; Dir d; Args o = {"-p", "pp", "-a", as[alg]}; if (ident) { o.push_back("-i"); o.push_back("me"); o.push_back("-r"); o.push_back("r"); } bytes first;
    for (int run = 0; run < 2; run++) {
        std::string cf = d.at(run ? "c2" : "c1"), kf = d.at(run ? "k2" : "k1"); Result g = tool(d, generate_args(o, cf, kf), Plan(), 100 + run); CHECK(g.rc == 0, "generate: %d", g.rc);
        ct::CertO c; CHECK(noise_load_certificate_from_file(c.out(), cf.c_str()) == 0, "certificate"); ct::Cert C = ct::get(c.p); bytes all; for (auto &k : C.subject->keys) all = all + *k.key; if (run && g.s.rand_calls) CHECK(all != first, "two runs generate the same keys"); first = all;
        std::string body; subject_lines(body, *C.subject, full, false); Args a = {"show", "-p", "pp"}; if (full) a.push_back("-F"); a.push_back(cf); a.push_back(kf); Result r = tool(d, a, Plan()); std::string want = "--------\n" + cf + ":\nVersion: 1\n" + body + "--------\n" + kf + ":\n" + body; CHECK(r.rc == 0 && r.out == want, "show of generated files (status %d): %s\ninstead of\n%s", r.rc, r.out.c_str(), want.c_str());
        Result w = tool(d, {"show", "-p", "pP", kf}, Plan()); says_why(w, "show with another passphrase"); CHECK(w.out.empty(), "show with another passphrase shows %s", w.out.c_str());
    }
    outcome("round trip"); distinct(8000 + alg * 4 + full * 2 + ident);
}
static void body() {
    switch (choose(10, "part")) { case 0: algorithms(); break; case 1: options(); break; case 2: passphrases(); break; case 3: no_prompt(); break; case 4: bad_paths(); break; case 5: faults(); break; case 6: usage(); break; case 7: show(); break; case 8: show_many(); break; case 9: { int w = choose(2, "which"); if (w) show_faults(); else round_trip(); break; } }
}
static void setup() { rng::install(); sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
VH_MAIN2(body, setup)
