// C31: the schema compiler, run as a whole program in a child process per execution, against an independent reader of its language.
#include "common/alloc.hpp"
#include "common/vh.hpp"
#include <memory>
#include <map>
#include <set>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <getopt.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace vh;
extern "C" int pc_main(int, char **);
typedef std::string str;

// ---------------------------------------------------------------- the language
struct Bad { str why; };
struct Tok { char k; str s; uint64_t n = 0; bool big = false, zero = false; size_t end = 0, at = 0; };   // k: w word, n number, s string, otherwise the character
struct Lexed { std::vector<Tok> t; bool any = false, either = false; };
static bool letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(int c) { return c >= '0' && c <= '9'; }
static Lexed lex(const str &f) {
    Lexed r; size_t i = 0, n = f.size();
    while (i < n) {
        unsigned char c = f[i]; Tok t; t.at = i;
        if (c == ' ' || c == '\t' || c == '\v' || c == '\r' || c == '\n') { i++; continue; }
        if (c == '\f') { r.any = true; i++; continue; }                                     // a form feed may be white space or not
        if (c == '/' && i + 1 < n && f[i + 1] == '/') { while (i < n && f[i] != '\n') i++; continue; }
        if (letter(c)) { while (i < n && (letter(f[i]) || digit(f[i]) || f[i] == '_')) t.s += f[i++]; t.k = 'w'; }
        else if (digit(c)) {
            while (i < n && digit(f[i])) { unsigned __int128 v = (unsigned __int128)t.n * 10 + (f[i] - '0'); if (v >> 64) t.big = true; t.n = (uint64_t)v; t.s += f[i++]; }
            t.k = 'n'; t.zero = t.s.size() > 1 && t.s[0] == '0';
        } else if (c == '"') {
            size_t j = i + 1; while (j < n && f[j] != '"' && f[j] != '\n') j++;
            if (j < n && f[j] == '"') { t.k = 's'; t.s = f.substr(i + 1, j - i - 1); i = j + 1; for (char x : t.s) if (x == '\\' || !x) r.any = true; }
            else { t.k = '"'; i++; }
        } else { if (c == '\'' || (c == '/' && i + 1 < n && f[i + 1] == '*')) r.any = true; t.k = 1; t.s = str(1, (char)c); if (strchr("=;{}[]<>,.", c) && c) t.k = (char)c; i++; }
        t.end = i;
        if (t.k == 'w' && !r.t.empty() && r.t.back().k == 'n' && r.t.back().end == t.at) r.either = true;   // 1to: a gap may be asked for
        if (t.k == 'n' && t.zero) r.any = true;                                            // a leading zero may mean octal
        r.t.push_back(t);
    }
    return r;
}
static const std::set<str> keywords = {"syntax", "message", "repeated", "required", "optional", "reserved", "to", "enum", "option", "import", "public", "map", "package", "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "true", "false"};
static const std::set<str> scalars = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"};
static const std::set<str> creserved = {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long", "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while"};
struct Field { str qual, type, name; uint64_t tag; int pack = -1; bool badpack = false, scalar = false; str full; bool is_enum = false; };
struct Decl { bool msg; str name, full; std::vector<Field> f; std::vector<std::pair<str, uint64_t>> v; std::vector<std::unique_ptr<Decl>> kids; std::vector<std::pair<uint64_t, uint64_t>> rnum; std::vector<str> rname; };
struct Schema { str pkg; std::vector<std::unique_ptr<Decl>> d; bool either = false, any = false; };
struct Parser {
    std::vector<Tok> t; size_t i = 0; Schema s; bool decls = false; int depth = 0;
    const Tok &cur() { static Tok e; e.k = 0; return i < t.size() ? t[i] : e; }
    bool is(char k) { return cur().k == k; }
    bool kw(const char *w) { return cur().k == 'w' && cur().s == w; }
    [[noreturn]] void bad(const char *w) { throw Bad{w}; }
    void need(char k) { if (!is(k)) bad("unexpected token"); i++; }
    void needw(const char *w) { if (!kw(w)) bad("unexpected token"); i++; }
    str ident() { if (cur().k != 'w' || keywords.count(cur().s)) bad("not an identifier"); return t[i++].s; }
    str qname() { str n = ident(); while (is('.')) { i++; n += "." + ident(); } return n; }
    uint64_t tag() { if (!is('n')) bad("not a number"); Tok x = t[i++]; if (x.big || x.n < 1 || x.n > 536870911 || (x.n >= 19000 && x.n <= 19999)) bad("tag number"); return x.n; }
    struct Opt { str name; char k = 0; str v; };
    Opt optval(const str &n) { Opt o; o.name = n; const Tok &x = cur(); if (x.k == 'n') o.k = 'n'; else if (x.k == 's') o.k = 's'; else if (x.k == 'w' && (x.s == "true" || x.s == "false")) o.k = 'b'; else if (x.k == 'w' && !keywords.count(x.s)) o.k = 'i'; else bad("not an option value"); o.v = x.s; i++; return o; }
    void option() { needw("option"); str n = ident(); need('='); optval(n); need(';'); }
    void reserved(Decl &d) {
        needw("reserved");
        if (is('s')) { for (;;) { if (!is('s')) bad("not a string"); d.rname.push_back(t[i++].s); if (!is(',')) break; i++; } }
        else for (;;) { uint64_t a = tag(), b = a; if (kw("to")) { i++; b = tag(); } d.rnum.push_back({a, b}); if (b < a) s.either = true; if (!is(',')) break; i++; }
        need(';');
    }
    void type(Field &f) {
        if (kw("map")) bad("maps are not supported");
        if (cur().k == 'w' && scalars.count(cur().s)) { f.type = t[i++].s; f.scalar = true; } else f.type = qname();
    }
    void field(Decl &d) {
        Field f; if (kw("repeated") || kw("required") || kw("optional")) f.qual = t[i++].s; if (f.qual == "optional") f.qual = "";
        type(f); f.name = ident(); need('='); f.tag = tag();
        if (is('[')) { i++; str n = ident(); need('='); Opt o = optval(n); need(']'); if (n == "packed") { if (o.k != 'b') f.badpack = true; else f.pack = o.v == "true"; if (f.qual != "repeated") s.either = true; } }
        need(';'); d.f.push_back(f);
    }
    std::unique_ptr<Decl> message(const str &parent) {
        if (++depth > 400) s.either = true;
        std::unique_ptr<Decl> d(new Decl); d->msg = true; needw("message"); d->name = ident(); d->full = parent.empty() ? d->name : parent + "." + d->name; need('{');
        while (!is('}')) { if (kw("message")) d->kids.push_back(message(d->full)); else if (kw("enum")) d->kids.push_back(enumeration(d->full)); else if (kw("option")) option(); else if (kw("reserved")) reserved(*d); else field(*d); }
        i++; depth--; return d;
    }
    std::unique_ptr<Decl> enumeration(const str &parent) {
        std::unique_ptr<Decl> d(new Decl); d->msg = false; needw("enum"); d->name = ident(); d->full = parent.empty() ? d->name : parent + "." + d->name; need('{');
        while (!is('}')) {
            if (kw("option")) { option(); continue; }
            str n = ident(); need('='); if (!is('n')) bad("not a number"); Tok x = t[i++]; need(';');
            if (x.big) s.any = true; else if (x.n > 2147483647) s.either = true; if (d->v.empty() && x.n) s.either = true; for (auto &p : d->v) if (p.second == x.n) s.either = true;
            d->v.push_back({n, x.n});
        }
        i++; return d;
    }
    void file() {
        if (kw("syntax")) { i++; need('='); if (!is('s')) bad("not a string"); if (t[i].s != "proto3") bad("syntax"); i++; need(';'); }
        while (kw("import")) { i++; if (kw("public")) i++; need('s'); need(';'); }
        bool pkg = false;
        while (i < t.size()) {
            if (kw("message")) { s.d.push_back(message(s.pkg)); decls = true; } else if (kw("enum")) { s.d.push_back(enumeration(s.pkg)); decls = true; } else if (kw("option")) option();
            else if (kw("package")) { i++; str n = qname(); need(';'); if (pkg) bad("two packages"); pkg = true; s.pkg = n; if (decls) s.any = true; }   // a late package may apply to what precedes it
            else bad("not a declaration");
        }
    }
};
typedef std::map<str, const Decl *> Names;
static void names(const Decl &d, Names &n, std::set<str> &cn, Schema &s) {
    if (!n.insert({d.full, &d}).second) throw Bad{"declared twice"};
    str c = d.full; for (char &x : c) if (x == '.') x = '_'; if (!cn.insert(c).second) s.any = true;             // names that collide only in C
    for (auto &k : d.kids) names(*k, n, cn, s);
}
static bool packable(const Field &f) { return f.scalar && f.type != "string" && f.type != "bytes"; }
static str resolve(const Names &n, str scope, const str &name) { for (;;) { str t = scope.empty() ? name : scope + "." + name; if (n.count(t)) return t; if (scope.empty()) return ""; size_t p = scope.rfind('.'); scope = p == str::npos ? "" : scope.substr(0, p); } }
static void check_decl(Decl &d, const Names &n, Schema &s) {
    if (d.msg) {
        if (creserved.count(d.full)) throw Bad{"reserved word"};
        if (d.f.empty()) throw Bad{"empty message"};
        std::set<str> fn; std::set<uint64_t> ft;
        for (auto &f : d.f) {
            if (creserved.count(f.name)) throw Bad{"reserved word"};
            if (!fn.insert(f.name).second) throw Bad{"field declared twice"}; if (!ft.insert(f.tag).second) throw Bad{"tag used twice"};
            if (f.badpack) throw Bad{"packed needs a boolean"};
            for (auto &r : d.rnum) if (f.tag >= r.first && f.tag <= r.second) s.either = true; for (auto &r : d.rname) if (r == f.name) s.either = true;
            if (!f.scalar) { f.full = resolve(n, d.full, f.type); if (f.full.empty()) throw Bad{"unknown type"}; f.is_enum = !n.at(f.full)->msg; }
            if (f.qual == "repeated" && f.pack == 1 && !packable(f) && !f.is_enum) throw Bad{"cannot be packed"};
        }
    } else { if (d.v.empty()) throw Bad{"empty enum"}; std::set<str> vn; for (auto &v : d.v) if (!vn.insert(v.first).second) throw Bad{"constant declared twice"}; }
    for (auto &k : d.kids) check_decl(*k, n, s);
}
// The same declarations written in one fixed way; meaning: only what the generated code can depend on.
static str mangled(str s) { for (char &x : s) if (x == '.') x = '_'; return s; }
static void print(const Decl &d, const Names &n, str &o, bool meaning, bool want_msg = true) {
    if (meaning && d.msg != want_msg) { for (auto &k : d.kids) print(*k, n, o, true, want_msg); return; }
    o += d.msg ? "message " : "enum "; o += (meaning ? mangled(d.full) : d.name) + " {\n";
    for (auto &v : d.v) o += v.first + " = " + std::to_string(v.second) + ";\n";
    std::vector<const Field *> fs; for (auto &f : d.f) fs.push_back(&f); std::sort(fs.begin(), fs.end(), [](const Field *a, const Field *b) { return a->tag < b->tag; });
    for (auto *f : fs) {
        bool rep = f->qual == "repeated", can = packable(*f) || f->is_enum; str t = f->scalar ? f->type : resolve(n, d.full, f->full) == f->full ? f->full : f->type;
        if (meaning && f->is_enum) t = "int32"; if (meaning && !f->scalar && !f->is_enum) t = mangled(f->full);
        o += (f->qual.empty() ? "" : f->qual + " ") + t + " " + f->name + " = " + std::to_string(f->tag) + (rep && can && f->pack == 0 ? " [packed = false]" : "") + ";\n";
    }
    if (meaning) o += "}\n";
    for (auto &k : d.kids) print(*k, n, o, meaning, want_msg);
    if (!meaning) o += "}\n";
}
enum Verdict { VALID, INVALID, EITHER, ANY };
struct Read { Verdict v; str why, canon, key; };
static Read read_schema(const str &text) {
    Read r; Lexed l = lex(text); Parser p; p.t = l.t; bool ok = true;
    try {
        p.file(); Names n; std::set<str> cn; for (auto &d : p.s.d) names(*d, n, cn, p.s); for (auto &d : p.s.d) check_decl(*d, n, p.s);
        r.canon = "syntax = \"proto3\";\n"; if (!p.s.pkg.empty()) r.canon += "package " + p.s.pkg + ";\n"; if (p.s.d.empty()) r.canon = "syntax = \"proto3\";\n";
        for (auto &d : p.s.d) print(*d, n, r.canon, false);
        for (int m = 1; m >= 0; m--) for (auto &d : p.s.d) print(*d, n, r.key, true, m);
    } catch (Bad &b) { ok = false; r.why = b.why; }
    r.v = l.any || p.s.any ? ANY : !ok ? INVALID : l.either || p.s.either ? EITHER : VALID; return r;
}

// ---------------------------------------------------------------- running the program
struct Shared { long allocs, opens, reads, failed, closes; };
static Shared *sh; static bool in_child;
struct Plan { long fail_alloc = -1, fail_open = -1, fail_close = -1, read_limit = -1, size_limit = -1; bool alloc_on = false, io_on = false; str read_file; };
static Plan plan;
struct Cookie { int fd; bool lim; };
static ssize_t c_read(void *c, char *b, size_t n) { Cookie *k = (Cookie *)c; if (k->lim) { off_t at = lseek(k->fd, 0, SEEK_CUR); if (at >= plan.read_limit) { sh->failed++; errno = EIO; return -1; } if ((long)n > plan.read_limit - at) n = plan.read_limit - at; } return read(k->fd, b, n); }
static ssize_t c_write(void *c, const char *b, size_t n) { ssize_t r = write(((Cookie *)c)->fd, b, n); return r < 0 ? 0 : r; }
static int c_seek(void *c, off64_t *o, int w) { off_t r = lseek(((Cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *c) { Cookie *k = (Cookie *)c; close(k->fd); ::operator delete(k); if (sh->closes++ == plan.fail_close) { sh->failed++; errno = EIO; return -1; } return 0; }
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *f, const char *m) {
    if (!in_child || !plan.io_on) return __real_fopen(f, m);
    if (sh->opens++ == plan.fail_open) { sh->failed++; errno = EACCES; return 0; }
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = open(f, fl, 0600); if (fd < 0) return 0;
    Cookie *k = (Cookie *)::operator new(sizeof(Cookie)); k->fd = fd; k->lim = plan.read_limit >= 0 && strlen(f) >= plan.read_file.size() && plan.read_file == f + strlen(f) - plan.read_file.size(); cookie_io_functions_t fn = {c_read, c_write, c_seek, c_close};
    bool was = al::a().on; al::a().on = false; FILE *r = fopencookie(k, m, fn); al::a().on = was; return r;
}
static bool exists(const str &f) { struct stat st; return lstat(f.c_str(), &st) == 0; }
static str slurp(const str &f) { str b; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return b; char t[65536]; ssize_t n; while ((n = read(fd, t, sizeof t)) > 0) b.append(t, n); close(fd); return b; }
static void spit(const str &f, const str &b) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || b.size() != (size_t)write(fd, b.data(), b.size())) { printf("@error cannot write %s\n", f.c_str()); fflush(stdout); _exit(3); } close(fd); }
static str dir;
static str at(const str &n) { return dir + "/" + n; }
static void wipe() { if (DIR *p = opendir(dir.c_str())) { while (dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { str f = at(e->d_name); struct stat st; if (!lstat(f.c_str(), &st)) { if (S_ISDIR(st.st_mode)) rmdir(f.c_str()); else unlink(f.c_str()); } } closedir(p); } }
struct Result { int rc = -1; str err; Shared s; };
static Result run(const std::vector<str> &args, const Plan &p = Plan()) {
    static int efd = -1, erd = -1; static pid_t owner; if (owner != getpid()) { int e[2]; if (pipe(e)) { printf("@error pipe\n"); fflush(stdout); _exit(3); } erd = e[0]; efd = e[1]; fcntl(erd, F_SETFL, O_NONBLOCK); fcntl(erd, F_SETPIPE_SZ, 1 << 20); owner = getpid(); }
    memset(sh, 0, sizeof *sh); fflush(stdout); op();
    pid_t pid = fork(); if (pid < 0) { printf("@error fork\n"); fflush(stdout); _exit(3); }
    if (!pid) {
        alarm(30); int z = open("/dev/null", O_RDWR); if (z < 0) _exit(96); dup2(z, 0); dup2(z, 1); dup2(efd, 2); if (chdir(dir.c_str())) _exit(96);
        std::vector<str> a = {"noise-protoc"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(0);
        plan = p; in_child = true; optind = 1;
        if (p.size_limit >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)p.size_limit, (rlim_t)p.size_limit}; setrlimit(RLIMIT_FSIZE, &l); }
        if (p.alloc_on) { al::start(); al::a().fail_at = p.fail_alloc; }
        int rc = pc_main((int)a.size(), v.data());
        sh->allocs = al::a().serial; if (p.alloc_on) sh->failed += al::a().failed; al::stop(); fflush(0); _exit(rc);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r; char eb[65536]; ssize_t n; while ((n = read(erd, eb, sizeof eb)) > 0) r.err.append(eb, n); r.s = *sh;
    bool san = strstr(r.err.c_str(), "Sanitizer") || strstr(r.err.c_str(), "runtime error:");
    CHECKK("the schema compiler crashes", WIFEXITED(st) && !san, "noise-protoc died: %s %d: %s", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), r.err.substr(0, 500).c_str());
    r.rc = WEXITSTATUS(st); return r;
}
struct Out { bool c, h; str ct, ht; };
static Out outputs(const str &c = "o.c", const str &h = "o.h") { Out o; o.c = exists(at(c)); o.h = exists(at(h)); if (o.c) o.ct = slurp(at(c)); if (o.h) o.ht = slurp(at(h)); return o; }
static void clean_out() { unlink(at("o.c").c_str()); unlink(at("o.h").c_str()); }
static const std::vector<str> STD = {"-c", "o.c", "-h", "o.h", "s.proto"};
static str show(const str &t) { str o; for (unsigned char c : t) { if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += (char)c; } return o.size() > 700 ? o.substr(0, 700) + "..." : o; }

static std::map<uint64_t, uint64_t> of_canon;                  // canonical text -> generated code
static std::map<uint64_t, uint64_t> of_code;                   // generated code -> meaning
static uint64_t hs(const str &s) { return hash_bytes(s.data(), s.size()); }
static uint64_t code(const Out &o) { return hs(o.ct + str(1, 0) + o.ht); }
static void judge(const str &text, const str &what) {
    Read r = read_schema(text); spit(at("s.proto"), text); clean_out(); Result x = run(STD); Out o = outputs(); const char *w = what.c_str();
    distinct(hs(text));
    if (x.rc) {
        CHECKK("a schema is refused without a message", !x.err.empty(), "%s: refused without a message: %s", w, show(text).c_str());
        CHECKK("a refused schema leaves output", !o.c && !o.h, "%s: a refused schema leaves output files: %s", w, show(text).c_str());
        CHECKK("a valid schema is refused", r.v != VALID, "%s: a valid schema is refused (%s): %s", w, show(x.err.substr(0, 200)).c_str(), show(text).c_str());
        outcome("refused"); return;
    }
    CHECKK(fmt("an invalid schema is accepted: %s", r.why.c_str()), r.v != INVALID, "%s: an invalid schema (%s) is accepted: %s", w, r.why.c_str(), show(text).c_str());
    CHECK(o.c && o.h, "%s: success without output: %s", w, show(text).c_str());
    if (r.v == ANY || r.canon.empty()) { outcome("accepted, meaning not specified"); return; }
    uint64_t k = hs(r.canon), mine = code(o);
    if (!of_canon.count(k)) { spit(at("s.proto"), r.canon); clean_out(); Result y = run(STD); CHECKK("a valid schema is refused", y.rc == 0, "the canonical form is refused (%s): %s", show(y.err.substr(0, 200)).c_str(), show(r.canon).c_str()); of_canon[k] = code(outputs()); }
    CHECKK("the code depends on how the schema is written", of_canon[k] == mine, "%s: the code generated for a schema is not the code for the same schema in canonical form: %s  ===  %s", w, show(text).c_str(), show(r.canon).c_str());
    auto f = of_code.emplace(mine, hs(r.key)); CHECKK("two different schemas give the same code", f.first->second == hs(r.key), "%s: another schema, with other declarations, gives the same code: %s", w, show(text).c_str());
    state(hs(r.key)); outcome("accepted"); sample(show(text));
}

// ---------------------------------------------------------------- what is enumerated
static const char *BASE =
    "syntax=\"proto3\"; // c\nimport \"o\";\npackage p.q;\noption o=1;\n"
    "message A{repeated int32 x=1[packed=false];B b=2;repeated E e=31;message B{reserved 4,6 to 8;string s=1;}}\n"
    "enum E{Z=0;O=1;}//";
static const char *BASE2 =
    "message M{required bytes d=15;optional bool t=2;repeated sint64 l=16;option x=\"a//b\";reserved \"r\",\"u\";M.N n=7[deprecated=true];message N{M m=1;}}\n";
static const char *VOCAB[] = {"syntax", "message", "repeated", "required", "optional", "reserved", "to", "enum", "option", "import", "public", "map", "package", "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "true", "false",
    "A", "B", "E", "x", "s", "packed", "Z", "while", "1", "2", "0", "536870912", "19500", "\"proto3\"", "\"proto2\"", ";", "{", "}", "=", "[", "]", "<", ">", ",", ".", "-", "+", "(", ":", "_", "$", "map<int32,string>", "message D{int32 z=1;}", "enum F{K=0;}", "int32 y=9;", "\n", "// ;\n"};
static std::vector<str> split(const str &t) { std::vector<str> o; for (auto &x : lex(t).t) o.push_back(t.substr(x.at, x.end - x.at)); return o; }
static str join(const std::vector<str> &t) { str o; for (auto &x : t) o += x + " "; return o + "\n"; }

// Under the address sanitizer a process is ten times dearer: only some of the bytes and tokens.
static bool small() { return g().opts.count("small"); }
static bool few(int c) { return strchr("\"{};a1/\n", c) || c == 0x80 || c == 0xff; }
static void bytes_part() {
    const str base = g().thorough ? (choose(2, "base") ? BASE2 : BASE) : BASE; size_t at = choose(base.size() + 1, "position"); shard();
    int n = at < base.size() ? 515 : 257, k = choose(n, "edit"); str t = base, w;
    if (small() && (k < 256 ? !few(k) : k > 256 && k < 513 && !few(k - 257))) return skip();
    if (k < 256) { t.insert(at, 1, (char)k); w = fmt("byte %02x inserted at %zu", k, at); }
    else if (k == 256) { t.resize(at); w = fmt("cut at %zu", at); }
    else if (k < 513) { if (t[at] == (char)(k - 257)) return skip(); t[at] = (char)(k - 257); w = fmt("byte %02x at %zu", k - 257, at); }
    else if (k == 513) { t.erase(at, 1); w = fmt("byte %zu removed", at); }
    else { t = t.substr(at); w = fmt("starts at %zu", at); }
    judge(t, w);
}
static void tokens_part() {
    int which = choose(2, "base"); std::vector<str> b = split(which ? BASE2 : BASE); size_t at = choose(b.size() + 1, "token"); shard();
    size_t nv = sizeof VOCAB / sizeof *VOCAB; bool in = at < b.size(); int k = choose(in ? 2 * nv + 4 : nv, "edit"); str w; std::vector<str> t = b;
    if (small() && (which || (k < 2 * (int)nv && k % 7))) return skip();
    if (k < (int)nv) { t.insert(t.begin() + at, VOCAB[k]); w = fmt("'%s' before token %zu", VOCAB[k], at); }
    else if (k < 2 * (int)nv) {
        t[at] = VOCAB[k - nv]; w = fmt("'%s' instead of token %zu", VOCAB[k - nv], at);
        if (g().thorough && at + 1 < b.size()) { int k2 = choose(nv + 1, "second"); if (k2) { t[at + 1] = VOCAB[k2 - 1]; w += fmt(" and '%s' instead of the next", VOCAB[k2 - 1]); } }
    }
    else if (k == 2 * (int)nv) t.erase(t.begin() + at), w = fmt("token %zu removed", at);
    else if (k == 2 * (int)nv + 1) t.insert(t.begin() + at, t[at]), w = fmt("token %zu doubled", at);
    else if (k == 2 * (int)nv + 2) { if (at + 1 >= t.size()) return skip(); std::swap(t[at], t[at + 1]); w = fmt("tokens %zu and %zu exchanged", at, at + 1); }
    else t.resize(at), w = fmt("cut before token %zu", at);
    judge(join(t), w);
}
static void gaps_part() {
    static const str gaps[] = {"", " ", "\t", "\v", "\r", "\r\n", "\n\n\n", "  \t ", "//\n", " // ; } \" message\n", str("//\x80\xff\x01\0//\"\n", 10), "///*\n"};
    int which = choose(2, "base"), all = choose(2, "everywhere"); std::vector<str> b = split(which ? BASE2 : BASE); size_t at = all ? 0 : choose(b.size() + 1, "gap"); shard();
    int a = choose(12, "before"), z = all ? 1 : choose(12, "after"); str t;
    for (size_t i = 0; i <= b.size(); i++) { t += all ? gaps[a] : i == at ? gaps[a] + gaps[z] : " "; if (i < b.size()) t += b[i]; }
    judge(t, fmt("white space %d, %d at %zu", a, z, at));
}
static void fields_part() {
    static const char *types[] = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "S", "E", "X"};
    static const char *quals[] = {"", "optional ", "required ", "repeated "}, *opts[] = {"", "[packed=true]", "[packed=false]", "[packed=1]", "[packed=\"true\"]", "[packed=yes]", "[deprecated=true]", "[Packed=true]"};
    static const char *nums[] = {"0", "1", "2", "18999", "19000", "19500", "19999", "20000", "536870911", "536870912", "2147483647", "2147483649", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709570616", "99999999999999999999999999"};
    str pre = "syntax=\"proto3\"; message S{int32 x=1;} enum E{A=0;} "; int part = choose(5, "part");
    if (part == 0) { int t = choose(18, "type"), q = choose(4, "qualifier"), o = choose(8, "option"), q2 = choose(4, "second qualifier"); shard(); judge(pre + fmt("message M{%s%s f=3%s; %s%s g=2;}", quals[q], types[t], opts[o], quals[q2], types[t == 17 ? 0 : t]), "one field in every way"); }
    else if (part == 1) { int a = choose(20, "first tag"), b = choose(20, "second tag"), nm = choose(2, "same name"); shard(); judge(pre + fmt("message M{int32 a=%s; string %s=%s;}", nums[a], nm ? "a" : "b", nums[b]), "two tags"); }
    else if (part == 2) { int a = choose(20, "first"), b = choose(20, "last"), c = choose(3, "form"); shard(); judge(pre + (c == 0 ? fmt("message M{reserved %s to %s; int32 a=7;}", nums[a], nums[b]) : c == 1 ? fmt("message M{int32 a=7; reserved 3, %s,%s;}", nums[a], nums[b]) : fmt("message M{int32 a=7; reserved 3 to 5, 9,%s to %s;}", nums[a], nums[b])), "reserved numbers"); }
    else if (part == 3) { int a = choose(20, "first"), b = choose(20, "second"), nm = choose(2, "same name"); shard(); judge(pre + fmt("enum F{P=%s;option x=%s;%s=%s;}", nums[a], nums[b], nm ? "P" : "Q", nums[b]), "enum values"); }
    else {   // the order in which three fields are declared never matters
        static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char *tg[] = {"1", "5", "1000"};
        int p = choose(6, "order"), q = choose(6, "tags"), k = choose(4, "kind"), d = choose(8, "duplicates"); shard(); str f[3], t; static const char *kinds[4][3] = {{"int32", "string", "S"}, {"repeated int32", "repeated S", "repeated bytes"}, {"E", "repeated E", "bool"}, {"required string", "required S", "required double"}};
        for (int i = 0; i < 3; i++) f[i] = fmt("%s %c=%s;", kinds[k][i], (d & 1) && i == 2 ? 'a' : 'a' + i, (d & 2) && i == 2 ? tg[perm[q][0]] : (d & 4) && i == 1 ? tg[perm[q][2]] : tg[perm[q][i]]);
        for (int i = 0; i < 3; i++) t += f[perm[p][i]]; judge(pre + "message M{" + t + "}", "three fields in every order");
    }
}
// All trees of nested names over {A, B}, with one reference.
static str tree(int depth, int &refs, int where, const str &ref, int leaf) {
    int n = choose(2, "name"); bool kid = depth > 1 && choose(2, "child"); str r = "message "; r += n ? "B" : "A"; r += "{"; int me = refs++;
    r += me == where ? ref + " r=2;" : "int32 x=1;";
    if (kid) { if (depth == 2 && leaf) { int en = choose(2, "enum name"); r += fmt("enum %s{Z=0;}", en ? "B" : "A"); } else r += tree(depth - 1, refs, where, ref, leaf); }
    return r + "}";
}
static void scopes_part() {
    static const char *refs[] = {"A", "B", "A.A", "A.B", "B.A", "B.B", "p.A", "p.B.A", "A.B.A", "A.A.B", "p", "C"}, *pkgs[] = {"", "package p;", "package A;", "package p.A;", "package A.B;"};
    int pk = choose(5, "package"), rf = choose(12, "reference"), wh = choose(g().thorough ? 6 : 4, "referring message"), leaf = choose(2, "leaf"); shard(); int n = 0, depth = g().thorough ? 3 : 2;
    str t = pkgs[pk]; t += tree(depth, n, wh, refs[rf], leaf); t += tree(depth, n, wh, refs[rf], leaf); if (wh >= n) return skip(); judge(t, "nested names");
}
static const char *FSCHEMA = "syntax=\"proto3\"; package f; message A{int32 a=1; repeated string b=2; B c=3; message B{bytes x=1;}} enum E{Z=0;}\n";
static const char *LICENSE = "First line of the license.\n\n  Indented, with % and \\ signs.\nLast line.\n";
// Every failing operation: success only with complete output.
static void faults_part() {
    static Out whole[2]; static Result clean[2]; static pid_t owner; bool lic = choose(2, "license"); int kind = choose(6, "fault");
    auto args = [&] { std::vector<str> a = {"-c", "o.c", "-h", "o.h"}; if (lic) { a.push_back("-l"); a.push_back("lic"); } a.push_back("s.proto"); return a; };
    auto setup = [&] { clean_out(); spit(at("s.proto"), FSCHEMA); if (lic) spit(at("lic"), LICENSE); };
    if (owner != getpid() || whole[lic].ct.empty()) { owner = getpid(); setup(); Plan p; p.alloc_on = p.io_on = true; clean[lic] = run(args(), p); CHECK(clean[lic].rc == 0, "the schema for the fault runs is refused: %s", clean[lic].err.c_str()); whole[lic] = outputs(); }
    const Out &W = whole[lic]; Plan p; str what; long n = kind == 0 ? clean[lic].s.allocs : kind == 1 ? std::max(W.ct.size(), W.ht.size()) : kind == 2 ? clean[lic].s.opens : kind == 3 ? clean[lic].s.closes : kind == 4 ? strlen(FSCHEMA) : lic ? strlen(LICENSE) : 0;
    if (!n) return skip();
    long k = choose((int)n, "where"); if (kind == 1 && (small() || !g().thorough) && k % (small() ? 199 : 5) && (small() || k + 40 < n)) return skip(); shard();
    switch (kind) {
    case 0: p.alloc_on = true; p.fail_alloc = k; what = "allocation"; break;
    case 1: p.size_limit = k; what = "no space after byte"; break;
    case 2: p.io_on = true; p.fail_open = k; what = "open"; break;
    case 3: p.io_on = true; p.fail_close = k; what = "close"; break;
    case 4: p.io_on = true; p.read_limit = k; p.read_file = "s.proto"; what = "reading the schema fails at byte"; break;
    case 5: p.io_on = true; p.read_limit = k; p.read_file = "lic"; what = "reading the license fails at byte"; break;
    }
    setup(); Result r = run(args(), p); Out o = outputs(); distinct(mix(mix(kind, k), lic));
    if (r.rc == 0) CHECKK("success although " + what, o.c && o.h && o.ct == W.ct && o.ht == W.ht, "%s %ld: the status is 0 and the output is %s (%zu and %zu bytes instead of %zu and %zu)", what.c_str(), k, o.c && o.h ? "incomplete" : "missing", o.ct.size(), o.ht.size(), W.ct.size(), W.ht.size());
    else { CHECKK("no message: " + what, kind == 0 || !r.err.empty(), "%s %ld: status %d without a message", what.c_str(), k, r.rc); outcome("fault reported"); }
    if (r.rc == 0) outcome(r.s.failed ? "fault without consequence" : "no fault");
}
static bool license_in(const str &with, const str &without, const str &lic) {
    if (with.size() < without.size() || with.compare(with.size() - without.size(), str::npos, without)) return false;
    str head = with.substr(0, with.size() - without.size()); size_t a = head.find("/*"), z = head.rfind("*/"); if (a == str::npos || z == str::npos || head.find("*/") != z) return false;
    for (size_t i = 0; i < a; i++) if (!isspace((unsigned char)head[i])) return false; for (size_t i = z + 2; i < head.size(); i++) if (!isspace((unsigned char)head[i])) return false;
    size_t pos = 0, i = 0; while (i < lic.size()) { size_t e = lic.find('\n', i); if (e == str::npos) e = lic.size(); str line = lic.substr(i, e - i); pos = head.find(line, pos); if (pos == str::npos) return false; pos += line.size(); i = e + 1; }
    return true;
}
static void calls_part() {
    int kind = choose(5, "kind"); Result r;
    if (kind == 0) {   // every way of giving the options
        int c = choose(5, "-c"), h = choose(5, "-h"), l = choose(5, "-l"), ord = choose(2, "input first"); shard(); wipe(); spit(at("s.proto"), FSCHEMA); spit(at("lic"), LICENSE);
        auto add = [](std::vector<str> &a, int k, const char *s, const char *l1, const char *v) { if (k == 1) { a.push_back(s); a.push_back(v); } else if (k == 2) a.push_back(str(s) + v); else if (k == 3) { a.push_back(l1); a.push_back(v); } else if (k == 4) a.push_back(str(l1) + "=" + v); };
        std::vector<str> a; if (ord) a.push_back("s.proto"); add(a, c, "-c", "--output-c", "x.c"); add(a, h, "-h", "--output-h", "x.h"); add(a, l, "-l", "--license", "lic"); if (!ord) a.push_back("s.proto");
        r = run(a); str cn = c ? "x.c" : "proto_defs.c", hn = h ? "x.h" : "proto_defs.h"; CHECK(r.rc == 0, "a right call fails: %s", r.err.c_str()); Out o = outputs(cn, hn); CHECK(o.c && o.h, "the outputs %s and %s are not both there", cn.c_str(), hn.c_str());
        if (!l) { CHECK(!o.ct.empty() && !o.ht.empty(), "empty output"); outcome("call without license"); }
        else { std::vector<str> b = {"-c", cn, "-h", hn, "s.proto"}; Result y = run(b); CHECK(y.rc == 0, "a right call fails: %s", y.err.c_str()); Out q = outputs(cn, hn); CHECKK("the license is not in the output", license_in(o.ct, q.ct, LICENSE) && license_in(o.ht, q.ht, LICENSE), "the license text is not at the top of the output as one comment"); outcome("call with license"); }
        distinct(mix(c, mix(h, mix(l, ord))));
    } else if (kind == 1) {   // wrong calls
        static const std::vector<std::vector<str>> wrong = {{}, {"s.proto", "s.proto"}, {"-x", "s.proto"}, {"--nope", "s.proto"}, {"-c"}, {"-h", "o.h", "-c"}, {"-c", "o.c", "-h", "o.h"}, {"missing.proto"}, {"."}, {"-c", "no/o.c", "s.proto"}, {"-h", "no/o.h", "s.proto"}, {"-c", ".", "s.proto"}, {"-h", ".", "s.proto"}, {"-l", "missing", "s.proto"}, {"-l", ".", "s.proto"}, {"-c", "", "s.proto"}, {"-h", "", "s.proto"}, {""}, {"--output-c=o.c", "--license=no/lic", "s.proto"}, {"-c", "o.c", "-h", "o.h", "-l", "", "s.proto"}};
        int k = choose((int)wrong.size(), "call"); shard(); wipe(); spit(at("s.proto"), FSCHEMA); str a; for (auto &x : wrong[k]) a += " '" + x + "'"; r = run(wrong[k]);
        CHECKK("a wrong call succeeds", r.rc != 0, "the call%s has status 0", a.c_str()); CHECKK("a wrong call says nothing", !r.err.empty(), "the call%s fails without a message", a.c_str()); CHECK(slurp(at("s.proto")) == FSCHEMA, "the call%s changes the schema", a.c_str()); distinct(k); outcome("wrong call refused");
    } else if (kind == 2) {   // license texts
        static const std::vector<str> texts = {"", "\n", "x", "x\n", "\n\n\n", "a\nb", "a\r\nb\r\n", "100% %s %n %d\n", str("tab\there\n\xc3\xa9\n"), str(8190, 'y') + "\n", str(200, 'z') + "\nend"};
        int k = choose((int)texts.size(), "license"); shard(); wipe(); spit(at("s.proto"), FSCHEMA); spit(at("lic"), texts[k]); r = run({"-c", "o.c", "-h", "o.h", "-l", "lic", "s.proto"}); CHECK(r.rc == 0, "refused with license %d: %s", k, r.err.c_str()); Out o = outputs(); r = run(STD); CHECK(r.rc == 0, "refused: %s", r.err.c_str()); Out q = outputs();
        CHECKK("the license is not in the output", license_in(o.ct, q.ct, texts[k]) && license_in(o.ht, q.ht, texts[k]), "license text %d is not at the top of the output as one comment", k); distinct(k); outcome("license text");
    } else if (kind == 3) {   // a previous, longer output is replaced
        int k = choose(3, "old files"); shard(); wipe(); spit(at("s.proto"), FSCHEMA); r = run(STD); Out q = outputs(); clean_out(); str junk(100000, '#'); if (k != 1) spit(at("o.c"), junk); if (k != 0) spit(at("o.h"), junk); r = run(STD); Out o = outputs();
        CHECK(r.rc == 0 && o.ct == q.ct && o.ht == q.ht, "old output files show through"); distinct(k); outcome("old output replaced");
    } else {   // the content does not depend on where the files are; only the last part of the header's name may matter
        static const char *names[] = {"o", "dir/o", "./o", "././dir/../o", "dir//o"}; int c = choose(5, "c"), h = choose(5, "h"), s = choose(5, "schema"); shard(); wipe(); mkdir(at("dir").c_str(), 0700); spit(at("o.proto"), FSCHEMA); spit(at("dir/o.proto"), FSCHEMA);
        str cn = str(names[c]) + ".c", hn = str(names[h]) + ".h"; r = run({"-c", cn, "-h", hn, str(names[s]) + ".proto"}); CHECK(r.rc == 0, "refused: %s", r.err.c_str()); Out o = outputs(cn, hn); CHECK(o.c && o.h, "no output"); unlink(at(cn).c_str()); unlink(at(hn).c_str()); unlink(at("dir/o.proto").c_str());
        spit(at("s.proto"), FSCHEMA); r = run(STD); Out q = outputs(); CHECKK("the code depends on where the files are", o.ct == q.ct && o.ht == q.ht, "%s and %s differ from the same files elsewhere", cn.c_str(), hn.c_str()); distinct(mix(c, mix(h, s))); outcome("paths"); wipe();
    }
}
static void body() {
    int part = choose(7, "part"); if (small() && part > 1 && part < 5) return skip();
    switch (part) { case 0: return bytes_part(); case 1: return tokens_part(); case 2: return gaps_part(); case 3: return fields_part(); case 4: return scopes_part(); case 5: return faults_part(); default: return calls_part(); }
}
static void setup() {
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) { printf("@error mmap\n"); fflush(stdout); _exit(3); }
    char d[] = "pc-XXXXXX"; if (!mkdtemp(d)) { printf("@error mkdtemp\n"); fflush(stdout); _exit(3); } char *p = realpath(d, 0); dir = p; ::free(p);
}
VH_MAIN2(body, setup)
