// C26: drives generated message code through all short sequences of accessor calls, growth, damaged and extended
// encodings and allocation failures, against a model of the schema and an independent parser and encoder.
#include "pb_api.hpp"
#include "alloc.hpp"
#include <memory>
using namespace vh; using namespace ga;

struct MV;
struct El { uint64_t bits = 0; bytes s; std::shared_ptr<MV> m; };
struct MV { const Msg *t; std::vector<std::vector<El>> f; MV(const Msg *x) : t(x), f(x->fields.size()) {} };
static bool list(const Field &f) { return f.qual >= REP; }
static bool num(const Field &f) { return f.kind != MESSAGE && f.kind != pr::STRING && f.kind != pr::BYTES; }
static int wkind(const Field &f) { return f.kind == ENUM ? (int)pr::INT32 : f.kind; }
static bool flt(const Field &f) { return f.kind == pr::FLOAT || f.kind == pr::DOUBLE; }
static size_t width(const Field &f) { int k = wkind(f); return pr::is32(k) ? 4 : k == pr::BOOL ? 4 : 8; }
static std::shared_ptr<MV> clone(const MV &v) { auto r = std::make_shared<MV>(v.t); r->f = v.f; for (auto &x : r->f) for (auto &e : x) if (e.m) e.m = clone(*e.m); return r; }

static pr::Val val(const Field &f, const El &e) { pr::Val v; v.kind = wkind(f); v.bits = e.bits; v.s = e.s; return v; }
static bytes encode(const MV &v) {
    bytes out;
    for (size_t i = 0; i < v.f.size(); i++) {
        const Field &f = v.t->fields[i]; auto &l = v.f[i];
        if (f.qual == PACKED) { if (l.empty()) continue; bytes b; for (auto &e : l) b += pr::payload(val(f, e)); out += pr::element(f.tag, b); }
        else if (num(f)) {
            if (f.qual == REQ) out += pr::field(f.tag, val(f, l.empty() ? El() : l[0]));
            else if (f.qual == OPT) { if (!l.empty() && l[0].bits) out += pr::field(f.tag, val(f, l[0])); }
            else for (auto &e : l) out += pr::field(f.tag, val(f, e));
        } else if (f.kind == MESSAGE) {
            if (l.empty() && f.qual == REQ) out += pr::element(f.tag, bytes());
            for (auto &e : l) out += pr::element(f.tag, encode(*e.m));
        } else {
            if (l.empty() && f.qual == REQ) { El e; out += pr::field(f.tag, val(f, e)); }
            for (auto &e : l) out += pr::field(f.tag, val(f, e));
        }
    }
    return out;
}
// How many explicit zeroes of optional floating point fields a writer may add: they mean the same as leaving the field out.
static bool take_varint(const bytes &b, size_t &i, uint64_t &v, bool &odd) {
    v = 0; int sh = 0; odd = false; size_t s = i;
    while (i < b.size()) { uint8_t c = b[i++]; if (sh >= 64 || (sh == 63 && (c & 127) > 1)) odd = true; else v |= (uint64_t)(c & 127) << sh; sh += 7; if (!(c & 128)) { if (i - s > 10) odd = true; return true; } if (i - s > 10) odd = true; }
    return false;
}
// Removes optional floating point zeroes, at all levels.
static bytes normal(const bytes &b, const Msg *t) {
    bytes out; size_t i = 0; bool odd;
    while (i < b.size()) {
        size_t s = i; uint64_t key, n; if (!take_varint(b, i, key, odd)) return b;
        const Field *f = 0; for (auto &x : t->fields) if ((uint64_t)x.tag == key >> 3) f = &x;
        size_t body = i; int w = key & 7;
        if (w == 0) { if (!take_varint(b, i, n, odd)) return b; } else if (w == 1) i += 8; else if (w == 5) i += 4; else if (w == 2) { if (!take_varint(b, i, n, odd)) return b; body = i; i += n; } else return b;
        if (i > b.size()) return b;
        if (f && f->qual == OPT && flt(*f)) { bool z = true; for (size_t k = body; k < i; k++) if (b[k]) z = false; if (z) continue; }
        if (f && f->kind == MESSAGE && w == 2) { bytes in = normal(b.substr(body, i - body), f->sub); out += pr::tagenc(f->tag, 2) + pr::varint(in.size()) + in; continue; }
        out += b.substr(s, i - s);
    }
    return out;
}

enum { GOOD, BAD, UNSPEC };
// The standard's reading of a message; UNSPEC where parsers may differ or the repository's generator documents nothing.
static int parse(const bytes &b, const Msg *t, MV &out, int depth = 0) {
    size_t i = 0; bool odd; if (depth > 50) return UNSPEC;
    while (i < b.size()) {
        uint64_t key, n = 0; if (!take_varint(b, i, key, odd)) return odd ? UNSPEC : BAD;
        if (odd || (key >> 3) == 0 || (key >> 3) > 536870911) return UNSPEC;
        int w = key & 7; size_t fi = 0; const Field *f = 0; for (; fi < t->fields.size(); fi++) if ((uint64_t)t->fields[fi].tag == key >> 3) { f = &t->fields[fi]; break; }
        if (w == 3 || w == 4) return UNSPEC;
        if (w > 5) return BAD;
        int want = !f ? w : f->qual == PACKED || f->kind == MESSAGE ? 2 : pr::wire(wkind(*f));
        if (w != want) return UNSPEC;
        bytes body; size_t s = i;
        if (w == 0) { if (!take_varint(b, i, n, odd)) return odd ? UNSPEC : BAD; if (odd) return UNSPEC; body = b.substr(s, i - s); }
        else if (w == 1 || w == 5) { size_t l = w == 1 ? 8 : 4; if (b.size() - i < l) return BAD; for (size_t k = 0; k < l; k++) n |= (uint64_t)b[i + k] << (8 * k); i += l; }
        else { if (!take_varint(b, i, n, odd)) return odd ? UNSPEC : BAD; if (odd) return UNSPEC; if (n > b.size() - i) return BAD; body = b.substr(i, n); i += n; }
        if (!f) continue;
        auto number = [&](uint64_t v, El &e) -> bool {      // false: out of range, unspecified
            int k = wkind(*f);
            if (k == pr::INT32) { if ((int64_t)v != (int64_t)(int32_t)(uint32_t)v) return false; e.bits = (uint32_t)v; }
            else if (k == pr::UINT32) { if (v >> 32) return false; e.bits = v; }
            else if (k == pr::SINT32) { if (v >> 32) return false; e.bits = (uint32_t)((uint32_t)(v >> 1) ^ (0u - (uint32_t)(v & 1))); }
            else if (k == pr::SINT64) e.bits = (v >> 1) ^ (0 - (v & 1));
            else if (k == pr::BOOL) { if (v > 1) return false; e.bits = v; }
            else e.bits = v;
            return true;
        };
        El e; auto &l = out.f[fi];
        if (f->qual == PACKED) {
            size_t j = 0; int kw = pr::wire(wkind(*f));
            while (j < body.size()) {
                uint64_t v = 0; if (kw == 0) { if (!take_varint(body, j, v, odd)) return odd ? UNSPEC : BAD; if (odd) return UNSPEC; }
                else { size_t z = kw == 1 ? 8 : 4; if (body.size() - j < z) return BAD; for (size_t k = 0; k < z; k++) v |= (uint64_t)body[j + k] << (8 * k); j += z; }
                El x; if (!number(v, x)) return UNSPEC; l.push_back(x);
            }
            continue;
        }
        if (num(*f)) { if (!number(n, e)) return UNSPEC; }
        else if (f->kind == MESSAGE) { if (!list(*f) && !l.empty()) return UNSPEC; e.m = std::make_shared<MV>(f->sub); int r = parse(body, f->sub, *e.m, depth + 1); if (r != GOOD) return r; }
        else { if (f->kind == pr::STRING) { if (body.find((uint8_t)0) != bytes::npos) return UNSPEC; if (!pr::utf8_ok(body.data(), body.size())) return BAD; } e.s = body; }
        if (list(*f)) l.push_back(e); else { l.clear(); if (!(num(*f) && f->qual == OPT && e.bits == 0)) l.push_back(e); }
    }
    return GOOD;
}

static std::string story;
#define EXPECT(cond, key, ...) CHECKK(key, cond, "%s %s: %s", cm->name, story.c_str(), fmt(__VA_ARGS__).c_str())
static const Msg *cm;

static void check_all(const void *o, const MV &v, bool full = true) {
    CHECKK("object missing", o, "%s %s: no object", v.t->name, story.c_str());
    for (size_t i = 0; i < v.f.size(); i++) {
        const Field &f = v.t->fields[i]; auto &l = v.f[i]; size_t n = l.size();
        int has = f.has(o), want = list(f) ? n != 0 : num(f) ? (f.qual == REQ ? 1 : (n && (flt(f) ? (f.kind == pr::FLOAT ? (uint32_t)(l[0].bits << 1) != 0 : (l[0].bits << 1) != 0) : l[0].bits != 0))) : n != 0;
        EXPECT(!!has == !!want, "has", "has_%s is %d", f.name, has);
        if (list(f)) { size_t c = f.count(o); EXPECT(c == n, "count", "count_%s is %zu instead of %zu", f.name, c, n); }
        size_t probes[] = {n, n + 1, n + 1000, SIZE_MAX};
        if (num(f)) {
            if (!list(f)) { uint64_t x = f.get(o, 0), w = n ? l[0].bits : 0; EXPECT(x == w, "get", "get_%s is %llx instead of %llx", f.name, (unsigned long long)x, (unsigned long long)w); }
            else {
                for (size_t k = full || n < 2 ? 0 : n - 2; k < n; k++) { uint64_t x = f.get(o, k); EXPECT(x == l[k].bits, "get_at", "get_at_%s(%zu) is %llx instead of %llx", f.name, k, (unsigned long long)x, (unsigned long long)l[k].bits); }
                for (size_t k : probes) EXPECT(f.get(o, k) == 0, "get_at beyond the end", "get_at_%s(%zu) is not zero", f.name, k);
            }
        } else if (f.kind == MESSAGE) {
            if (!list(f)) { void *s = f.getm(o, 0); EXPECT(!!s == (n != 0), "get", "get_%s is %p", f.name, s); if (n) check_all(s, *l[0].m); }
            else { for (size_t k = full || n < 2 ? 0 : n - 2; k < n; k++) check_all(f.getm(o, k), *l[k].m); for (size_t k : probes) EXPECT(!f.getm(o, k), "get_at beyond the end", "get_at_%s(%zu) is not null", f.name, k); }
        } else {
            auto one = [&](size_t k, const bytes &w) {
                const char *p = (const char *)f.gets(o, k); size_t z = f.getsize(o, k);
                EXPECT(p && z == w.size() && B(p, z) == w, "string value", "%s(%zu) is %s (%zu bytes) instead of %s", f.name, k, p ? hex(B(p, z > 300 ? 300 : z)).c_str() : "null", z, hex(w).c_str());
                if (f.kind == pr::STRING) EXPECT(p[z] == 0, "string not terminated", "%s(%zu) is not terminated", f.name, k);
            };
            if (!list(f)) { if (n) one(0, l[0].s); else EXPECT(!f.gets(o, 0) && f.getsize(o, 0) == 0, "unset string", "%s is set", f.name); }
            else { for (size_t k = full || n < 2 ? 0 : n - 2; k < n; k++) one(k, l[k].s); for (size_t k : probes) EXPECT(!f.gets(o, k) && f.getsize(o, k) == 0, "get_at beyond the end", "%s(%zu) is set", f.name, k); }
        }
    }
}
static bytes written;
static int write_msg(const void *o, const Msg *t, int tag, size_t cap) {
    Block b(cap, 0xEE); NoiseProtobuf p; uint8_t *d = 0; size_t n = 0; written.clear();
    int e = noise_protobuf_prepare_output(&p, b.p, cap); if (e) return e;
    int w = t->write(&p, tag, o); op();
    e = noise_protobuf_finish_output(&p, &d, &n);
    CHECKK("write result", (w == 0) == (e == 0), "%s %s: write returned %x but finishing the output %x", t->name, story.c_str(), w, e);
    if (!e) written = B(d, n);
    return e;
}
static int read_msg(const bytes &in, const Msg *t, int tag, void **o) {
    Block b(in); NoiseProtobuf p; noise_protobuf_prepare_input(&p, b.p, b.n);
    *o = (void *)8; int e = t->read(&p, tag, o); op();
    int e2 = noise_protobuf_finish_input(&p);
    if (!e && e2) { t->destroy(*o); *o = 0; return e2; }
    return e;
}
static void round_trip(const void *o, const MV &v, bool capacities) {
    bytes want = encode(v); int e;
    e = write_msg(o, cm, 0, want.size() + 400); EXPECT(e == 0, "writing fails", "write returned %x", e);
    bytes raw = written; EXPECT(normal(raw, cm) == want, "encoding", "encoded as %s instead of %s", hex(raw, 200).c_str(), hex(want, 200).c_str());
    if (capacities) for (size_t c = 0; c <= raw.size() && c < 80; c++) { e = write_msg(o, cm, 0, c); EXPECT(c == raw.size() ? e == 0 && written == raw : e == NOISE_ERROR_INVALID_LENGTH, "writing into a small buffer", "writing %zu bytes into %zu returned %x", raw.size(), c, e); }
    e = write_msg(o, cm, 5, raw.size() + 20); EXPECT(e == 0 && written == pr::element(5, raw), "encoding with a tag", "encoded as %s", hex(written, 200).c_str());
    for (int tag : {0, 5}) for (int form = 0; form < 2; form++) {
        bytes in = form ? raw : want; if (tag) in = pr::element(5, in);
        void *r = 0; e = read_msg(in, cm, tag, &r); EXPECT(e == 0, "reading fails", "reading %s returned %x", hex(in, 200).c_str(), e);
        story += " (read back)"; MV back = v;
        // a required message that was not set comes back as an empty one
        std::function<void(MV &)> fix = [&](MV &m) { for (size_t i = 0; i < m.f.size(); i++) { auto &f = m.t->fields[i]; if (f.qual == REQ && f.kind != MESSAGE && !num(f) && m.f[i].empty()) m.f[i].push_back(El()); if (f.qual == REQ && f.kind == MESSAGE && m.f[i].empty()) { El x; x.m = std::make_shared<MV>(f.sub); m.f[i].push_back(x); } for (auto &x : m.f[i]) if (x.m) { x.m = clone(*x.m); fix(*x.m); } } };
        fix(back); check_all(r, back); cm->destroy(r);
    }
}
static uint64_t number(const Field &f, int which) {
    static const uint64_t v32[] = {1, 0x80000000u, 0xFFFFFFFFu, 300, 0x7FFFFFFF}, v64[] = {1, 0x8000000000000000ull, ~0ull, 300, 0x7FFFFFFFFFFFFFFFull};
    if (f.kind == pr::FLOAT) { float x[] = {1.5f, -2.0f, 3.4e38f, 1e-40f, 7}; return bits(x[which % 5]); }
    if (f.kind == pr::DOUBLE) { double x[] = {1.5, -2.0, 1.7e308, 1e-310, 7}; return bits(x[which % 5]); }
    if (f.kind == pr::BOOL) return 1;
    if (f.kind == ENUM) return which & 1 ? 2147483647 : 1;
    return width(f) == 4 ? v32[which % 5] : v64[which % 5];
}
static bytes text(const Field &f, int which) {
    static const bytes s[] = {B("abc"), bytes(), B("\xe2\x82\xac\xf0\x9d\x84\x9e"), bytes(200, 'x'), B("d")}; static const bytes b[] = {B("\0\xff\x80", 3), bytes(), bytes(1, 0), bytes(300, 0xA5), B("d")};
    return f.kind == pr::STRING ? s[which % 5] : b[which % 5];
}
// Sets something simple in a message object.
static void fill(void *o, MV &v, int serial) {
    for (size_t i = 0; i < v.f.size(); i++) {
        const Field &f = v.t->fields[i]; if (f.kind == MESSAGE || (list(f) && serial % 3 != 2)) continue;
        El e; int r; if (num(f)) { e.bits = f.kind == pr::BOOL ? 1 : flt(f) ? number(f, serial) : (uint64_t)(serial + 1); r = f.set(o, e.bits); } else { e.s = B(fmt("n%d", serial)); r = f.sets(o, e.s.data(), e.s.size()); }
        CHECKK("set", r == 0, "setting %s returned %x", f.name, r); v.f[i].assign(1, e); return;
    }
}
static int serial;
static int n_ops(const Field &f) { return f.kind == MESSAGE ? (list(f) ? 6 : 2) : 4; }
// One accessor call; returns the error code.  With `dry` the model is not changed when it fails.
static int apply(void *o, MV &v, size_t fi, int k, bool can_fail) {
    const Field &f = v.t->fields[fi]; auto &l = v.f[fi]; int e; op();
    auto ok = [&](const char *what) { story += fmt(" %s %s;", what, f.name); if (!can_fail) EXPECT(e == 0, what, "%s_%s returned %x", what, f.name, e); };
    if (k == n_ops(f) - 1) { e = f.clear(o); ok("clear"); if (!e) l.clear(); return e; }
    if (num(f)) {
        El x; x.bits = k == 0 ? number(f, serial) : k == 1 ? number(f, serial + 1) : 0;
        e = f.set(o, x.bits); ok(list(f) ? "add" : "set"); if (e) return e;
        if (list(f)) l.push_back(x); else { l.clear(); if (x.bits || f.qual == REQ) l.push_back(x); }
    } else if (f.kind != MESSAGE) {
        El x; x.s = k == 0 ? text(f, serial) : k == 1 ? text(f, serial + 2) : bytes(); Block b(x.s);
        e = f.sets(o, b.p, b.n); ok(list(f) ? "add" : "set");
        if (e) { if (!list(f)) l.clear(); return e; }
        if (!list(f)) l.clear();
        l.push_back(x);
    } else if (k == 0) {
        void *s = (void *)8; e = f.newm(o, &s); ok(list(f) ? "add" : "get_new"); if (e) { EXPECT(!s, "output after an error", "%s left its output set", f.name); return e; }
        EXPECT(s && f.getm(o, list(f) ? l.size() : 0) == s, "new message", "the new %s is not in place", f.name);
        El x; x.m = std::make_shared<MV>(f.sub); if (!list(f)) l.clear();
        l.push_back(x); if (!can_fail) fill(s, *l.back().m, serial);
    } else if (k == 4) { e = f.insert(o, 0, 0); EXPECT(e == NOISE_ERROR_INVALID_PARAM, "insert nothing", "insert_%s of null returned %x", f.name, e); e = 0; }
    else {
        void *s = 0; e = f.sub->make(&s); if (e) { EXPECT(!s, "output after an error", "a failed constructor set its output"); return e; }
        El x; x.m = std::make_shared<MV>(f.sub); if (!can_fail) fill(s, *x.m, serial + 10);
        size_t at = k == 1 ? 0 : k == 2 ? l.size() / 2 : SIZE_MAX; e = f.insert(o, at, s); ok(k == 1 ? "insert first" : k == 2 ? "insert middle" : "insert last");
        if (e) { f.sub->destroy(s); return e; }
        l.insert(at < l.size() ? l.begin() + (long)at : l.end(), x);
    }
    return 0;
}
struct Obj { void *p = 0; const Msg *t; Obj(const Msg *m) : t(m) { int e = m->make(&p); CHECKK("new", e == 0 && p, "%s: new returned %x", m->name, e); } ~Obj() { if (p) t->destroy(p); } };
static void finish_leaks() { EXPECT(al::live() == 0, "memory leak", "%zu blocks are left: %s", al::live(), al::live_text().c_str()); }
struct Ledger { Ledger() { al::start(); } ~Ledger() { al::stop(); } };

static void sequences() {
    size_t total = 0; for (auto &f : cm->fields) total += n_ops(f);
    size_t nf = cm->fields.size(); bool pair = !strncmp(cm->group, "pairs", 5);
    int depth = nf == 1 ? (g().thorough ? 4 : 3) : pair ? (g().thorough ? 3 : 2) : total < 30 ? (g().thorough ? 4 : 3) : 2;
    std::vector<std::pair<size_t, int>> menu; for (size_t i = 0; i < nf; i++) for (int k = 0; k < n_ops(cm->fields[i]); k++) menu.push_back({i, k});
    int o1 = choose((int)menu.size() + 1, "op"); shard();
    Ledger led; story.clear(); serial = 0;
    {
        Obj o(cm); MV v(cm); check_all(o.p, v);
        if (o1 == (int)menu.size()) { round_trip(o.p, v, true); }
        else { apply(o.p, v, menu[o1].first, menu[o1].second, false); check_all(o.p, v); for (int i = 1; i < depth; i++) { serial = i; auto &m = pick(menu, "op"); apply(o.p, v, m.first, m.second, false); check_all(o.p, v); } round_trip(o.p, v, nf == 1); }
        bytes w = encode(v); state(hash_bytes(w.data(), w.size(), hash_str(cm->name)));
    }
    finish_leaks(); distinct(hash_str(cm->name, hash_str(story))); outcome("accessor sequences"); sample(std::string(cm->name) + ":" + story, 2);
}
static void growth() {
    std::vector<size_t> ls; for (size_t i = 0; i < cm->fields.size(); i++) if (list(cm->fields[i])) ls.push_back(i);
    if (ls.empty()) { shard(); skip(); }
    size_t fi = pick(ls, "list"); const Field &f = cm->fields[fi];
    static const size_t NS[] = {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193}; size_t n = pick(NS, "size");
    int where = f.kind == MESSAGE ? choose(10, "index") : 0; shard();
    Ledger led; story = fmt(" %zu elements of %s, then number %d;", n, f.name, where); serial = 0;
    {
        Obj o(cm); MV v(cm); std::string keep = story;
        for (int round = 0; round < 2; round++) {
            for (size_t i = 0; i < n; i++) { serial = (int)i; story = keep; apply(o.p, v, fi, num(f) || f.kind != MESSAGE ? (int)(i & 1) : where == 7 ? 1 : where == 8 ? 2 : where == 9 ? (int)(i % 3) : 0, false); check_all(o.p, v, false); }
            story = keep; check_all(o.p, v);
            if (f.kind == MESSAGE) {
                void *s = 0; f.sub->make(&s); El x; x.m = std::make_shared<MV>(f.sub); fill(s, *x.m, 1000);
                size_t at[] = {0, 1, n / 2, n - 2, n - 1, n, n + 1, 0, n / 2, n - 1}; size_t k = at[where]; int e = f.insert(o.p, k, s); EXPECT(e == 0, "insert", "insert_%s(%zu) returned %x", f.name, k, e);
                auto &l = v.f[fi]; l.insert(k < l.size() ? l.begin() + (long)k : l.end(), x); check_all(o.p, v);
                serial = 7; apply(o.p, v, fi, 0, false); story = keep; check_all(o.p, v);
            }
            if (!round) { if (n < 70) round_trip(o.p, v, false); apply(o.p, v, fi, n_ops(f) - 1, false); story = keep + " cleared;"; check_all(o.p, v); }
            else { bytes want = encode(v); int e = write_msg(o.p, cm, 0, want.size() + 50); EXPECT(e == 0 && normal(written, cm) == want, "encoding", "a long list is encoded wrongly"); void *r = 0; e = read_msg(want, cm, 0, &r); EXPECT(e == 0, "reading fails", "reading a long list returned %x", e); MV m(cm); if (parse(want, cm, m) == GOOD) check_all(r, m); cm->destroy(r); }
        }
    }
    finish_leaks(); outcome("lists grown"); distinct(hash_str(cm->name, hash_str(story)));
}
// An encoding with everything set.
static bytes specimen(int which) {
    MV v(cm); std::function<void(MV &, int)> put = [&](MV &m, int d) {
        for (size_t i = 0; i < m.f.size(); i++) { auto &f = m.t->fields[i]; int n = list(f) ? 2 : 1;
            for (int k = 0; k < n; k++) { El e; if (num(f)) e.bits = number(f, which + k + (f.kind >= pr::FLOAT ? 0 : 3)); else if (f.kind == MESSAGE) { if (d > 1) continue; e.m = std::make_shared<MV>(f.sub); put(*e.m, d + 1); } else { e.s = text(f, which + k + (k ? 2 : 0)); if (e.s.size() > 20) e.s.resize(3); } if (num(f) && !e.bits) continue; m.f[i].push_back(e); } }
    };
    put(v, 0); return encode(v);
}
static void judge(const bytes &in) {
    MV m(cm); int verdict = parse(in, cm, m); void *o = 0; Ledger led;
    int e = read_msg(in, cm, 0, &o);
    story = " reading " + hex(in, 120);
    if (verdict == GOOD) { EXPECT(e == 0, "well-formed input is refused", "returned %x", e); check_all(o, m); }
    else if (verdict == BAD) EXPECT(e != 0, "malformed input is accepted", "no error");
    if (e) EXPECT(!o, "object after an error", "an object was returned with error %x", e); else { int w = write_msg(o, cm, 0, in.size() * 3 + 600); EXPECT(w == 0, "writing fails", "a message that was read cannot be written: %x", w); cm->destroy(o); }
    finish_leaks(); outcome(verdict == GOOD ? "damaged input: well-formed" : verdict == BAD ? "damaged input: malformed" : "damaged input: unspecified"); distinct(hash_bytes(in.data(), in.size(), hash_str(cm->name)));
}
static void damage() {
    int which = choose(2, "specimen"), kind = choose(3, "damage"); shard();
    bytes in = specimen(which); if (in.size() > 400) in.resize(400);
    if (kind == 0) { int n = choose((int)in.size() + 1, "length"); judge(in.substr(0, (size_t)n)); return; }
    if (in.empty()) { judge(in); return; }
    int at = choose((int)in.size(), "position");
    static const int X[] = {1, 2, 4, 8, 16, 32, 64, 128, -1, -2, -3, -4};
    if (kind == 1) { int x = pick(X, "change"); if (x > 0) in[at] ^= (uint8_t)x; else in[at] = x == -1 ? 0 : x == -2 ? 0xff : x == -3 ? in[at] + 1 : in[at] - 1; judge(in); return; }
    int what = choose(3, "edit"); if (what == 0) in.erase((size_t)at, 1); else in.insert((size_t)at, 1, what == 1 ? 0 : 0x80); judge(in);
}
static void unknown() {
    int which = choose(2, "specimen"); shard(); bytes in = specimen(which);
    // field boundaries at the outer level
    std::vector<size_t> cut = {0}; { size_t i = 0; bool odd; while (i < in.size()) { uint64_t k, n; take_varint(in, i, k, odd); int w = k & 7; if (w == 0) take_varint(in, i, n, odd); else if (w == 1) i += 8; else if (w == 5) i += 4; else { take_varint(in, i, n, odd); i += n; } cut.push_back(i); } }
    int unused[] = {0, 0, 0, 0}; int k = 0; for (int t : {6, 99, 5000, 536870910}) { while (true) { bool used = false; for (auto &f : cm->fields) if (f.tag == t) used = true; if (!used) break; if (t > 6000) t--; else t++; } unused[k++] = t; }
    size_t at = pick(cut, "position"); int tag = pick(unused, "tag"); int w = choose(6, "form"); bytes x;
    if (w == 0) x = pr::tagenc(tag, 0) + pr::varint(~0ull); else if (w == 1) x = pr::tagenc(tag, 1) + bytes(8, 0xff); else if (w == 2) x = pr::tagenc(tag, 2) + pr::varint(0); else if (w == 3) x = pr::tagenc(tag, 2) + pr::varint(130) + bytes(130, 0xff); else if (w == 4) x = pr::tagenc(tag, 5) + bytes(4, 0); else x = pr::tagenc(tag, 0) + bytes(1, 0);
    MV a(cm); if (parse(in, cm, a) != GOOD) { outcome("specimen unspecified"); return; }
    bytes with = in; with.insert(at, x); MV b(cm); int verdict = parse(with, cm, b); if (verdict != GOOD || encode(a) != encode(b)) { printf("@error model: unknown field %s %s into %s -> %d %s %s\n", cm->name, hex(x).c_str(), hex(in).c_str(), verdict, hex(encode(a)).c_str(), hex(encode(b)).c_str()); fflush(stdout); _exit(3); }
    judge(with); outcome("unknown fields");
}
static void nulls() {
    shard(); Ledger led; story = " null arguments"; int e; NoiseProtobuf p; uint8_t buf[64];
    {
        e = cm->make(0); EXPECT(e == NOISE_ERROR_INVALID_PARAM, "null argument", "new returned %x", e); e = cm->destroy(0); EXPECT(e == NOISE_ERROR_INVALID_PARAM, "null argument", "free returned %x", e);
        Obj o(cm); MV v(cm); noise_protobuf_prepare_output(&p, buf, 64);
        e = cm->write(&p, 0, 0); EXPECT(e == NOISE_ERROR_INVALID_PARAM, "null argument", "write returned %x", e); e = cm->write(0, 0, o.p); EXPECT(e == NOISE_ERROR_INVALID_PARAM, "null argument", "write returned %x", e);
        noise_protobuf_prepare_input(&p, buf, 0); e = cm->read(&p, 0, 0); EXPECT(e == NOISE_ERROR_INVALID_PARAM, "null argument", "read returned %x", e); void *r = (void *)8; e = cm->read(0, 0, &r); EXPECT(e == NOISE_ERROR_INVALID_PARAM && !r, "null argument", "read returned %x", e);
        for (auto &f : cm->fields) {
            EXPECT(f.clear(0) == NOISE_ERROR_INVALID_PARAM && !f.has(0), "null argument", "clear/has_%s of null", f.name);
            if (list(f)) EXPECT(f.count(0) == 0, "null argument", "count_%s of null", f.name);
            if (num(f)) EXPECT(f.get(0, 0) == 0 && f.set(0, 1) == NOISE_ERROR_INVALID_PARAM, "null argument", "%s of null", f.name);
            else if (f.kind == MESSAGE) { void *s = (void *)8; EXPECT(!f.getm(0, 0) && f.newm(0, &s) == NOISE_ERROR_INVALID_PARAM && !s && f.newm(o.p, 0) == NOISE_ERROR_INVALID_PARAM, "null argument", "%s of null", f.name); if (list(f)) { void *x = 0; f.sub->make(&x); EXPECT(f.insert(0, 0, x) == NOISE_ERROR_INVALID_PARAM, "null argument", "insert_%s into null", f.name); f.sub->destroy(x); } }
            else EXPECT(!f.gets(0, 0) && f.getsize(0, 0) == 0 && f.sets(0, "x", 1) == NOISE_ERROR_INVALID_PARAM, "null argument", "%s of null", f.name);
        }
        check_all(o.p, v); round_trip(o.p, v, false);
    }
    finish_leaks(); outcome("null arguments");
}
static void oom() {
    size_t fi = (size_t)choose((int)cm->fields.size(), "field"); const Field &f = cm->fields[fi]; int k = choose(n_ops(f), "op"), before = choose(6, "elements before"), at = choose(3, "failing allocation"); shard();
    Ledger led; story = fmt(" allocation %d fails;", at); serial = 1;
    {
        Obj o(cm); MV v(cm); for (int i = 0; i < (list(f) ? before : before & 1); i++) apply(o.p, v, fi, 0, false);
        MV was = v; for (auto &x : was.f) for (auto &y : x) if (y.m) y.m = clone(*y.m);
        al::reset(); al::a().fail_at = at; int e = apply(o.p, v, fi, k, true); long failed = al::a().failed; al::reset();
        if (failed) EXPECT(e == NOISE_ERROR_NO_MEMORY, "failed allocation not reported", "returned %x", e); else EXPECT(e == 0, "unexpected error", "returned %x", e);
        check_all(o.p, v); apply(o.p, v, fi, 0, false); check_all(o.p, v); round_trip(o.p, v, false);
    }
    finish_leaks();
    // reading with each allocation failing in turn
    bytes in = specimen(0); for (int n = 0; n < 60; n++) { void *r = 0; Ledger l2; al::a().fail_at = n; int e = read_msg(in, cm, 0, &r); long failed = al::a().failed; al::reset(); story = fmt(" reading with allocation %d failing", n); if (failed) { EXPECT(e == NOISE_ERROR_NO_MEMORY && !r, "failed allocation not reported", "returned %x", e); } else { if (!e) cm->destroy(r); } finish_leaks(); if (!failed) break; }
    outcome("allocation failures");
}
static void body() {
    auto &ms = all(); cm = &ms[choose((int)ms.size(), "message")]; story.clear();
    switch (choose(6, "part")) { case 0: sequences(); break; case 1: growth(); break; case 2: damage(); break; case 3: unknown(); break; case 4: nulls(); break; default: oom(); }
}
static void setup() {
    for (auto &m : all()) for (auto &f : m.fields) if (f.subname) { for (auto &x : all()) if (!strcmp(x.group, m.group) && !strcmp(x.name, f.subname)) f.sub = &x; if (!f.sub) { printf("@error no table for %s\n", f.subname); fflush(stdout); _exit(3); } }
}
VH_MAIN2(body, setup)
