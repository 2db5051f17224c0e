// C14: the protobuf reader on arbitrary bytes: every short input over a critical alphabet and every sequence of reads up to a
// bound, against an independent reader; and whole documents parsed recursively, with every byte altered.
#include "pbref.hpp"
using namespace vh;
using namespace pr;

struct Unspecified {};          // the wire format leaves the result open (or the implementation may be stricter)
// Independent reader.
struct Ref {
    const bytes &d; size_t pos = 0; int err = 0;
    explicit Ref(const bytes &b) : d(b) {}
    bool fail() { if (!err) err = NOISE_ERROR_INVALID_FORMAT; return false; }
    bool varint(uint64_t &v, size_t &at, bool &wide) {      // wide: more than 64 bits
        v = 0; wide = false;
        for (int i = 0; i < 10; i++) {
            if (at >= d.size()) return false;
            uint8_t c = d[at++];
            if (i == 9 && (c & 0x7e)) wide = true;
            v |= (uint64_t)(c & 127) << (7 * i);
            if (!(c & 128)) return true;
        }
        return false;
    }
    bool rvar(uint64_t &v) { if (err) return false; bool w; if (!varint(v, pos, w)) return fail(); if (w) throw Unspecified(); return true; }
    bool tag(int t, int w) {
        if (err) return false;
        if (t < 0) return fail();
        if (t == 0) return true;
        uint64_t v; if (!rvar(v)) return false;
        if (v != ((uint64_t)t << 3 | (unsigned)w)) return fail();
        return true;
    }
    bool num(int k, int t, uint64_t &out) {
        out = 0;
        if (!tag(t, wire(k))) return false;
        if (wire(k) == 0) {
            uint64_t v; if (!rvar(v)) return false;
            switch (k) {
            case INT32: case UINT32: out = (uint32_t)v; break;
            case SINT32: if (v >> 32) throw Unspecified(); out = (uint32_t)(v & 1 ? ~(v >> 1) : v >> 1); break;
            case SINT64: out = v & 1 ? ~(v >> 1) : v >> 1; break;
            case BOOL: out = v != 0; break;
            default: out = v;
            }
            return true;
        }
        size_t n = wire(k) == 5 ? 4 : 8;
        if (d.size() - pos < n) return fail();
        for (size_t i = 0; i < n; i++) out |= (uint64_t)d[pos + i] << (8 * i);
        pos += n;
        return true;
    }
    bool str(int k, int t, int how, size_t cap, bytes &out) {
        out.clear();
        if (!tag(t, 2)) return false;
        uint64_t n; if (!rvar(n)) return false;
        if (how == FIXEDBUF && (k == STRING ? n >= cap : n > cap)) return fail();
        if (how == ALLOCATED && cap && n > cap) return fail();
        if (n > d.size() - pos) return fail();
        out = d.substr(pos, n);
        if (k == STRING && !utf8_ok(out.data(), out.size())) { out.clear(); return fail(); }
        pos += n; return true;
    }
    bool start(int t, size_t &end) {
        end = 0;
        if (!tag(t, 2)) return false;
        if (!t) { end = d.size(); return true; }
        uint64_t n; if (!rvar(n)) return false;
        if (n > d.size() - pos) return fail();
        end = pos + n; return true;
    }
    bool skipf() {
        uint64_t v, n; if (!rvar(v)) return false;
        switch (v & 7) {
        case 0: return rvar(n);
        case 1: if (d.size() - pos < 8) return fail(); pos += 8; break;
        case 5: if (d.size() - pos < 4) return fail(); pos += 4; break;
        case 2: if (!rvar(n)) return false; if (n > d.size() - pos) return fail(); pos += n; break;
        default: return fail();
        }
        if (v >> 3 == 0 || v >> 3 > 536870911) throw Unspecified();    // field numbers that do not exist: may also be refused
        return true;
    }
};
enum { R_NUM = 0, R_STR_A = 13, R_STR_F, R_STR_F1, R_BYTES_A, R_BYTES_F, R_BYTES_A2, R_START, R_END, R_ATEND, R_SKIP, R_STOP, R_FINISH, R_COUNT };
static std::string oname(int o, int t) {
    static const char *n[] = {"read_alloc_string", "read_string[4]", "read_string[1]", "read_alloc_bytes", "read_bytes[3]", "read_alloc_bytes max 2", "read_start_element", "read_end_element", "at_end", "skip", "stop", "finish_input"};
    return o < 13 ? fmt("read_%s tag %d", kname(o), t) : fmt("%s tag %d", n[o - 13], t);
}
struct Pair {
    const bytes &in; Block blk; NoiseProtobuf p; Ref r; std::vector<size_t> ends;
    explicit Pair(const bytes &b) : in(b), blk(b), r(b) { int e = noise_protobuf_prepare_input(&p, blk.p, blk.n); CHECK(e == 0, "prepare_input: %x", e); }
    void peek() {
        int t = noise_protobuf_peek_tag(&p); size_t s = noise_protobuf_peek_size(&p);
        int t2 = noise_protobuf_peek_tag(&p); size_t s2 = noise_protobuf_peek_size(&p);
        CHECK(t == t2 && s == s2, "peeking changed something");
        if (r.err) { CHECK(t == 0 && s == 0, "peeking after an error returned %d, %zu", t, s); return; }
        uint64_t v = 0, n = 0; size_t at = r.pos; bool w = false, w2 = false;
        bool ok = r.varint(v, at, w);
        if (!ok || (!w && v >> 3 == 0)) { CHECK(t == 0, "peek_tag returned %d where there is no tag", t); if (!ok) CHECK(s == 0, "peek_size returned %zu where there is no tag", s); return; }
        if (w) return;
        if (v >> 3 > 536870911) { CHECK(t == 0, "peek_tag returned %d for an impossible tag", t); return; }
        int wt = v & 7;
        if (wt == 0 || wt == 1 || wt == 2 || wt == 5) CHECK(t == (int)(v >> 3), "peek_tag returned %d instead of %d", t, (int)(v >> 3));
        else CHECK(t == (int)(v >> 3) || t == 0, "peek_tag returned %d instead of %d", t, (int)(v >> 3));
        if (wt != 2) { CHECK(s == 0, "peek_size returned %zu for a field without a size", s); return; }
        if (!r.varint(n, at, w2)) { CHECK(s == 0, "peek_size returned %zu where there is no size", s); return; }
        if (w2) return;
        if (n <= r.d.size() - at) CHECK(s == n, "peek_size returned %zu instead of %llu", s, (unsigned long long)n);
        else CHECK(s == n || s == 0, "peek_size returned %zu instead of %llu", s, (unsigned long long)n);
    }
    void same(int e, bool ok, const char *what) {
        CHECKK("result", e == (ok ? 0 : r.err), "%s of %s returned %x instead of %x", what, hex(in).c_str(), e, ok ? 0 : r.err);
        if (!r.err) { CHECKK("position", p.posn == r.pos, "%s of %s left position %zu instead of %zu", what, hex(in).c_str(), p.posn, r.pos); }
        else { CHECKK("bounds", p.posn <= in.size(), "position %zu of %zu", p.posn, in.size()); }
    }
    void doop(int o, int t) {
        op();
        std::string nm = g().replay ? oname(o, t) : std::string();
        if (g().replay) tracef("%s", nm.c_str());
        const char *w = o < 13 ? kname(o) : "read";
        if (o < 13) { uint64_t a, b; int e = read_num(&p, o, t, a); bool ok = r.num(o, t, b); same(e, ok, w); CHECKK("value", a == b, "%s of %s returned %llx instead of %llx", w, hex(in).c_str(), (unsigned long long)a, (unsigned long long)b); return; }
        auto str = [&](int k, int how, size_t cap) { bytes a, b; bool nul; int e = read_str(&p, k, t, how, cap, a, nul); bool ok = r.str(k, t, how, cap, b); same(e, ok, kname(k)); CHECKK("value", a == b, "%s of %s returned %s instead of %s", kname(k), hex(in).c_str(), hex(a).c_str(), hex(b).c_str()); };
        switch (o) {
        case R_STR_A: str(STRING, ALLOCATED, 0); break;
        case R_STR_F: str(STRING, FIXEDBUF, 4); break;
        case R_STR_F1: str(STRING, FIXEDBUF, 1); break;
        case R_BYTES_A: str(BYTES, ALLOCATED, 0); break;
        case R_BYTES_F: str(BYTES, FIXEDBUF, 3); break;
        case R_BYTES_A2: str(BYTES, ALLOCATED, 2); break;
        case R_START: { size_t a = 77, b; int e = noise_protobuf_read_start_element(&p, t, &a); bool ok = r.start(t, b); same(e, ok, "start_element"); CHECKK("value", a == b, "end position %zu instead of %zu", a, b); if (ok) ends.push_back(b); break; }
        case R_END: { size_t end = ends.empty() ? 0 : ends.back(); int e = noise_protobuf_read_end_element(&p, end); if (!ends.empty()) ends.pop_back(); bool ok = !r.err && (r.pos == end || r.fail()); same(e, ok, "end_element"); break; }
        case R_ATEND: { size_t end = ends.empty() ? in.size() : ends.back(); int e = noise_protobuf_read_at_end_element(&p, end); CHECKK("value", e == (r.err || r.pos >= end), "at_end_element returned %d", e); break; }
        case R_SKIP: { int e = noise_protobuf_read_skip(&p); bool ok = r.skipf(); same(e, ok, "skip"); break; }
        case R_STOP: { int e = noise_protobuf_read_stop(&p); r.fail(); same(e, false, "stop"); break; }
        case R_FINISH: { int e = noise_protobuf_finish_input(&p); bool ok = !r.err && (r.pos == in.size() || r.fail()); same(e, ok, "finish_input"); break; }
        }
    }
};
// Recursive parse of a fixed message type, the way generated code does it.
struct Msg { std::string out; };
static void parse_lib(NoiseProtobuf *p, int tag, int depth, std::string &out) {
    size_t end; int loops = 0;
    noise_protobuf_read_start_element(p, tag, &end);
    out += "{";
    while (!noise_protobuf_read_at_end_element(p, end)) {
        if (++loops > 1000) failk("endless", "the reader does not make progress");
        uint64_t x; bytes s; bool nul; int e;
        switch (noise_protobuf_peek_tag(p)) {
        case 1: e = read_num(p, UINT64, 1, x); out += fmt("u%llx,", (unsigned long long)x); break;
        case 2: e = read_str(p, STRING, 2, ALLOCATED, 0, s, nul); out += "s" + hex(s) + ","; break;
        case 3: if (depth < 3) { parse_lib(p, 3, depth + 1, out); break; }
        /* fall through */
        default: e = noise_protobuf_read_skip(p); out += "k,"; break;
        }
    }
    noise_protobuf_read_end_element(p, end);
    out += "}";
}
static bool parse_ref(const bytes &d, size_t &pos, size_t end, int depth, std::string &out, Ref &r) {   // a parser that knows its limits
    out += "{";
    while (pos < end) {
        uint64_t v, n; bool w; size_t at = pos; 
        auto lim = [&](uint64_t &x) { return r.varint(x, at, w) && at <= end && (w ? throw Unspecified() : true); };
        if (!lim(v)) return false;
        uint64_t tag = v >> 3; int wt = v & 7;
        if (tag == 0 || tag > 536870911) { throw Unspecified(); }
        if (tag == 1) { if (wt != 0 || !lim(n)) return false; out += fmt("u%llx,", (unsigned long long)n); }
        else if (tag == 2) { if (wt != 2 || !lim(n) || n > end - at) return false; if (!utf8_ok(d.data() + at, n)) return false; out += "s" + hex(d.data() + at, n) + ","; at += n; }
        else if (tag == 3 && depth < 3) { if (wt != 2 || !lim(n) || n > end - at) return false; size_t q = at; if (!parse_ref(d, q, at + n, depth + 1, out, r)) return false; at += n; }
        else { switch (wt) { case 0: if (!lim(n)) return false; break; case 1: if (end - at < 8) return false; at += 8; break; case 5: if (end - at < 4) return false; at += 4; break;
            case 2: if (!lim(n) || n > end - at) return false; at += n; break; default: return false; } out += "k,"; }
        pos = at;
    }
    out += "}";
    return true;
}
static void whole(const bytes &in) {
    op();
    std::string a, b; bool want = false, unspec = false;
    Ref r(in); size_t pos = 0;
    try { want = parse_ref(in, pos, in.size(), 0, b, r); } catch (Unspecified &) { unspec = true; }
    Block blk(in); NoiseProtobuf p; noise_protobuf_prepare_input(&p, blk.p, blk.n);
    parse_lib(&p, 0, 0, a);
    int e = noise_protobuf_finish_input(&p);
    if (unspec) return;
    CHECKK("document", (e == 0) == want, "document %s: %x, but it is %s", hex(in, 80).c_str(), e, want ? "well-formed" : "malformed");
    if (!want) CHECKK("document-error", e == NOISE_ERROR_INVALID_FORMAT, "document %s: %x", hex(in, 80).c_str(), e);
    if (want) CHECKK("document-value", a == b, "document %s read as %s instead of %s", hex(in, 80).c_str(), a.c_str(), b.c_str());
    distinct(hash_bytes(in.data(), in.size()));
}
// Inputs longer than any count of two or four bytes' worth of varint: fields, elements and remainders of every such length
static void large() {
    static const size_t sz[] = {127, 128, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 2097151, 2097152, 2097153};
    size_t L = sz[choose(16, "length")]; int before = choose(3, "before"), rest = choose(4, "rest"); shard(); g().ticks = 0;
    bytes pre = before == 0 ? bytes() : before == 1 ? B("\x08\x05") : varint(10) + varint(70000) + pattern(70000, 'a', 0);
    bytes tail = rest == 0 ? bytes() : rest == 1 ? bytes(1, 0x08) : B("\x08\x07"); bytes body(L, 'k'); body.replace(0, 4, varint(2 * 8 + 2) + B("\x01\x4b") + bytes(1, 'x'));
    bytes in = pre + varint(10) + varint(L) + body + tail; if (rest == 3) in.resize(in.size() - 3);
    struct O { int kind, how; size_t cap; }; std::vector<O> os; for (int k : {(int)STRING, (int)BYTES}) { for (size_t c : {(size_t)1, L - 1, L, L + 1, (size_t)65535, (size_t)65536}) { os.push_back({k, FIXEDBUF, c}); os.push_back({k, ALLOCATED, c}); } os.push_back({k, ALLOCATED, 0}); }
    auto begin = [&](Pair &q) { if (before) { q.peek(); if (before == 1) q.doop(UINT32, 1); else q.doop(R_SKIP, 0); } q.peek(); };
    auto finish = [&](Pair &q) { q.peek(); q.doop(UINT64, 1); q.doop(R_FINISH, 0); };
    for (auto &o : os) { Pair q(in); begin(q); bytes a, b; bool nul; op(); int e = read_str(&q.p, o.kind, 1, o.how, o.cap, a, nul); bool ok = q.r.str(o.kind, 1, o.how, o.cap, b); CHECKK("large", e == (ok ? 0 : q.r.err) && a == b, "reading a field of %zu bytes with room for %zu: %x", L, o.cap, e); finish(q); }
    { Pair q(in); begin(q); q.doop(R_SKIP, 0); finish(q); }
    { Pair q(in); begin(q); q.doop(R_START, 1); q.peek(); q.doop(R_ATEND, 0); q.doop(R_BYTES_A, 2); q.doop(R_ATEND, 0); q.peek(); q.doop(R_END, 0); finish(q); }
    { bytes el = pre + element(1, varint(18) + varint(L) + body) + tail; Pair q(el); begin(q); q.doop(R_START, 1); q.doop(R_SKIP, 0); q.doop(R_ATEND, 0); q.doop(R_END, 0); finish(q); whole(el); }
    { Pair q(in); q.doop(R_START, 0); begin(q); q.doop(R_SKIP, 0); q.doop(R_ATEND, 0); q.doop(R_END, 0); finish(q); }
    whole(in); outcome("large inputs"); distinct(mix(L, before * 4 + rest));
}
static void body() {
    int part = choose(5, "part");
    if (part == 4) { large(); return; }
    if (part == 0) {                        // all short inputs over an alphabet, all read sequences
        static const uint8_t alpha[] = {0x00, 0x01, 0x02, 0x08, 0x09, 0x0a, 0x0b, 0x0d, 0x12, 0x7f, 0x80, 0x81, 0xc3, 0xa9, 0xff};
        const int NA = 15;
        int maxn = g().thorough ? 4 : 3;
        bytes in; int n = choose(maxn + 1, "length");
        for (int i = 0; i < n; i++) { in.push_back(alpha[choose(NA, "byte")]); if (i == 1) shard(); }
        if (n < 2) shard();
        int depth = n >= 4 ? 1 : 2;
        Pair q(in);
        try {
            for (int i = 0; i < depth; i++) {
                q.peek();
                int o = choose(R_COUNT, "read"); bool tagged = o < R_END && o != R_END; int t = tagged ? (int[]){0, 1, 2, -1}[choose(i == 0 ? 4 : 2, "tag")] : 0;
                q.doop(o, t);
                state(mix(hash_bytes(in.data(), in.size()), mix(q.r.pos, q.r.err)));
            }
            q.peek();
            q.doop(R_SKIP, 0); q.doop(R_FINISH, 0); q.doop(R_FINISH, 0);
            outcome(q.r.err ? "error" : "read");
        } catch (Unspecified &) { outcome("unspecified"); }
    } else if (part == 1) {                 // varints of every length with every last byte, as values, tags and sizes
        int len = 1 + choose(12, "bytes"), where = choose(3, "where"), fill = (int[]){0x80, 0x81, 0xff, 0xd5}[choose(4, "fill")];
        shard();
        for (int last = 0; last < 256; last++) for (int tail = 0; tail < 3; tail++) {
            bytes v; for (int i = 0; i + 1 < len; i++) v.push_back(fill); v.push_back(last);
            bytes in = (where == 0 ? bytes() : where == 1 ? bytes(1, 0x08) : bytes(1, 0x0a)) + v + (tail == 0 ? bytes() : tail == 1 ? bytes(1, 0x05) : bytes(150, 0x21));
            for (int o : {(int)INT32, (int)UINT32, (int)INT64, (int)UINT64, (int)SINT32, (int)SINT64, (int)BOOL, (int)FIXED32, (int)R_STR_A, (int)R_BYTES_A, (int)R_BYTES_F, (int)R_START, (int)R_SKIP}) {
                int t = where ? 1 : 0;
                if (where == 0 && last % 16 == 8 && len == 1) t = 1;
                Pair q(in); try { q.peek(); q.doop(o, t); q.peek(); q.doop(R_SKIP, 0); q.peek(); } catch (Unspecified &) {}
            }
            whole(in);
        }
        outcome("varint");
    } else if (part == 2) {                 // tags of every size, read with the right and with neighbouring tags and types
        static const int tags[] = {1, 2, 15, 16, 127, 128, 2047, 2048, 16383, 16384, 262143, 262144, 33554431, 33554432, 536870910, 536870911};
        int t = pick(tags, "tag"), w = choose(8, "wire type"), pad = choose(4, "padding"); shard();
        bytes tb = varint((uint64_t)t << 3 | w);
        for (int i = 0; i < pad; i++) { tb[tb.size() - 1] |= 0x80; tb.push_back(0); }       // longer than necessary: still the same number
        for (int rest = 0; rest <= 9; rest++) for (int first : {0, 1, 3, 9, 0xff}) {
            bytes in = tb + (rest ? bytes(1, first) : bytes()) + (rest > 1 ? bytes(rest - 1, 0x41) : bytes());
            for (int o = 0; o < R_COUNT; o++) for (int rt : {t, t + 1, t - 1, t ^ 16, t << 1}) { if (o >= R_END && rt != t) continue; if (rt < 0) continue; Pair q(in); try { q.peek(); q.doop(o, rt); q.peek(); q.doop(R_SKIP, 0); q.peek(); q.doop(R_FINISH, 0); } catch (Unspecified &) {} }
            whole(in);
        }
        outcome("tags");
    } else {                                // documents, whole, cut, and with every byte set to every value
        static const char *parts[] = {"\x08\x05", "\x08\xff\x01", "\x12\x03" "abc", "\x12\x02\xc3\xa9", "\x20\x96\x01", "\x21" "12345678", "\x25" "1234", "\x22\x04" "wxyz", "\xa2\x06\x01!"};
        std::vector<bytes> items; for (auto p : parts) items.push_back(B(p));
        int a = choose(9, "1"), b = choose(9, "2"), shape = choose(5, "shape"); shard();
        bytes x = items[a], y = items[b], in;
        auto el = [](const bytes &z) { return element(3, z); };
        switch (shape) { case 0: in = x + y; break; case 1: in = el(x) + y; break; case 2: in = el(x + el(y)) + x; break; case 3: in = el(el(el(x)) + y); break; default: in = el(el(el(el(x) + y))) + y; }
        for (size_t n = 0; n <= in.size(); n++) whole(in.substr(0, n));
        for (size_t i = 0; i < in.size(); i++) for (int v = 0; v < 256; v++) {
            bytes z = in; z[i] = v; whole(z);
            if (g().thorough) for (size_t j = i + 1; j < in.size(); j++) for (int v2 : {0, 1, 2, 3, 4, 8, 0x0a, 0x12, 0x1a, 0x7f, 0x80, 0xff}) { bytes z2 = z; z2[j] = v2; whole(z2); }
        }
        for (size_t i = 0; i <= in.size(); i++) for (int v = 0; v < 256; v++) { bytes z = in; z.insert(i, 1, v); whole(z); }
        for (size_t i = 0; i < in.size(); i++) { bytes z = in; z.erase(i, 1); whole(z); }
        outcome("documents");
        sample(hex(in));
    }
}
VH_MAIN(body)
