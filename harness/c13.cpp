// C13: protobuf writing and reading back, compared with an independent encoder; every buffer size; every UTF-8 class.
#include "pbref.hpp"
using namespace vh;
using namespace pr;

static std::vector<uint64_t> numbers(int k) {
    std::vector<uint64_t> v;
    if (k == BOOL) return {0, 1, 2, 0xffffffff, 0x80000000u, 0x100};
    if (k == FLOAT) return {0, 0x80000000u, 0x3f800000, 0xbf800000u, 0x7f7fffff, 1, 0x7f800000, 0xff800000u, 0x7fc00000, 0x42f6e979, 0x01020304, 0x7f800001, 0x7fa00000, 0xff812345u, 0xffc00001u, 0x7fffffff, 0x007fffff, 0x00800000, 0x80000001u};
    if (k == DOUBLE) return {0, 1ULL << 63, 0x3ff0000000000000ULL, 0xbff0000000000000ULL, 1, 0x7ff0000000000000ULL, 0x7ff8000000000000ULL, 0x400921fb54442d18ULL, 0x0102030405060708ULL, 0x7ff0000000000001ULL, 0x7ff4000000000000ULL, 0xfff8000012345678ULL, ~0ULL >> 1, 0x000fffffffffffffULL, 0x0010000000000000ULL, 0x8000000000000001ULL, 0x36a0000000000000ULL};
    int w = is32(k) ? 32 : 64; uint64_t m = w == 32 ? 0xffffffffULL : ~0ULL;
    for (int b = 0; b <= w; b++) for (int d = -1; d <= 1; d++) { uint64_t x = (b == 64 ? 0 : 1ULL << b) + (uint64_t)(int64_t)d; v.push_back(x & m); v.push_back((0 - x) & m); }
    v.push_back(0x0102030405060708ULL & m);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
static const int tags[] = {0, 1, 2, 15, 16, 17, 2047, 2048, 2049, 262143, 262144, 33554431, 33554432, 536870911};

struct Node { int tag; bool nest; Val v; std::vector<Node> kids; };
static bytes enc(const std::vector<Node> &l) { bytes b; for (auto &n : l) b += n.nest ? element(n.tag, enc(n.kids)) : field(n.tag, n.v); return b; }
static void wr(NoiseProtobuf *p, const std::vector<Node> &l) {
    for (size_t i = l.size(); i-- > 0;) {
        op();
        if (l[i].nest) { size_t end; noise_protobuf_write_end_element(p, &end); wr(p, l[i].kids); noise_protobuf_write_start_element(p, l[i].tag, end); }
        else pr::write(p, l[i].tag, l[i].v);
    }
}
static void rd_one(NoiseProtobuf *p, const Node &n, int how, bool last) {
    op();
    if (n.tag) CHECK(noise_protobuf_peek_tag(p) == n.tag, "peek_tag returned %d instead of %d", noise_protobuf_peek_tag(p), n.tag);
    if (n.nest) {
        if (n.tag) CHECK(noise_protobuf_peek_size(p) == enc(n.kids).size(), "peek_size of an element");
        size_t end = 1; int e = noise_protobuf_read_start_element(p, n.tag, &end); CHECK(e == 0, "read_start_element: %x", e);
        for (size_t i = 0; i < n.kids.size(); i++) { CHECK(!noise_protobuf_read_at_end_element(p, end) || enc(std::vector<Node>(n.kids.begin() + i, n.kids.end())).empty(), "end of element reported too early"); rd_one(p, n.kids[i], how, false); }
        CHECK(noise_protobuf_read_at_end_element(p, end), "end of element not reported");
        e = noise_protobuf_read_end_element(p, end); CHECK(e == 0, "read_end_element: %x", e);
    } else if (n.v.kind >= STRING) {
        if (n.tag) CHECK(noise_protobuf_peek_size(p) == n.v.s.size(), "peek_size returned %zu instead of %zu", noise_protobuf_peek_size(p), n.v.s.size());
        bytes s; bool nul; size_t cap = how == 0 ? n.v.s.size() + (n.v.kind == STRING) : how == 1 ? 0 : n.v.s.size();
        if (how == 3) cap = n.v.s.size() + 5;
        int e = read_str(p, n.v.kind, n.tag, how == 0 || how == 3 ? FIXEDBUF : ALLOCATED, cap, s, nul);
        CHECK(e == 0 && s == n.v.s, "reading %s: %x %s", vtext(n.v).c_str(), e, hex(s).c_str());
    } else {
        uint64_t x; int e = read_num(p, n.v.kind, n.tag, x);
        if (n.tag && how) (void)0;
        CHECK(e == 0 && x == (n.v.kind == BOOL ? n.v.bits != 0 : n.v.bits), "reading %s back: %x %llx", vtext(n.v).c_str(), e, (unsigned long long)x);
    }
    (void)last;
}
// Writes the document into every capacity up to its size + 2, measures it, reads it back in full and truncated.
static void document(const std::vector<Node> &doc, const bytes &want, bool all_caps) {
    std::vector<size_t> caps;
    if (all_caps) for (size_t c = 0; c <= want.size() + 2; c++) caps.push_back(c);
    else { for (size_t c : {(size_t)0, (size_t)1, want.size() / 2, want.size() - 1, want.size(), want.size() + 1, want.size() + 300}) caps.push_back(c); if (want.empty()) caps = {0, 1, 300}; }
    for (size_t cap : caps) {
        bool fits = cap >= want.size();
        NoiseProtobuf p; size_t n = 77; uint8_t *d = (uint8_t *)1;
        int e = noise_protobuf_prepare_measure(&p, cap); CHECK(e == 0, "prepare_measure: %x", e);
        wr(&p, doc); e = noise_protobuf_finish_measure(&p, &n);
        CHECK(fits ? e == 0 && n == want.size() : e == NOISE_ERROR_INVALID_LENGTH && n == 0, "measuring %zu bytes within %zu: %x, %zu", want.size(), cap, e, n);
        for (int shift = 0; shift < 2; shift++) {
            Block b(cap, 0xEE);
            e = noise_protobuf_prepare_output(&p, b.p, cap); CHECK(e == 0, "prepare_output: %x", e);
            wr(&p, doc);
            e = shift ? noise_protobuf_finish_output_shift(&p, &d, &n) : noise_protobuf_finish_output(&p, &d, &n);
            if (!fits) { CHECK(e == NOISE_ERROR_INVALID_LENGTH && !d && n == 0, "writing %zu bytes into %zu: %x, %zu bytes", want.size(), cap, e, n); continue; }
            CHECK(e == 0 && n == want.size(), "writing %zu bytes into %zu: %x, %zu bytes", want.size(), cap, e, n);
            CHECK(d >= b.p && d + n <= b.p + cap && (!shift || d == b.p), "the output lies outside the buffer or was not shifted");
            CHECK(B(d, n) == want, "encoded as %s instead of %s", hex(d, n).c_str(), hex(want).c_str());
            if (!shift) CHECK(d == b.p + cap - n, "the output is not at the end of the buffer");
        }
        distinct(mix(hash_bytes(want.data(), want.size()), cap));
    }
    for (int how = 0; how < 4; how++) {
        Block in(want); NoiseProtobuf p; int e = noise_protobuf_prepare_input(&p, in.p, in.n); CHECK(e == 0, "prepare_input: %x", e);
        for (auto &n : doc) rd_one(&p, n, how, false);
        e = noise_protobuf_finish_input(&p); CHECK(e == 0, "finish_input: %x", e);
    }
    { // one byte too many
        Block in(want + B("\x01")); NoiseProtobuf p; noise_protobuf_prepare_input(&p, in.p, in.n);
        bool open = false; for (auto &n : doc) if (n.tag == 0 && n.nest) open = true;
        if (!open) { for (auto &n : doc) rd_one(&p, n, 0, true); int e = noise_protobuf_finish_input(&p); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "trailing byte not noticed: %x", e); e = noise_protobuf_finish_input(&p); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "second finish_input: %x", e); }
    }
}
static bytes cp_utf8(uint32_t c) {
    bytes b;
    if (c < 0x80) b.push_back(c);
    else if (c < 0x800) { b.push_back(0xC0 | c >> 6); b.push_back(0x80 | (c & 63)); }
    else if (c < 0x10000) { b.push_back(0xE0 | c >> 12); b.push_back(0x80 | ((c >> 6) & 63)); b.push_back(0x80 | (c & 63)); }
    else { b.push_back(0xF0 | c >> 18); b.push_back(0x80 | ((c >> 12) & 63)); b.push_back(0x80 | ((c >> 6) & 63)); b.push_back(0x80 | (c & 63)); }
    return b;
}
struct Utf {   // exact-size blocks reused for many strings of one length
    Block raw, fld, out; size_t n;
    explicit Utf(size_t n_) : raw(n_), fld(n_ + 2), out(n_ + 2), n(n_) { fld.p[0] = 0x0A; fld.p[1] = (uint8_t)n; }
    void test(const uint8_t *s) {
        bool ok = utf8_ok(s, n); op(); g().checks += 2;
        memcpy(raw.p, s, n); memcpy(fld.p + 2, s, n);
        NoiseProtobuf p; uint8_t *d; size_t sz;
        noise_protobuf_prepare_output(&p, out.p, out.n);
        int e = noise_protobuf_write_string(&p, 1, (const char *)raw.p, n), e2 = noise_protobuf_finish_output(&p, &d, &sz);
        if (ok ? e || e2 || sz != n + 2 || memcmp(d, fld.p, sz) : e != NOISE_ERROR_INVALID_FORMAT || e2 != NOISE_ERROR_INVALID_FORMAT)
            failk("utf8-write", "writing the %s string %s: %x %x", ok ? "well-formed" : "ill-formed", hex(s, n).c_str(), e, e2);
        noise_protobuf_prepare_measure(&p, n + 2); e = noise_protobuf_write_string(&p, 1, (const char *)raw.p, n); e2 = noise_protobuf_finish_measure(&p, &sz);
        if (ok ? e || e2 || sz != n + 2 : e != NOISE_ERROR_INVALID_FORMAT || e2 != NOISE_ERROR_INVALID_FORMAT || sz) failk("utf8-measure", "measuring the %s string %s: %x %x, %zu", ok ? "well-formed" : "ill-formed", hex(s, n).c_str(), e, e2, sz);
        noise_protobuf_prepare_input(&p, fld.p, fld.n); sz = 1;
        e = noise_protobuf_read_string(&p, 1, (char *)out.p, out.n, &sz);
        if (ok ? e || sz != n || memcmp(out.p, s, n) || out.p[n] : e != NOISE_ERROR_INVALID_FORMAT || sz != 0 || out.p[0])
            failk("utf8-read", "reading the %s string %s: %x", ok ? "well-formed" : "ill-formed", hex(s, n).c_str(), e);
        if (n > 3) {
            noise_protobuf_prepare_input(&p, fld.p, fld.n); char *a = (char *)1;
            e = noise_protobuf_read_alloc_string(&p, 1, &a, 0, &sz);
            if (ok ? e || !a || sz != n || memcmp(a, s, n) : e != NOISE_ERROR_INVALID_FORMAT || a) failk("utf8-alloc", "reading the %s string %s: %x", ok ? "well-formed" : "ill-formed", hex(s, n).c_str(), e);
            if (!e) free(a);
        }
    }
};
// A long string with one fragment, good or bad, at one place: written, measured and read in three ways
static void long_string(size_t n, size_t at, const bytes &frag) {
    if (at > n || n - at < frag.size()) return;
    bytes s(n, 'q'); for (size_t i = 0; i < n; i += 97) s[i] = 'Q'; s.replace(at, frag.size(), frag); bool ok = utf8_ok((const uint8_t *)s.data(), n); op(); bytes want = varint(10) + varint(n) + s;
    auto res = [&](const char *what, int e, bool good) { CHECKK("utf8-long", ok ? e == 0 && good : e == NOISE_ERROR_INVALID_FORMAT, "%s %zu bytes with %s at %zu: %x", what, n, hex(frag).c_str(), at, e); };
    Block raw(s), out(want.size()), in(want), t(n + 1); NoiseProtobuf p; uint8_t *d; size_t sz = 0;
    noise_protobuf_prepare_measure(&p, want.size()); int e = noise_protobuf_write_string(&p, 1, (const char *)raw.p, n); res("measuring", e, noise_protobuf_finish_measure(&p, &sz) == 0 && sz == want.size());
    noise_protobuf_prepare_output(&p, out.p, out.n); e = noise_protobuf_write_string(&p, 1, (const char *)raw.p, n); res("writing", e, noise_protobuf_finish_output(&p, &d, &sz) == 0 && B(d, sz) == want);
    noise_protobuf_prepare_input(&p, in.p, in.n); e = noise_protobuf_read_string(&p, 1, (char *)t.p, t.n, &sz); res("reading", e, sz == n && t.get(n) == s && !t.p[n]);
    noise_protobuf_prepare_input(&p, in.p, in.n); char *a = 0; e = noise_protobuf_read_alloc_string(&p, 1, &a, 0, &sz); res("reading into new memory", e, a && sz == n && B(a, n) == s && !a[n]); CHECKK("utf8-long", ok || !a, "a string although reading failed"); free(a);
    noise_protobuf_prepare_input(&p, in.p, in.n); e = noise_protobuf_read_alloc_string(&p, 1, &a, n, &sz); res("reading at most as much", e, a && sz == n); if (!e) free(a);
    distinct(mix(mix(n, at), hash_bytes((const uint8_t *)frag.data(), frag.size())));
}
static void long_strings() {
    static const size_t ns[] = {60, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 16383, 16384, 65535, 65536, 70000};
    size_t n = ns[choose(20, "length")]; int fi = choose(10, "fragment"); shard();
    static const char *frag[] = {"z", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x80", "\xff", "\xc0\xaf", "\xed\xa0\x80", "\xe2\x82", "\xf4\x90\x80\x80", ""}; bytes fr = fi == 9 ? bytes(1, 0) : B(frag[fi]);
    if (n <= 520) { for (size_t at = 0; at < n; at++) long_string(n, at, fr); }
    else for (size_t at : {(size_t)0, (size_t)1, (size_t)63, (size_t)64, (size_t)255, (size_t)256, (size_t)510, n / 2, n / 2 + 1, n - 9, n - 8, n - 5, n - 4, n - 3, n - 2, n - 1}) long_string(n, at, fr);
    outcome("long strings");
}
// Elements of every length around the steps of the length field, in each other, and many levels deep
static void large() {
    int kind = choose(3, "shape"), which = choose(kind == 0 ? 12 : kind == 1 ? 6 : 4, "size"), t = choose(3, "tag"); shard(); int tag = (int[]){1, 16, 536870911}[t]; g().ticks = 0;
    static const size_t sz[] = {120, 127, 128, 129, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097160};
    auto str = [](size_t n) { Val v; v.kind = BYTES; v.s = pattern(n, 3, 7); return Node{2, false, v, {}}; }; Val iv; iv.kind = INT32; iv.bits = 7; Node small{3, false, iv, {}};
    std::vector<Node> doc;
    if (kind == 0) for (int d = 0; d < 1; d++) { size_t n = sz[which], head = 1 + varint(n).size(); doc = {small, {tag, true, {}, {small, str(n > head + 2 ? n - head - 2 : 0)}}, small}; }
    if (kind == 1) { size_t n = sz[which + 5]; doc = {{tag, true, {}, {{tag, true, {}, {small, str(n / 2)}}, {tag, true, {}, {str(n / 2), small}}, small}}}; }
    if (kind == 2) { int depth = (int[]){10, 64, 130, 300}[which]; doc = {small}; for (int i = 0; i < depth; i++) { std::vector<Node> o{small, {tag, true, {}, doc}}; if (i % 2) o.push_back(small); doc = o; } }
    document(doc, enc(doc), false); outcome("large documents");
}
static void body() {
    int part = choose(6, "part");
    if (part == 4) { long_strings(); return; }
    if (part == 5) { large(); return; }
    if (part == 0) {                        // single values, every tag size, every capacity
        int k = choose(NKINDS, "kind"); int tag = pick(tags, "tag");
        shard();
        std::vector<Val> vals;
        if (k >= STRING) { for (size_t n : {0, 1, 2, 5, 126, 127, 128, 129, 130, 16382, 16383, 16384, 16385}) { Val v; v.kind = k; v.s = k == STRING ? bytes(n, 'x') : pattern(n); vals.push_back(v); }
            if (g().thorough || tag == 0 || tag == 1) for (size_t n : {65535, 65536, 2097151, 2097152}) { Val v; v.kind = k; v.s = bytes(n, 'y'); vals.push_back(v); } }
        else for (uint64_t x : numbers(k)) { Val v; v.kind = k; v.bits = x; vals.push_back(v); }
        const Val &v = vals[choose((int)vals.size(), "value")];
        note(vtext(v));
        std::vector<Node> doc{{tag, false, v, {}}};
        document(doc, field(tag, v), v.s.size() < 300);
        bytes want = field(tag, v);        // wrong tag, wrong wire type
        if (tag) for (int t2 : {tag - 1, tag + 1, tag ^ 16}) if (t2 > 0 && t2 != tag) {
            Block in(want); NoiseProtobuf p; noise_protobuf_prepare_input(&p, in.p, in.n); uint64_t x; bytes s; bool nul; int e = k >= STRING ? read_str(&p, k, t2, ALLOCATED, 0, s, nul) : read_num(&p, k, t2, x);
            CHECK(e == NOISE_ERROR_INVALID_FORMAT, "reading tag %d as %d: %x", tag, t2, e);
            e = noise_protobuf_finish_input(&p); CHECK(e == NOISE_ERROR_INVALID_FORMAT, "finish after the wrong tag: %x", e);
        }
        outcome(kname(k));
        sample(fmt("%s, tag %d -> %s", vtext(v).c_str(), tag, hex(want, 12).c_str()));
    } else if (part == 1) {                 // every document up to a size, with nested elements
        int L = g().thorough ? 6 : 5;
        static const struct { int tag, kind; uint64_t bits; const char *s; } leaf[] = {{1, INT32, 0xffffffff, 0}, {16, UINT64, 300, 0}, {3, FIXED64, 0x0102030405060708ULL, 0}, {2048, FLOAT, 0x3f800000, 0}, {5, STRING, 0, "h\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80!"}, {5, BYTES, 0, ""}, {0, BOOL, 1, 0}};
        const int NL = 7;
        std::vector<std::vector<Node> *> stack; std::vector<Node> root; stack.push_back(&root);
        std::vector<int> seq;
        for (int i = 0; i < L; i++) { int c = choose(NL + 4, "token"); if (i == 1) shard(); if (c == NL + 3) break; seq.push_back(c); }
        if (seq.size() < 2) shard();
        for (int c : seq) {
            if (c < NL) { Val v; v.kind = leaf[c].kind; v.bits = leaf[c].bits; if (leaf[c].s) v.s = B(leaf[c].s); stack.back()->push_back({leaf[c].tag, false, v, {}}); }
            else if (c < NL + 2) { stack.back()->push_back({c == NL ? 7 : 100, true, {}, {}}); stack.push_back(&stack.back()->back().kids); }
            else { if (stack.size() < 2) skip(); stack.pop_back(); }
        }
        if (seq.size() && seq.back() == NL + 2) skip();      // the same document without the final closing
        document(root, enc(root), true);
        outcome(fmt("document of %zu fields", root.size()));
        // an element around it all, with and without a tag
        for (int t : {0, 1, 536870911}) { std::vector<Node> outer{{t, true, {}, root}}; document(outer, element(t, enc(root)), true); }
    } else if (part == 2) {                 // UTF-8
        int what = choose(4, "strings");
        if (what == 0) {                    // every string of one to three bytes
            int b0 = choose(256, "first byte"); shard();
            uint8_t s[4] = {(uint8_t)b0, 0, 0, 0};
            Utf u1(1), u2(2), u3(3); u1.test(s);
            for (int b = 0; b < 256; b++) { s[1] = b; u2.test(s); for (int c = 0; c < 256; c++) { if (!g().thorough && c % 3 && c > 1 && c < 0x7e) continue; s[2] = c; u3.test(s); } }
            distinct(b0 + 1000);
        } else if (what == 1) {             // every code point, alone and surrounded
            int plane = choose(17 * 4, "quarter plane"); shard();
            Utf a1(1), a2(2), a3(3), a4(4), b3(3), b4(4), b5(5), b6(6); Utf *A[] = {0, &a1, &a2, &a3, &a4}, *Bq[] = {0, &b3, &b4, &b5, &b6};
            for (uint32_t c = plane * 0x4000u; c < (plane + 1) * 0x4000u; c++) { bytes s = cp_utf8(c); A[s.size()]->test(s.data()); bytes t = B("a") + s + B("b"); Bq[s.size()]->test(t.data()); }
            distinct(plane + 2000);
        } else if (what == 2) {             // four bytes with every lead and boundary continuation bytes
            int b0 = 0x80 + choose(128, "lead"); shard();
            static const uint8_t edge[] = {0x00, 0x01, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff};
            Utf u(4);
            for (int b = 0; b < 256; b++) for (uint8_t c : edge) for (uint8_t d : edge) { uint8_t s[4] = {(uint8_t)b0, (uint8_t)b, c, d}; u.test(s); }
            distinct(b0 + 3000);
        } else {                            // sequences of up to four characters and fragments, cut at every byte
            static const char *frag[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2", "\xe2\x82", "\xf0\x9f\x98", "\x80", "\xff", "\xed\xa0\x80", "\xc0\x80", "\xe0\x80\x80", "\xf4\x90\x80\x80", "\xef\xbf\xbf"};
            int a = choose(14, "1"), b = choose(14, "2"); shard(); int c = choose(14, "3");
            for (int d = 0; d < 14; d++) { bytes s = B(frag[a]) + B(frag[b]) + B(frag[c]) + B(frag[d]); for (size_t n = d ? s.size() - strlen(frag[d]) + 1 : 1; n <= s.size(); n++) { Utf u(n); u.test(s.data()); } distinct(mix(mix(a, b), mix(c, d))); }
        }
        outcome("strings");
    } else {                                // errors latch: after each kind of failure nothing more is written
        int why = choose(2, "why"), k = choose(NKINDS, "kind after"); size_t cap = choose(12, "capacity"); shard();
        Block b(cap); NoiseProtobuf p; noise_protobuf_prepare_output(&p, b.p, cap);
        Val v; v.kind = k; v.bits = 5; v.s = k >= STRING ? B("x") : bytes();
        pr::write(&p, 0, v);                // may or may not fit
        bool fits = payload(v).size() <= cap;
        int e = why ? noise_protobuf_write_string(&p, 1, "\xff", 1) : noise_protobuf_write_bytes(&p, 1, pattern(20).data(), 20);
        int want = !fits ? NOISE_ERROR_INVALID_LENGTH : why ? NOISE_ERROR_INVALID_FORMAT : NOISE_ERROR_INVALID_LENGTH;
        CHECK(e == want, "failing write: %x instead of %x", e, want);
        bytes before = b.get();
        for (int i = 0; i < 3; i++) {
            e = pr::write(&p, i, v); CHECK(e == want, "write after an error: %x", e);
            size_t end = 3; e = noise_protobuf_write_end_element(&p, &end); CHECK(e == want && end == 0, "write_end_element after an error: %x", e);
        }
        CHECK(b.get() == before, "written after an error");
        uint8_t *d = (uint8_t *)1; size_t n = 9; e = noise_protobuf_finish_output(&p, &d, &n); CHECK(e == want && !d && !n, "finish_output after an error: %x", e);
        d = (uint8_t *)1; n = 9; e = noise_protobuf_finish_output_shift(&p, &d, &n); CHECK(e == want && !d && !n, "finish_output_shift after an error: %x", e);
        outcome("error latched");
        distinct(mix(4000 + why, mix(k, cap)));
    }
}
VH_MAIN(body)
