// Independent protobuf wire-format encoder and UTF-8 definition, and a uniform way of calling the library's typed functions.
#pragma once
#include "vh.hpp"
extern "C" {
#include <noise/protobufs.h>
#include <noise/protocol/constants.h>
#include <noise/protocol/errors.h>
}
namespace pr {
using namespace vh;
enum Kind { INT32, UINT32, INT64, UINT64, SINT32, SINT64, FIXED32, SFIXED32, FIXED64, SFIXED64, FLOAT, DOUBLE, BOOL, STRING, BYTES, NKINDS };
inline const char *kname(int k) { static const char *n[] = {"int32", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "sfixed32", "fixed64", "sfixed64", "float", "double", "bool", "string", "bytes"}; return n[k]; }
inline int wire(int k) { switch (k) { case FIXED32: case SFIXED32: case FLOAT: return 5; case FIXED64: case SFIXED64: case DOUBLE: return 1; case STRING: case BYTES: return 2; default: return 0; } }
inline bool is32(int k) { return k == INT32 || k == UINT32 || k == SINT32 || k == FIXED32 || k == SFIXED32 || k == FLOAT; }
// A value: raw bits for numbers (the type's own bits, zero extended), bytes for strings.
struct Val { int kind = INT32; uint64_t bits = 0; bytes s; bool operator==(const Val &o) const { return kind == o.kind && bits == o.bits && s == o.s; } };
inline std::string vtext(const Val &v) { return v.kind >= STRING ? fmt("%s %s", kname(v.kind), hex(v.s).c_str()) : fmt("%s %llx", kname(v.kind), (unsigned long long)v.bits); }
inline bytes varint(uint64_t v) { bytes b; do { uint8_t c = v & 127; v >>= 7; b.push_back(c | (v ? 128 : 0)); } while (v); return b; }
inline bytes little(uint64_t v, int n) { bytes b; for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); return b; }
inline bytes tagenc(int tag, int w) { return tag ? varint(((uint64_t)(uint32_t)tag << 3) | (unsigned)w) : bytes(); }
inline bytes payload(const Val &v) {
    switch (v.kind) {
    case INT32: return varint((uint64_t)(int64_t)(int32_t)(uint32_t)v.bits);
    case UINT32: case INT64: case UINT64: return varint(v.bits);
    case SINT32: { int32_t x = (int32_t)(uint32_t)v.bits; return varint(x >= 0 ? 2ULL * (uint32_t)x : 2ULL * (uint32_t)(-(int64_t)x) - 1); }
    case SINT64: { int64_t x = (int64_t)v.bits; return varint(x >= 0 ? 2ULL * (uint64_t)x : 2ULL * (uint64_t)(-(x + 1)) + 1); }
    case FIXED32: case SFIXED32: case FLOAT: return little(v.bits, 4);
    case FIXED64: case SFIXED64: case DOUBLE: return little(v.bits, 8);
    case BOOL: return varint(v.bits ? 1 : 0);
    default: return varint(v.s.size()) + v.s;
    }
}
inline bytes field(int tag, const Val &v) { return tagenc(tag, wire(v.kind)) + payload(v); }
inline bytes element(int tag, const bytes &body) { return tag ? tagenc(tag, 2) + varint(body.size()) + body : body; }
// RFC 3629, decoded the textbook way; the library additionally forbids NUL characters.
inline bool utf8_ok(const uint8_t *s, size_t n) {
    size_t i = 0;
    while (i < n) {
        uint32_t c = s[i]; int more; uint32_t cp, lo;
        if (c == 0) return false;
        if (c < 0x80) { i++; continue; }
        if ((c & 0xE0) == 0xC0) { more = 1; cp = c & 31; lo = 0x80; }
        else if ((c & 0xF0) == 0xE0) { more = 2; cp = c & 15; lo = 0x800; }
        else if ((c & 0xF8) == 0xF0) { more = 3; cp = c & 7; lo = 0x10000; }
        else return false;
        if (n - i - 1 < (size_t)more) return false;
        for (int k = 1; k <= more; k++) { if ((s[i + k] & 0xC0) != 0x80) return false; cp = cp << 6 | (s[i + k] & 63); }
        if (cp < lo || cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF)) return false;
        i += 1 + more;
    }
    return true;
}
inline int write(NoiseProtobuf *p, int tag, const Val &v) {
    switch (v.kind) {
    case INT32: return noise_protobuf_write_int32(p, tag, (int32_t)(uint32_t)v.bits);
    case UINT32: return noise_protobuf_write_uint32(p, tag, (uint32_t)v.bits);
    case INT64: return noise_protobuf_write_int64(p, tag, (int64_t)v.bits);
    case UINT64: return noise_protobuf_write_uint64(p, tag, v.bits);
    case SINT32: return noise_protobuf_write_sint32(p, tag, (int32_t)(uint32_t)v.bits);
    case SINT64: return noise_protobuf_write_sint64(p, tag, (int64_t)v.bits);
    case FIXED32: return noise_protobuf_write_fixed32(p, tag, (uint32_t)v.bits);
    case SFIXED32: return noise_protobuf_write_sfixed32(p, tag, (int32_t)(uint32_t)v.bits);
    case FIXED64: return noise_protobuf_write_fixed64(p, tag, v.bits);
    case SFIXED64: return noise_protobuf_write_sfixed64(p, tag, (int64_t)v.bits);
    case FLOAT: { uint32_t u = (uint32_t)v.bits; float f; memcpy(&f, &u, 4); return noise_protobuf_write_float(p, tag, f); }
    case DOUBLE: { double d; memcpy(&d, &v.bits, 8); return noise_protobuf_write_double(p, tag, d); }
    case BOOL: return noise_protobuf_write_bool(p, tag, (int)v.bits);
    case STRING: return noise_protobuf_write_string(p, tag, (const char *)v.s.data(), v.s.size());
    default: return noise_protobuf_write_bytes(p, tag, v.s.data(), v.s.size());
    }
}
// Numeric reads; out starts out poisoned.
inline int read_num(NoiseProtobuf *p, int kind, int tag, uint64_t &out) {
    int e = 0; uint64_t q = 0x5a5a5a5a5a5a5a5aULL;
#define R32(fn, T) { T x; memcpy(&x, &q, 4); e = fn(p, tag, &x); uint32_t u; memcpy(&u, &x, 4); out = u; break; }
#define R64(fn, T) { T x; memcpy(&x, &q, 8); e = fn(p, tag, &x); memcpy(&out, &x, 8); break; }
    switch (kind) {
    case INT32: R32(noise_protobuf_read_int32, int32_t)
    case UINT32: R32(noise_protobuf_read_uint32, uint32_t)
    case INT64: R64(noise_protobuf_read_int64, int64_t)
    case UINT64: R64(noise_protobuf_read_uint64, uint64_t)
    case SINT32: R32(noise_protobuf_read_sint32, int32_t)
    case SINT64: R64(noise_protobuf_read_sint64, int64_t)
    case FIXED32: R32(noise_protobuf_read_fixed32, uint32_t)
    case SFIXED32: R32(noise_protobuf_read_sfixed32, int32_t)
    case FIXED64: R64(noise_protobuf_read_fixed64, uint64_t)
    case SFIXED64: R64(noise_protobuf_read_sfixed64, int64_t)
    case FLOAT: R32(noise_protobuf_read_float, float)
    case DOUBLE: R64(noise_protobuf_read_double, double)
    case BOOL: { int x = 0x5a5a; e = noise_protobuf_read_bool(p, tag, &x); out = (uint64_t)(int64_t)x; break; }
    }
    return e;
#undef R32
#undef R64
}
enum { FIXEDBUF, ALLOCATED };
// String and bytes reads.  how: into a buffer of exactly cap bytes, or allocated with cap as the limit.
inline int read_str(NoiseProtobuf *p, int kind, int tag, int how, size_t cap, bytes &out, bool &isnull) {
    int e; size_t n = 0x77; isnull = false; out.clear();
    if (how == FIXEDBUF) {
        Block b(cap, 0x5a);
        e = kind == STRING ? noise_protobuf_read_string(p, tag, (char *)b.p, cap, &n) : noise_protobuf_read_bytes(p, tag, b.p, cap, &n);
        if (e == 0) {
            CHECKK("read-size", n <= cap, "a size of %zu was returned for a buffer of %zu", n, cap);
            out = b.get(n);
            if (kind == STRING) CHECKK("read-nul", n < cap && b.p[n] == 0, "string not terminated");
        } else if (kind == STRING && cap) { CHECKK("read-clear", b.p[0] == 0, "string not empty after an error"); }
    } else {
        char *s = (char *)0x1234; void *d = (void *)0x1234;
        if (kind == STRING) { e = noise_protobuf_read_alloc_string(p, tag, &s, cap, &n); d = s; }
        else e = noise_protobuf_read_alloc_bytes(p, tag, &d, cap, &n);
        isnull = !d;
        if (e == 0) {
            CHECKK("read-alloc-null", d, "nothing was allocated");
            out = B(d, n);
            if (kind == STRING) CHECKK("read-nul", ((char *)d)[n] == 0, "string not terminated");
            free(d);
        } else CHECKK("read-alloc-err", !d, "a pointer was returned with error %x", e);
    }
    if (e) CHECKK("read-size-err", n == 0, "a size of %zu was returned with error %x", n, e);
    return e;
}
}
