// Uniform view of the accessors of generated message code; the tables are written by lib/protogen.py from the schemas.
#pragma once
#include "pbref.hpp"
namespace ga {
using vh::bytes;
enum { OPT, REQ, REP, PACKED };
enum { ENUM = pr::NKINDS, MESSAGE };
struct Msg;
struct Field {
    const char *name; int kind, qual, tag; const char *subname; const Msg *sub = nullptr;
    int (*clear)(void *); int (*has)(const void *); size_t (*count)(const void *) = nullptr;
    uint64_t (*get)(const void *, size_t) = nullptr; int (*set)(void *, uint64_t) = nullptr;                        // numbers: set or add; index for lists
    const void *(*gets)(const void *, size_t) = nullptr; size_t (*getsize)(const void *, size_t) = nullptr; int (*sets)(void *, const void *, size_t) = nullptr;
    void *(*getm)(const void *, size_t) = nullptr; int (*newm)(void *, void **) = nullptr; int (*insert)(void *, size_t, void *) = nullptr;
};
struct Msg { const char *group, *name; int (*make)(void **); int (*destroy)(void *); int (*write)(NoiseProtobuf *, int, const void *); int (*read)(NoiseProtobuf *, int, void **); std::vector<Field> fields; };
inline std::vector<Msg> &all() { static std::vector<Msg> v; return v; }
template <class T> inline uint64_t bits(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; }
template <class T> inline T value(uint64_t u) { T v; memcpy(&v, &u, sizeof v); return v; }
struct Register { Register(void (*f)(std::vector<Msg> &)) { f(all()); } };
}
