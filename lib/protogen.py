"""C26: generates schemas, runs the repository's noise-protoc on them, compiles what it produced and drives it."""
import hashlib, itertools, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vbuild, runner

KINDS = ["int32", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "sfixed32", "fixed64", "sfixed64", "float", "double", "bool", "string", "bytes"]
CTYPE = {"int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t", "sint32": "int32_t", "sint64": "int64_t", "fixed32": "uint32_t", "sfixed32": "int32_t",
         "fixed64": "uint64_t", "sfixed64": "int64_t", "float": "float", "double": "double", "bool": "int", "enum": "int32_t"}
NUMERIC = set(CTYPE)


class F:
    """A field: how it is written in the schema and what it means."""
    def __init__(self, name, kind, qual, tag, typ=None, sub=None, text_qual=None, opt=""):
        self.name, self.kind, self.qual, self.tag, self.typ, self.sub = name, kind, qual, tag, typ or kind, sub
        self.text = "%s%s %s = %d%s;" % ({"OPT": "", "REQ": "required ", "REP": "repeated ", "PACKED": "repeated "}[qual] if text_qual is None else text_qual, self.typ, name, tag, opt)


class M:
    def __init__(self, cname, fields):
        self.cname, self.fields = cname, fields


def table(group, header, messages):
    """C++ source with one lambda per accessor."""
    o = ['#include "pb_api.hpp"', '#include "%s"' % header, "using namespace ga;", "static void reg(std::vector<Msg> &v) {"]
    for m in messages:
        c = m.cname
        o.append('{ Msg vm; vm.group = "%s"; vm.name = "%s"; vm.make = [](void **o) { return %s_new((%s **)o); }; vm.destroy = [](void *o) { return %s_free((%s *)o); };' % (group, c, c, c, c, c))
        o.append(' vm.write = [](NoiseProtobuf *p, int t, const void *o) { return %s_write(p, t, (const %s *)o); }; vm.read = [](NoiseProtobuf *p, int t, void **o) { return %s_read(p, t, (%s **)o); };' % (c, c, c, c))
        for f in m.fields:
            k = "MESSAGE" if f.kind == "message" else "ENUM" if f.kind == "enum" else "pr::" + f.kind.upper()
            n, lst = f.name, f.qual in ("REP", "PACKED")
            o.append(' { Field vf; vf.name = "%s"; vf.kind = %s; vf.qual = %s; vf.tag = %d; vf.subname = %s;' % (n, k, f.qual, f.tag, '"%s"' % f.sub if f.sub else "0"))
            o.append('   vf.clear = [](void *o) { return %s_clear_%s((%s *)o); }; vf.has = [](const void *o) { return %s_has_%s((const %s *)o); };' % (c, n, c, c, n, c))
            at, ix = ("_at", ", i") if lst else ("", "")
            if lst:
                o.append('   vf.count = [](const void *o) { return %s_count_%s((const %s *)o); };' % (c, n, c))
            put = "add" if lst else "set"
            if f.kind in NUMERIC:
                t = CTYPE[f.kind]
                o.append('   vf.get = [](const void *o, size_t i) { (void)i; %s x = %s_get%s_%s((const %s *)o%s); return bits(x); }; vf.set = [](void *o, uint64_t u) { return %s_%s_%s((%s *)o, value<%s>(u)); };' % (t, c, at, n, c, ix, c, put, n, c, t))
            elif f.kind in ("string", "bytes"):
                t = "char" if f.kind == "string" else "void"
                o.append('   vf.gets = [](const void *o, size_t i) { (void)i; return (const void *)%s_get%s_%s((const %s *)o%s); }; vf.getsize = [](const void *o, size_t i) { (void)i; return %s_get_size%s_%s((const %s *)o%s); };' % (c, at, n, c, ix, c, at, n, c, ix))
                o.append('   vf.sets = [](void *o, const void *p, size_t n) { return %s_%s_%s((%s *)o, (const %s *)p, n); };' % (c, put, n, c, t))
            else:
                o.append('   vf.getm = [](const void *o, size_t i) { (void)i; return (void *)%s_get%s_%s((const %s *)o%s); }; vf.newm = [](void *o, void **p) { return %s_%s_%s((%s *)o, (%s **)p); };' % (c, at, n, c, ix, c, "add" if lst else "get_new", n, c, f.sub))
                if lst:
                    o.append('   vf.insert = [](void *o, size_t i, void *p) { return %s_insert_%s((%s *)o, i, (%s *)p); };' % (c, n, c, f.sub))
            o.append("   vm.fields.push_back(vf); }")
        o.append(" v.push_back(vm); }")
    o += ["}", "static Register r_(reg);"]
    return "\n".join(o) + "\n"


SUB = "message %sSub { int32 x = 1; string s = 2; }\n"


def submsg(prefix):
    return M(prefix + "Sub", [F("x", "int32", "OPT", 1), F("s", "string", "OPT", 2)])


def variants(kind):
    """(qualifier, schema text of the qualifier, option text)"""
    v = [("OPT", "", ""), ("OPT", "optional ", ""), ("REQ", "required ", "")]
    if kind in NUMERIC and kind != "enum":
        v += [("PACKED", "repeated ", ""), ("PACKED", "repeated ", " [packed=true]"), ("REP", "repeated ", " [packed=false]")]
    elif kind == "enum":
        v += [("PACKED", "repeated ", ""), ("PACKED", "repeated ", " [packed=true]"), ("REP", "repeated ", " [packed=false]")]
    else:
        v += [("REP", "repeated ", ""), ("REP", "repeated ", " [packed=false]")]
    return v


def schema_matrix(kind):
    """Every way of declaring one field of this kind."""
    p = kind.capitalize() + "X"
    text, msgs = "syntax = \"proto3\";\n" + SUB % p, [submsg(p)]
    text += "enum %sE { ZERO = 0; ONE = 1; BIG = 2147483647; }\n" % p
    n = 0
    full = kind in ("int32", "string", "message")
    for q, tq, opt in variants(kind):
        for tag in ([1, 2, 15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870911] if full and (tq, opt) in (("", ""), ("repeated ", "")) else [1, 16, 536870911] if opt == "" and tq != "optional " else [15]):
            typ, sub = {"message": (p + "Sub", p + "Sub"), "enum": (p + "E", None)}.get(kind, (kind, None))
            f = F("f", kind, q, tag, typ, sub, tq, opt)
            c = "%sM%d" % (p, n); n += 1
            text += "message %s { %s }\n" % (c, f.text); msgs.append(M(c, [f]))
    return "matrix_" + kind, text, msgs


PAIR_KINDS = [("int32", "OPT"), ("int32", "REQ"), ("sint64", "PACKED"), ("uint32", "REP"), ("double", "OPT"), ("string", "OPT"), ("string", "REQ"), ("string", "REP"), ("bytes", "OPT"), ("bytes", "REP"), ("message", "OPT"), ("message", "REQ"), ("message", "REP"), ("bool", "OPT"), ("enum", "OPT"), ("enum", "PACKED")]


def schema_pairs(i):
    """Two fields, the first of kind i; declared out of tag order."""
    p = "P%d" % i
    text, msgs = "syntax=\"proto3\";\n" + SUB % p + "enum %sE { ZERO = 0; ONE = 1; }\n" % p, [submsg(p)]

    def mk(name, kq, tag):
        k, q = kq
        typ, sub = {"message": (p + "Sub", p + "Sub"), "enum": (p + "E", None)}.get(k, (k, None))
        return F(name, k, q, tag, typ, sub, None, " [packed=false]" if q == "REP" and k in NUMERIC else "")
    for j, kq in enumerate(PAIR_KINDS):
        a, b = mk("second", PAIR_KINDS[i], 20), mk("first", kq, 3)
        c = "%sM%d" % (p, j)
        text += "message %s { %s %s }\n" % (c, a.text, b.text); msgs.append(M(c, [b, a]))
    return "pairs_%d" % i, text, msgs


def schemas_names():
    out = []
    t = """// names, scopes and packages
syntax = "proto3";
import "other.proto";
import public "third.proto";
package alpha.beta_1;
option java_package = "x";
message Outer {
    option deprecated = true;
    Inner late = 7;                      // declared below, in this scope
    message Inner { Deep d = 1; message Deep { int32 x = 1; Level lv = 2; repeated Level lvs = 3; enum Level { LOW = 0; HIGH = 9; } } Outer up = 4; }
    reserved 2, 10 to 12; reserved "old", "older";
    Inner.Deep deep = 3; alpha.beta_1.Other o = 1;
    enum Level { A = 0; B = 4; }
    Level level = 8; repeated Inner.Deep.Level dl = 9;
}
message Other { sint32 int32_ = 1; bytes data_ = 2; string obj = 3; int64 index = 4; repeated string value = 5; repeated bytes len = 6; repeated int32 tag = 13; repeated Other err = 14; uint32 pbuf = 15; Outer.Level end_posn = 16; }
enum Level { X = 0; Y = 4294967295; }
message Level2 { Level plain = 1; Inner in2 = 2; }
message Inner { string s = 1; }
"""
    p = "alpha_beta_1_"
    ms = [M(p + "Outer", [F("o", "message", "OPT", 1, sub=p + "Other"), F("deep", "message", "OPT", 3, sub=p + "Outer_Inner_Deep"), F("late", "message", "OPT", 7, sub=p + "Outer_Inner"), F("level", "enum", "OPT", 8), F("dl", "enum", "PACKED", 9)]),
          M(p + "Outer_Inner", [F("d", "message", "OPT", 1, sub=p + "Outer_Inner_Deep"), F("up", "message", "OPT", 4, sub=p + "Outer")]),
          M(p + "Outer_Inner_Deep", [F("x", "int32", "OPT", 1), F("lv", "enum", "OPT", 2), F("lvs", "enum", "PACKED", 3)]),
          M(p + "Other", [F("int32_", "sint32", "OPT", 1), F("data_", "bytes", "OPT", 2), F("obj", "string", "OPT", 3), F("index", "int64", "OPT", 4), F("value", "string", "REP", 5), F("len", "bytes", "REP", 6), F("tag", "int32", "PACKED", 13), F("err", "message", "REP", 14, sub=p + "Other"), F("pbuf", "uint32", "OPT", 15), F("end_posn", "enum", "OPT", 16)]),
          M(p + "Level2", [F("plain", "enum", "OPT", 1), F("in2", "message", "OPT", 2, sub=p + "Inner")]), M(p + "Inner", [F("s", "string", "OPT", 1)])]
    consts = {p + "Outer_Inner_Deep_Level_LOW": 0, p + "Outer_Inner_Deep_Level_HIGH": 9, p + "Outer_Level_A": 0, p + "Outer_Level_B": 4, p + "Level_X": 0, p + "Level_Y": 4294967295}
    out.append(("names_scopes", t, ms, consts))
    # no syntax line, no package, many fields in scrambled tag order
    order = [11, 3, 17, 7, 1, 19, 13, 5, 2, 20, 9, 15, 4, 18, 6, 12, 8, 16, 10, 14]
    kinds = KINDS + ["int32", "string", "bytes", "sint64", "bool"]
    fs = {t: F("f_%d" % t, kinds[t - 1], "REP" if t in (14, 17, 18) else "PACKED" if t % 6 == 0 else "OPT", t) for t in order}
    out.append(("names_scrambled", "message Big {\n" + "\n".join("    " + fs[t].text for t in order) + "\n}\n", [M("Big", [fs[t] for t in sorted(order)])], {}))
    out.append(("names_minimal", 'syntax="proto3";message m{bool b=1;}', [M("m", [F("b", "bool", "OPT", 1)])], {}))
    out.append(("names_test", open(vbuild.REPO + "/tools/protoc/test.proto").read(), test_messages(), {"Enum_Default": 0, "Enum_Enum1": 1, "Enum_Enum2": 2}))
    return out


def test_messages():
    o = []
    for nm, q in (("BasicFields", "OPT"), ("RepeatedFields", "PACKED"), ("RepeatedFieldsUnpacked", "REP"), ("RequiredFields", "REQ")):
        fs = [F("f_" + k, k, "REP" if q == "PACKED" and k in ("string", "bytes") else q, i + 1) for i, k in enumerate(KINDS)]
        fs.append(F("f_object", "message", "REP" if q == "PACKED" else q, 16, sub="Object"))
        o.append(M(nm, fs))
    return o + [M("Object", [F("x", "int32", "OPT", 1)])]


def cert_messages():
    """The published certificate schema, read here independently of the generator."""
    text = re.sub(r"//[^\n]*", "", open(vbuild.REPO + "/doc/noise-certificate.proto").read())
    out = []
    for m in re.finditer(r"message\s+(\w+)\s*\{(.*?)\}", text, re.S):
        fs = []
        for f in re.finditer(r"(repeated\s+|required\s+|optional\s+)?(\w+)\s+(\w+)\s*=\s*(\d+)\s*;", m.group(2)):
            k = f.group(2)
            q = (f.group(1) or "").strip()
            qual = {"repeated": "PACKED" if k in NUMERIC else "REP", "required": "REQ"}.get(q, "OPT")
            fs.append(F(f.group(3), k if k in KINDS else "message", qual, int(f.group(4)), sub=None if k in KINDS else "Noise_" + k))
        out.append(M("Noise_" + m.group(1), sorted(fs, key=lambda f: f.tag)))
    return out


def build_protoc():
    d0 = vbuild.REPO + "/tools/protoc"
    h = vbuild.tree_hash([d0])
    d = os.path.join(vbuild.BUILD, "protoc-" + h)
    out = os.path.join(d, "noise-protoc")
    with vbuild.Lock("protoc"):
        if not os.path.exists(out):
            vbuild.prune("protoc-", 2)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            srcs = vbuild.am_sources(d0 + "/Makefile.am", "noise_protoc_SOURCES", {})
            units = []
            for s in srcs:
                p = os.path.join(d0, s)
                if s.endswith(".y"):
                    o = os.path.join(d, s[:-2] + ".c"); vbuild.run(["bison", "-y", "-d", "-o", o, p], cwd=d); p = o
                elif s.endswith(".l"):
                    o = os.path.join(d, s[:-2] + ".c"); vbuild.run(["flex", "-o", o, p], cwd=d); p = o
                units.append((p, ["-I" + d, "-I" + d0] + vbuild.DEFS))
            objs = vbuild._compile(units, d, None, ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
            vbuild.run(["gcc", "-fsanitize=address,undefined"] + objs + ["-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
    return out


CFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types"]


def protoc(tool, text, d, name, args=()):
    """-> (exit status, messages, paths)."""
    p = os.path.join(d, name + ".proto")
    open(p, "w").write(text)
    c, h = os.path.join(d, name + ".pb.c"), os.path.join(d, name + ".pb.h")
    r = subprocess.run([tool, "-c", c, "-h", h] + list(args) + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(runner.ENV, UBSAN_OPTIONS="exitcode=97"), timeout=60)
    return r.returncode, r.stdout.decode(errors="replace"), c, h


def compile_c(c, obj, flags=()):
    r = subprocess.run(["gcc", "-c"] + CFLAGS + list(flags) + ["-I" + vbuild.REPO + "/include", c, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def all_schemas():
    s = [schema_matrix(k) + ({},) for k in KINDS + ["enum", "message"]] + [schema_pairs(i) + ({},) for i in range(len(PAIR_KINDS))] + schemas_names()
    s.append(("certificate", open(vbuild.REPO + "/doc/noise-certificate.proto").read(), cert_messages(), {}))
    return s


def key64(t):
    return int.from_bytes(hashlib.sha256(t.encode()).digest()[:8], "little")


def fail(first, job, key, msg, how):
    if key not in first:
        first[key] = [dict(key=key, choices=json.dumps(how), msg=msg, job=job, config="generator", confirmed=True)]


def check_schema(tool, d, s):
    """-> (list of failures, objects, table source)"""
    name, text, msgs, consts = s
    rc, out, c, h = protoc(tool, text, d, name)
    if rc != 0:
        return [("a schema is refused or crashes the generator: " + name, "noise-protoc fails on schema %s (status %d): %s" % (name, rc, out[-400:]))], None, None
    obj = os.path.join(d, name + ".o")
    rc, err = compile_c(c, obj)
    if rc:
        return [("generated code does not compile: " + name, "the code generated for schema %s does not compile: %s" % (name, err[:600]))], None, None
    bad = []
    if consts:
        t = os.path.join(d, name + "-const.c")
        open(t, "w").write('#include "%s"\n' % os.path.basename(h) + "".join("_Static_assert(%s == %dULL, \"%s\");\n" % (k, v, k) for k, v in consts.items()))
        rc, err = compile_c(t, t[:-2] + ".o", ["-I" + d])
        if rc:
            bad.append(("enum constants: " + name, "the constants generated for schema %s are wrong: %s" % (name, err[:600])))
    cpp = os.path.join(d, name + ".tab.cpp")
    open(cpp, "w").write(table(name, name + ".pb.h", msgs))
    return bad, obj, cpp


def build_driver(d, sources, config_libs, name):
    """sources: objects and tables."""
    inc = ["-I" + os.path.join(vbuild.ROOT, "harness"), "-I" + os.path.join(vbuild.ROOT, "harness", "common"), "-I" + vbuild.REPO + "/include", "-I" + d, '-DVH_CONFIG="ref"', "-DVH_CONFIG_ref=1"]
    objs = []

    def one(s):
        if s.endswith(".o"):
            return s
        o = os.path.join(d, os.path.basename(s) + ".o")
        if not os.path.exists(o):
            vbuild.run(["g++", "-std=gnu++17", "-w", "-c"] + (["-O0"] if s.endswith(".tab.cpp") else ["-O1", "-g1"]) + inc + [s, "-o", o])
        return o
    with ThreadPoolExecutor(max_workers=8) as ex:
        objs = list(ex.map(one, sources))
    out = os.path.join(d, name)
    vbuild.run(["g++", "-pthread", "-fsanitize=address"] + ["-Wl,--wrap=" + w for w in vbuild.WRAP_ALLOC] + objs + [config_libs, "-lcrypto", "-o", out])
    return out


def drive(binary, tier, seed, work, res, first, job, tag, opts=()):
    n = 8

    def one(s):
        cur, st = os.path.join(work, "%s-%d.cur" % (tag, s)), os.path.join(work, "%s-%d.st" % (tag, s))
        cmd = [binary, "--tier", tier, "--seed", str(seed), "--hang", "60", "--shard", "%d/%d" % (s, n), "--cur", cur, "--states", st]
        for o in opts:
            cmd += ["--opt", o]
        rc, out, err = runner.run_proc(cmd, 700 if tier == "quick" else 6 * 3600, cwd=work)
        return rc, out, err, cur, st, cmd
    with ThreadPoolExecutor(max_workers=8) as ex:
        for rc, out, err, cur, st, cmd in ex.map(one, range(n)):
            for key, ch, msg in runner.classify(rc, out, err, cur):
                k = (key, tag)
                if k not in first:
                    # the binary lives in a directory that this run removes: replaying rebuilds it
                    r = runner.run_proc([binary, "--tier", tier, "--seed", str(seed), "--hang", "180"] + sum([["--opt", o] for o in opts], []) + ["--replay", ch], 300, cwd=work)
                    tr = [l[7:] for l in r[1].split("\n") if l.startswith("@trace ")]
                    if r[0] == 0:
                        raise runner.CheckError("a failure did not reproduce: %s %s" % (key, msg[:400]))
                    first[k] = [dict(key=key, choices=ch, msg="[%s] %s" % (tag, msg), job=job, config=tag, confirmed=True, trace=tr)]
            _, stats, outs, samples, _, _ = runner.parse(out)
            for k, v in stats.items():
                if k not in ("states", "distinct"):
                    res.add(k, v)
            for k, v in outs.items():
                res.outcomes[k] = res.outcomes.get(k, 0) + v
            res.samples += samples[:1]
            if os.path.exists(st):
                import array
                a = array.array("Q"); a.frombytes(open(st, "rb").read()); ns = a[0]
                res.states.update(a[1:1 + ns]); res.cases.update(a[2 + ns:])


BASE = """syntax = "proto3";
package p;
message A { repeated int32 x = 1 [packed=false]; B b = 2; repeated E e = 3; message B { reserved 4, 6 to 8; string s = 1; repeated bytes t = 2; } }
enum E { Z = 0; O = 1; }
"""
INSERTS = ["message", "enum", "repeated", "x", "A", "E", "1", "0", "536870912", "19500", ";", "{", "}", "=", "map", "\"proto2\"", ".", "[", "]", "true", "import"]


def mutants():
    """Every schema that differs from a small one by one token: removed, doubled, exchanged with its neighbour, replaced or inserted."""
    toks = re.findall(r'"[^"]*"|\w+|[^\s\w]', BASE)
    seen = {}
    def put(t, why):
        s = " ".join(t) + "\n"
        if s not in seen and t != toks:
            seen[s] = why
    for i in range(len(toks)):
        put(toks[:i] + toks[i + 1:], "token %d (%s) removed" % (i, toks[i]))
        put(toks[:i] + [toks[i]] + toks[i:], "token %d (%s) doubled" % (i, toks[i]))
        put(toks[:i] + toks[i + 1:i + 2] + [toks[i]] + toks[i + 2:], "tokens %d and %d exchanged" % (i, i + 1))
        put(toks[:i], "ends before token %d" % i)
        for x in INSERTS:
            put(toks[:i] + [x] + toks[i + 1:], "token %d (%s) replaced by %s" % (i, toks[i], x))
            put(toks[:i] + [x] + toks[i:], "%s inserted before token %d (%s)" % (x, i, toks[i]))
    return list(seen.items())


KEYWORDS = "auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool".split()


def check_keyword(tool, d, i, w, where):
    """-> what is wrong with the code for a schema with this word as a name, or None"""
    text = "syntax = \"proto3\";\n" + ("message A { int32 x = 1; string %s = 2; }\n" if where == "field" else "message %s { int32 x = 1; }\n" if where == "message" else "message A { E x = 1; enum E { %s = 0; } }\n" if where == "constant" else "package %s;\nmessage A { int32 x = 1; }\n") % w
    k, m, ok = check_mutant(tool, d, "kw%s%s" % (i, where), text, "the C keyword %s as the name of a %s" % (w, where))
    return k and ("C keyword as a name: %s %s" % (where, w), m)


def check_mutant(tool, d, i, text, why):
    name = "mut%s" % i
    rc, out, c, h = protoc(tool, text, d, name)
    try:
        if rc == 0:
            rc2, err = compile_c(c, os.path.join(d, name + ".o"), ["-O0", "-fno-sanitize=all"])
            if rc2:
                return "generated code does not compile", "accepted schema (%s) gives code that does not compile: %s [%s]" % (why, err[:500], text.strip()), True
            rc2, err = compile_c(os.path.join(d, name + ".pb.h"), os.path.join(d, name + ".gch"), ["-fsyntax-only"]) if False else (0, "")
            return None, None, True
        if rc != 1:
            return "the generator crashes", "noise-protoc exits with status %d on a schema (%s): %s [%s]" % (rc, why, out[-300:], text.strip()), False
        if os.path.exists(c) or os.path.exists(h):
            return "output left behind", "a refused schema (%s) leaves output files [%s]" % (why, text.strip()), False
        if not out.strip():
            return "no message", "a schema (%s) is refused without a message [%s]" % (why, text.strip()), False
        return None, None, False
    finally:
        for p in (c, h, os.path.join(d, name + ".proto"), os.path.join(d, name + ".o")):
            if os.path.exists(p):
                os.unlink(p)


NAME_CHARS = [chr(c) for c in range(32, 127) if chr(c) not in '/"\\\\'] + ["\u00e9"]


def check_header_name(tool, d, i):
    """Headers named alike can be included together, and twice."""
    c = NAME_CHARS[i]; sub = os.path.join(d, "hn%d" % i); os.makedirs(sub)
    names = ["m%sa.h" % c, "m%sb.h" % c, "m_a.h" if c not in "_." else "m__a.h", "%sm.h" % c if c != "-" else "x.h", "1%s.h" % c]
    inc = ""
    try:
        for j, n in enumerate(names):
            p = os.path.join(sub, "s%d.proto" % j); open(p, "w").write("syntax=\"proto3\"; message A%d { int32 x = 1; }\n" % j)
            r = subprocess.run([tool, "-c", os.path.join(sub, "o%d.c" % j), "-h", os.path.join(sub, n), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(runner.ENV, UBSAN_OPTIONS="exitcode=97"), timeout=60)
            if r.returncode:
                return "header names", "noise-protoc fails with the header name %r: %s" % (n, r.stdout.decode(errors="replace")[-300:])
            inc += '#include "%s"\n' % n
        t = os.path.join(sub, "t.c"); open(t, "w").write(inc + inc + "".join("A%d *a%d;\n" % (j, j) for j in range(len(names))))
        rc, err = compile_c(t, t[:-2] + ".o", ["-O0", "-fno-sanitize=all", "-Werror"])
        return ("header names", "headers named %r cannot be used together: %s" % (names, err[:500])) if rc else None
    finally:
        shutil.rmtree(sub, ignore_errors=True)


def run(res, tier, seed, work, job, first):
    tool = build_protoc()
    lib = vbuild.lib("ref", "asan")
    d = os.path.join(work, "gen"); os.makedirs(d)
    schemas = all_schemas()
    objs, tabs = {}, {}
    with ThreadPoolExecutor(max_workers=8) as ex:
        for s, (bad, o, t) in zip(schemas, ex.map(lambda s: check_schema(tool, d, s), schemas)):
            res.add("executions", 1); res.add("checks", 1); res.cases.add(key64(s[1]))
            for k, m in bad:
                fail(first, job, k, m, {"schema": s[0]})
            if o:
                objs[s[0]], tabs[s[0]] = o, t
        res.outcomes["schemas generated and compiled"] = len(objs)
        main = os.path.join(vbuild.ROOT, "harness", "c26.cpp")
        f1 = ex.submit(build_driver, d, [main] + [x for n in sorted(objs) for x in (objs[n], tabs[n])], lib, "all")
        if tabs.get("certificate"):
            # the committed code: same driver and tables, the certificate code of the library
            pass
        big = f1.result()
    drive(big, tier, seed, work, res, first, job, "generated")
    if "certificate" in tabs:
        committed = build_driver(d, [main, tabs["certificate"]], lib, "committed")
        drive(committed, tier, seed, work, res, first, job, "committed certificate code")
    muts = mutants()
    md = os.path.join(work, "mut"); os.makedirs(md)
    acc = 0
    with ThreadPoolExecutor(max_workers=8) as ex:
        for (text, why), (k, m, ok) in zip(muts, ex.map(lambda x: check_mutant(tool, md, x[0], x[1][0], x[1][1]), enumerate(muts))):
            acc += ok
            res.add("executions", 1); res.add("checks", 1); res.cases.add(key64(text))
            if k:
                fail(first, job, k + ": " + why if False else k, m, {"mutant": text})
    words = [(w, where) for w in KEYWORDS for where in ("field", "message", "constant", "package")]
    with ThreadPoolExecutor(max_workers=8) as ex:
        for (w, where), bad in zip(words, ex.map(lambda x: check_keyword(tool, md, x[0], x[1][0], x[1][1]), enumerate(words))):
            res.add("executions", 1); res.add("checks", 1); res.cases.add(key64(w + where))
            if bad:
                fail(first, job, bad[0], bad[1], {"keyword": w, "where": where})
    with ThreadPoolExecutor(max_workers=8) as ex:
        for i, bad in enumerate(ex.map(lambda i: check_header_name(tool, md, i), range(len(NAME_CHARS)))):
            res.add("executions", 1); res.add("checks", 1); res.cases.add(key64("header %d" % i))
            if bad:
                fail(first, job, bad[0], bad[1], {"header": i})
    res.outcomes["header names"] = len(NAME_CHARS)
    res.outcomes["C keywords as names"] = len(words)
    res.outcomes["changed schemas accepted"] = acc
    res.outcomes["changed schemas refused"] = len(muts) - acc


def replay(doc):
    tool = build_protoc()
    work = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        if doc["config"] == "generator":
            how = json.loads(doc["choices"])
            if "keyword" in how:
                bad = check_keyword(tool, work, 0, how["keyword"], how["where"])
                print(bad[1] if bad else "holds")
                return 1 if bad else 0
            if "header" in how:
                bad = check_header_name(tool, work, how["header"])
                print(bad[1] if bad else "holds")
                return 1 if bad else 0
            if "mutant" in how:
                k, m, _ = check_mutant(tool, work, 0, how["mutant"], "replayed")
                print(m or "holds")
                return 1 if k else 0
            s = [x for x in all_schemas() if x[0] == how["schema"]][0]
            bad, _, _ = check_schema(tool, work, s)
            print("\n".join(m for _, m in bad) or "holds")
            return 1 if bad else 0
        lib = vbuild.lib("ref", "asan")
        schemas = all_schemas() if doc["config"] == "generated" else [s for s in all_schemas() if s[0] == "certificate"]
        src = [os.path.join(vbuild.ROOT, "harness", "c26.cpp")]
        for s in schemas:
            bad, o, t = check_schema(tool, work, s)
            if o:
                src += [o, t] if doc["config"] == "generated" else [t]
        b = build_driver(work, src, lib, "driver")
        return subprocess.run([b, "--tier", doc["tier"], "--seed", str(doc["seed"]), "--hang", "180", "--replay", doc["choices"]], env=runner.ENV).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
