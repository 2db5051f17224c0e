"""Builds /repo's current working tree (never a copy) into /verif/build, keyed by content.

lib(config, flavour) -> path of one static library with protocol+keys+protobufs objects.
harness(...)         -> path of a linked harness binary.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")

DEFS = ["-DPACKAGE=\"noise-c\"", "-DVERSION=\"0.0.1\"", "-DYYTEXT_POINTER=1", "-DHAVE_STDIO_H=1", "-DHAVE_STDLIB_H=1",
        "-DHAVE_STRING_H=1", "-DHAVE_INTTYPES_H=1", "-DHAVE_STDINT_H=1", "-DHAVE_UNISTD_H=1", "-DSTDC_HEADERS=1",
        "-DSIZEOF_VOID_P=8", "-DHAVE_LIBRT=1", "-DHAVE_POLL=1", "-DHAVE_PTHREAD_PRIO_INHERIT=1"]
FLAVOURS = {
    "asan": ["-O2", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "fast": ["-O2", "-g1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # every basic block and every memory access of the library calls a function that the harness defines
    "ct": ["-O2", "-g1", "-fno-pie", "-no-pie", "-fsanitize-coverage=trace-pc", "-fsanitize=kernel-address", "--param", "asan-globals=0", "--param", "asan-stack=0",
           "--param", "asan-instrumentation-with-call-threshold=0", "-fno-builtin-memcmp", "-fno-builtin-strcmp", "-fno-builtin-strncmp", "-fno-builtin-bcmp"],
}
for _o in ("O1", "O3", "Os"):
    FLAVOURS["ct" + _o] = ["-" + _o if f == "-O2" else f for f in FLAVOURS["ct"]]
FLAVOURS["ctp"] = FLAVOURS["ct"] + ["-DED25519_NO_INLINE_ASM"]     # accesses of inline assembly cannot be seen
CONFIGS = {
    "ref": {"vars": {}, "link": []},
    "sodium": {"vars": {"USE_LIBSODIUM": 1}, "link": ["-lsodium"]},
    "openssl": {"vars": {"USE_OPENSSL": 1}, "link": ["-lcrypto"]},
    # the reference build as configured elsewhere: --with-ed448-arch=arch_ref64 and a compiler whose assembly is not used; and the code
    # that 32-bit machines get, compiled for this one
    "ref64": {"vars": {}, "link": [], "arch": "arch_ref64", "flags": ["-DED25519_NO_INLINE_ASM"], "like": "ref"},
    "ref32": {"vars": {}, "link": [], "arch": "arch_32", "flags": ["-DED25519_FORCE_32BIT", "-DED25519_NO_INLINE_ASM", "-DPOLY1305_32BIT", "-include", os.path.join(ROOT, "harness", "common", "words32.h")], "like": "ref"},
}


class BuildError(Exception):
    pass


def _am_lines(path):
    text = open(path).read().replace("\\\n", " ")
    return text.split("\n")


def am_sources(path, var, conds, arch="arch_x86_64"):
    """The value of an automake _SOURCES variable under the given conditionals."""
    stack, out = [], []
    for line in _am_lines(path):
        line = line.split("#")[0]
        s = line.strip()
        m = re.match(r"^if\s+(!?)\s*(\w+)$", s)
        if m:
            v = bool(conds.get(m.group(2)))
            stack.append(v != bool(m.group(1)))
            continue
        if re.match(r"^else\b", s):
            stack[-1] = not stack[-1]
            continue
        if re.match(r"^endif\b", s):
            stack.pop()
            continue
        if not all(stack):
            continue
        m = re.match(r"^(\w+)\s*(\+?=)\s*(.*)$", s)
        if m and m.group(1) == var:
            if m.group(2) == "=":
                out = []
            out += m.group(3).split()
    seen, res = set(), []
    for f in out:
        f = f.replace("@GOLDILOCKS_ARCH@", arch)
        if f.endswith((".c", ".y", ".l", ".S")) and f not in seen:
            seen.add(f)
            res.append(f)
    return res


def tree_hash(dirs, exts=(".c", ".h", ".y", ".l", ".am", ".proto", ".hpp", ".cpp", ".S")):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(d.encode() + b"\0" + open(d, "rb").read())
            continue
        for base, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(base, f)
                    h.update(p.encode() + b"\0")
                    try:
                        h.update(open(p, "rb").read())
                    except OSError:
                        pass
                    h.update(b"\0")
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-8000:]))
    return r.stdout


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def prune(prefix, keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and os.path.isdir(os.path.join(BUILD, d))]
    except OSError:
        return
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        if d.startswith(BUILD + os.sep):
            shutil.rmtree(d, ignore_errors=True)


def include_flags(arch="arch_x86_64"):
    g = REPO + "/src/crypto/goldilocks/src"
    return ["-I" + REPO + "/src/protocol", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + g + "/include", "-I" + g + "/p448",
            "-I" + g + "/p448/" + arch]


def lib_units(config):
    conds = CONFIGS[config]["vars"]
    units = []
    pdir = REPO + "/src/protocol"
    arch = CONFIGS[config].get("arch", "arch_x86_64")
    flags = include_flags(arch) + DEFS + CONFIGS[config].get("flags", [])
    if conds.get("USE_OPENSSL"):
        flags = flags + ["-DUSE_OPENSSL=1"]
    if conds.get("USE_LIBSODIUM"):
        flags = flags + ["-DUSE_LIBSODIUM=1"]
    else:
        flags = flags + ["-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM"]
    for s in am_sources(pdir + "/Makefile.am", "libnoiseprotocol_a_SOURCES", conds, arch):
        units.append((os.path.normpath(os.path.join(pdir, s)), flags))
    kflags = ["-I" + REPO + "/include", "-I" + REPO + "/include/noise/keys"] + DEFS
    for d, var in (("keys", "libnoisekeys_a_SOURCES"), ("protobufs", "libnoiseprotobufs_a_SOURCES")):
        for s in am_sources("%s/src/%s/Makefile.am" % (REPO, d), var, conds):
            units.append((os.path.normpath("%s/src/%s/%s" % (REPO, d, s)), kflags))
    return units


def _compile(units, outdir, flavour, extra=(), tag=""):
    objs = []

    def one(i_u):
        i, (src, flags) = i_u
        obj = os.path.join(outdir, "%s%03d-%s.o" % (tag, i, os.path.basename(src).rsplit(".", 1)[0]))
        cc = "g++" if src.endswith((".cpp", ".cc")) else "gcc"
        std = ["-std=gnu++17"] if cc == "g++" else []
        run([cc, "-c", "-w", "-pthread"] + std + (FLAVOURS[flavour] if flavour else []) + list(extra) + flags + [src, "-o", obj])
        return obj
    with ThreadPoolExecutor(max_workers=8) as ex:
        objs = list(ex.map(one, enumerate(units)))
    return objs


_libhash = None


def repo_hash():
    global _libhash
    if _libhash is None:
        _libhash = tree_hash([REPO + "/include", REPO + "/src"])
    return _libhash


def lib(config, flavour="asan", extra=()):
    tag = hashlib.sha256(repr((FLAVOURS[flavour], extra, DEFS, open(__file__).read())).encode()).hexdigest()[:8]
    name = "lib-%s-%s" % (config, flavour)
    d = os.path.join(BUILD, "%s-%s-%s" % (name, repo_hash(), tag))
    out = os.path.join(d, "libnoise.a")
    with Lock(name):
        if not os.path.exists(out):
            prune(name + "-", 4)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            objs = _compile(lib_units(config), d, flavour, extra)
            run(["ar", "rcs", out + ".tmp"] + objs)
            os.rename(out + ".tmp", out)
            for o in objs:
                os.unlink(o)
        else:
            os.utime(d)
    return out


WRAP_ALLOC = ["malloc", "calloc", "realloc", "free", "strdup"]


def harness(name, sources, config="ref", flavour="asan", wraps=(), cflags=(), libs=(), extra_units=(), link_lib=True, key_dirs=(), programs=()):
    """Links sources (under /verif/harness) with the library of that config."""
    srcs = [os.path.join(ROOT, "harness", s) if not s.startswith("/") else s for s in sources]
    l = lib(config, flavour) if link_lib else None
    h = hashlib.sha256()
    h.update(tree_hash([os.path.join(ROOT, "harness", "common")] + srcs + list(key_dirs)).encode())
    for u in extra_units:
        h.update(tree_hash([u[0]]).encode() + repr(u).encode())
    for prefix, units in programs:
        for u in units:
            h.update(tree_hash([os.path.dirname(u[0])]).encode() + repr((prefix, u)).encode())
    h.update(repr((l, flavour, wraps, cflags, libs, open(__file__).read())).encode())
    hname = "h-%s-%s-%s" % (name, config, flavour)
    d = os.path.join(BUILD, hname + "-" + h.hexdigest()[:16])
    out = os.path.join(d, name)
    with Lock(hname):
        if not os.path.exists(out):
            prune(hname + "-", 2)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            inc = ["-I" + os.path.join(ROOT, "harness"), "-I" + os.path.join(ROOT, "harness", "common"),
                   "-I" + REPO + "/include", "-DVH_CONFIG=\"%s\"" % config, "-DVH_CONFIG_%s=1" % CONFIGS[config].get("like", config)] + list(cflags)
            hflags = {"asan": ["-O1", "-g1"], "fast": ["-O1", "-g1"], "tsan": ["-O1", "-g1"]}.get(flavour) or ["-O1", "-g1", "-fno-pie"]
            objs = _compile([(s, hflags + inc) for s in srcs], d, None) + _compile(list(extra_units), d, flavour, tag="x")
            for prefix, units in programs:
                # a whole program as one object whose only global symbol is its main function, renamed
                po = _compile(units, d, flavour, tag=prefix)
                one = os.path.join(d, prefix + ".o")
                run(["ld", "-r", "-o", one] + po)
                run(["objcopy", "--redefine-sym", "main=%s_main" % prefix, one])
                run(["objcopy", "--keep-global-symbol=%s_main" % prefix, one])
                objs.append(one)
                for o in po:
                    os.unlink(o)
            wl = ["-Wl,--wrap=" + w for w in wraps]
            run(["g++", "-pthread"] + FLAVOURS[flavour] + wl + objs + ([l] if l else []) + CONFIGS[config]["link"]
                + ["-lcrypto", "-lrt"] + list(libs) + ["-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
            for o in objs:
                os.unlink(o)
        else:
            os.utime(d)
    return out


if __name__ == "__main__":
    t = time.time()
    if "--selftest" in sys.argv:
        for tool in ("gcc", "g++", "ar", "flex", "bison"):
            if not shutil.which(tool):
                sys.exit("missing tool: " + tool)
        for c in ("ref", "sodium", "openssl"):
            lib(c, "asan")
        print("library built from %s in %.1f s" % (REPO, time.time() - t))
