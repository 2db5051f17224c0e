"""Runs the check of one property: builds harnesses, runs all shards, confirms failures by replay, writes evidence."""
import importlib, json, os, re, subprocess, sys, tempfile, shutil, time, array
from concurrent.futures import ThreadPoolExecutor
import vbuild, registry

ROOT = vbuild.ROOT
EVID = os.path.join(ROOT, "evidence")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=98:handle_segv=1:detect_stack_use_after_return=0",
           TSAN_OPTIONS="exitcode=0 halt_on_error=0 report_thread_leaks=0 history_size=4", LC_ALL="C")


class CheckError(Exception):
    pass


class Result:
    def __init__(self):
        self.stats = {}
        self.outcomes = {}
        self.samples = []
        self.states = set()
        self.cases = set()
        self.fails = []          # dicts: key, msg, job, config, choices

    def add(self, k, n):
        self.stats[k] = self.stats.get(k, 0) + n


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^known: property=(\w+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def asan_summary(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+) (.*)", err)
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", err)
        fr = [f for f in fr if not f.startswith("__") and f not in ("memcpy", "memset", "free", "malloc", "memmove")]
        return "%s %s in %s" % (m.group(1), m.group(2), fr[0] if fr else "?")
    return None


def parse(out):
    fails, stats, outs, samples, done, error, stopped = [], {}, {}, [], False, None, False
    for line in out.split("\n"):
        if line.startswith("@fail\t"):
            _, key, ch, msg = line.split("\t", 3)
            fails.append((key, ch, msg))
        elif line.startswith("@stat "):
            _, k, v = line.split()
            stats[k] = int(v)
        elif line.startswith("@outcome\t"):
            _, n, s = line.split("\t", 2)
            outs[s] = int(n)
        elif line.startswith("@sample\t"):
            samples.append(line.split("\t", 1)[1])
        elif line.startswith("@done"):
            done = True
        elif line.startswith("@error"):
            error = line
        elif line.startswith("@hang"):
            error = error or "@hang"
    return fails, stats, outs, samples, done, error


def read_cur(path):
    try:
        a = array.array("i")
        a.frombytes(open(path, "rb").read(4096))
        n = a[0]
        return ",".join(str(x) for x in a[1:1 + n]) or "-"
    except Exception:
        return "-"


def run_proc(cmd, timeout, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, cwd=cwd, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")


def classify(rc, out, err, cur):
    """-> list of (key, choices, message), or raises CheckError."""
    fails, stats, outs, samples, done, error = parse(out)
    if error and error != "@hang":
        raise CheckError(error)
    if done and rc in (0, 1):
        return fails
    ch = read_cur(cur) if cur else "-"
    if error == "@hang":
        return fails + [("hang", ch, "one execution used more CPU time than the limit")]
    if rc == -999:
        return fails + [("blocked", ch, "the harness did not finish in time")]
    s = asan_summary(err)
    if rc == 127 or rc == 2:
        raise CheckError("harness failed to run: rc=%d %s" % (rc, err[-500:]))
    why = s or ("killed by signal %d" % -rc if rc < 0 else "exit status %d" % rc)
    if rc == -9:
        raise CheckError("harness was killed (out of memory?)")
    return fails + [("crash: " + why, ch, "crash: %s; %s" % (why, err[-300:].replace("\n", " | ")))]


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        return run_check(prop, tier, seed, spec, t0, work)
    except (CheckError, vbuild.BuildError) as e:
        print("CHECK ERROR property=%s: %s" % (prop, e))
        return 2
    finally:
        if work.startswith("/tmp/vh-") or work.startswith(tempfile.gettempdir()):
            shutil.rmtree(work, ignore_errors=True)


def build_job(job, config):
    return vbuild.harness(job["name"], job.get("sources") or [job["name"] + ".cpp"], config, job.get("flavour", "asan"),
                          wraps=tuple(job.get("wraps", ())), cflags=tuple(job.get("cflags", ())), libs=tuple(job.get("libs", ())),
                          extra_units=tuple(job["extra_units"]() if callable(job.get("extra_units")) else job.get("extra_units", ())),
                          link_lib=job.get("link_lib", True), key_dirs=tuple(job.get("key_dirs", ())),
                          programs=tuple(job["programs"]()) if "programs" in job else ())


def base_args(job, tier, seed):
    a = ["--tier", tier, "--seed", str(seed), "--hang", str(job.get("hang", 20 if tier == "quick" else 120))]
    for o in job.get("opts", ()):
        a += ["--opt", o]
    return a


def run_check(prop, tier, seed, spec, t0, work):
    res = Result()
    units = []
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    pyjobs = [j for j in jobs if "py" in j]
    cjobs = [j for j in jobs if "py" not in j]
    todo = [(j, c) for j in cjobs for c in (j.get("configs_thorough") if tier == "thorough" and j.get("configs_thorough") else j.get("configs", ["ref"]))]
    with ThreadPoolExecutor(max_workers=4) as ex:
        libs = {(c, j.get("flavour", "asan")) for j, c in todo if j.get("link_lib", True)}
        list(ex.map(lambda cf: vbuild.lib(*cf), sorted(libs)))
        bins = list(ex.map(lambda jc: build_job(*jc), todo))
    for (j, c), b in zip(todo, bins):
        n = j.get("shards", 8)
        for s in range(n):
            units.append((j, c, b, s, n))
    limit = 780 if tier == "quick" else 6 * 3600
    n_done = [0]

    def one(u):
        j, c, b, s, n = u
        tag = "%s-%s-%s-%d" % (j["name"], j.get("flavour", "asan") + "".join(j.get("opts", ())).replace("=", "_"), c, s)
        cur, st = os.path.join(work, tag + ".cur"), os.path.join(work, tag + ".st")
        d = os.path.join(work, tag + ".d")
        os.makedirs(d, exist_ok=True)
        cmd = [b] + base_args(j, tier, seed) + ["--shard", "%d/%d" % (s, n), "--cur", cur, "--states", st]
        rc, out, err = run_proc(cmd, max(30, limit - (time.time() - t0)), cwd=d)
        return u, cmd, rc, out, err, cur, st
    first = {}
    with ThreadPoolExecutor(max_workers=spec.get("parallel", 8)) as ex:
        for u, cmd, rc, out, err, cur, st in ex.map(one, units):
            j, c, b, s, n = u
            fails = classify(rc, out, err, cur)
            _, stats, outs, samples, done, error = parse(out)
            for k, v in stats.items():
                if k not in ("states", "distinct"):
                    res.add(k, v)
            for k, v in outs.items():
                res.outcomes[k] = res.outcomes.get(k, 0) + v
            if s < 2 or len(res.samples) < 3:
                res.samples += ["[%s %s] %s" % (j["name"], c, x) for x in samples[:2]]
            if os.path.exists(st):
                a = array.array("Q")
                a.frombytes(open(st, "rb").read())
                ns = a[0]
                res.states.update(a[1:1 + ns])
                res.cases.update(a[2 + ns:])
            for key, ch, msg in fails:
                k = (key, j["name"], c)
                if key in first and len(first[key]) >= 2:
                    continue
                first.setdefault(key, []).append(dict(key=key, choices=ch, msg=msg, job=j, config=c, bin=b, cmd=cmd))
    for j in pyjobs:
        mod = importlib.import_module(j["py"])
        mod.run(res, tier, seed, work, j, first)
    known = known_findings(prop)
    violations, kf = [], set()
    for key, lst in first.items():
        for f in lst:
            text = "%s | %s" % (key, f["msg"])
            hit = [d for rx, d in known if rx.search(text)]
            if hit:
                kf.update(hit)
                continue
            ok = f.get("confirmed") or confirm(f, tier, seed, work)
            if not ok:
                raise CheckError("a failure did not reproduce: %s [%s]" % (text[:600], f["choices"]))
            violations.append(f)
            break
    wall = time.time() - t0
    for d in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    write_evidence(prop, tier, seed, spec, res, wall, len(violations), sorted(kf))
    for i, f in enumerate(violations):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i))
        doc = {"property": prop, "tier": tier, "seed": seed, "harness": f["job"].get("name") or f["job"].get("py"), "config": f.get("config"), "choices": f["choices"],
               "key": f["key"], "message": f["msg"], "trace": f.get("trace", []), "how": f.get("how", "choices"), "command": f.get("cmd"),
               "job_index": spec["jobs"].index(f["job"])}
        json.dump(doc, open(path, "w"), indent=1)
        print("%s: %s" % (prop, f["msg"][:600]))
        for t in f.get("trace", [])[-40:]:
            print("    " + t)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
    print("%s %s: %s in %.1f s: %s" % (prop, tier, "VIOLATED" if violations else "held", wall,
          ", ".join("%s=%d" % kv for kv in sorted(list(res.stats.items()) + [("states", len(res.states)), ("distinct", len(res.cases))]))))
    return 1 if violations else 0


def confirm(f, tier, seed, work):
    """Replay the failing execution; it must fail again.  If it only fails in the context of its shard, rerun that."""
    if "cmd" not in f:
        return True
    j = f["job"]
    cur = os.path.join(work, "confirm.cur")
    if os.path.exists(cur):
        os.unlink(cur)
    d = os.path.join(work, "confirm.d")
    os.makedirs(d, exist_ok=True)
    args = [f["bin"]] + base_args(j, tier, seed)
    args[args.index("--hang") + 1] = str(int(args[args.index("--hang") + 1]) * 3)
    rc, out, err = run_proc(args + ["--replay", f["choices"], "--cur", cur], 600, cwd=d)
    f["trace"] = [l[7:] for l in out.split("\n") if l.startswith("@trace ")]
    try:
        again = classify(rc, out, err, cur)
    except CheckError:
        again = []
    if any(k == f["key"] or (k.startswith("crash") and f["key"].startswith("crash")) for k, _, _ in again):
        return True
    if f["key"] == "hang":
        return False
    rc, out, err = run_proc(f["cmd"], 700, cwd=d)
    try:
        again = classify(rc, out, err, f["cmd"][f["cmd"].index("--cur") + 1])
    except CheckError:
        return False
    if any(k == f["key"] or (k.startswith("crash") and f["key"].startswith("crash")) for k, _, _ in again):
        f["how"] = "shard"
        f["msg"] += " (reproduces only after the executions before it in the same process)"
        return True
    return False


def write_evidence(prop, tier, seed, spec, res, wall, violations, kf):
    s = res.stats
    level = spec["level"]
    cov = {}
    if level == "model_checking":
        cov["states"] = len(res.states) or len(res.cases)
        cov["transitions"] = s.get("ops", 0)
        cov["traces_validated_against_impl"] = s.get("executions", 0)
    else:
        cov["evaluations"] = s.get("executions", 0)
        cov["distinct_nontrivial"] = len(res.cases) if res.cases else len(res.states)
    cov["rule"] = spec.get("rule", "")
    cov["oracle_comparisons"] = s.get("checks", 0)
    cov["choice_tree_edges"] = s.get("transitions", 0)
    cov["outcomes"] = dict(sorted(res.outcomes.items(), key=lambda kv: -kv[1])[:40])
    cov["samples"] = res.samples[:6] or ["(none)"]
    cov["exhaustive"] = violations == 0
    cov["bounds"] = spec.get("bounds", "")
    if kf:
        cov["known_findings_seen"] = kf
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(doc, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))


def replay(prop, path):
    doc = json.load(open(path))
    spec = registry.CHECKS[prop]
    job = spec["jobs"][doc["job_index"]]
    if "py" in job:
        mod = importlib.import_module(job["py"])
        return mod.replay(doc)
    b = build_job(job, doc["config"])
    d = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        if doc.get("how") == "shard":
            cmd = [b] + doc["command"][1:]
        else:
            cmd = [b] + base_args(job, doc["tier"], doc["seed"]) + ["--replay", doc["choices"]]
        r = subprocess.run(cmd, env=ENV, cwd=d)
        return r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
