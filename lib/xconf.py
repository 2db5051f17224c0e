"""Runs the same tree of executions in several build configurations and compares what each execution recorded."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vbuild, runner

CONFIGS = ["ref", "sodium", "openssl", "ref64", "ref32"]


def build(job):
    with ThreadPoolExecutor(max_workers=3) as ex:
        list(ex.map(lambda c: vbuild.lib(c, "asan"), CONFIGS))
        return dict(zip(CONFIGS, ex.map(lambda c: vbuild.harness(job["harness"], [job["harness"] + ".cpp"], c, "asan", wraps=tuple(job.get("wraps", ()))), CONFIGS)))


def trace(b, tier, seed, choices, cwd):
    rc, out, err = runner.run_proc([b, "--tier", tier, "--seed", str(seed), "--hang", "200", "--replay", choices], 300, cwd=cwd)
    return [l[7:] for l in out.split("\n") if l.startswith("@trace ")], rc, err


def difference(bins, tier, seed, choices, cwd, pair):
    a, ra, ea = trace(bins[pair[0]], tier, seed, choices, cwd)
    b, rb, eb = trace(bins[pair[1]], tier, seed, choices, cwd)
    if a == b and ra == rb:
        return None
    for i in range(max(len(a), len(b))):
        x, y = a[i] if i < len(a) else "(nothing)", b[i] if i < len(b) else "(nothing)"
        if x != y:
            return a[:i][-12:], x, y
    return a[-12:], "exit %d" % ra, "exit %d" % rb


def run(res, tier, seed, work, job, first):
    bins = build(job)
    n = 8
    hang = str(job.get("hang", 100))

    def one(u):
        c, s = u
        log, cur = os.path.join(work, "%s-%d.log" % (c, s)), os.path.join(work, "%s-%d.cur" % (c, s))
        d = os.path.join(work, "%s-%d.d" % (c, s)); os.makedirs(d, exist_ok=True)
        cmd = [bins[c], "--tier", tier, "--seed", str(seed), "--hang", hang, "--opt", "log=" + log, "--shard", "%d/%d" % (s, n), "--cur", cur]
        rc, out, err = runner.run_proc(cmd, 750 if tier == "quick" else 6 * 3600, cwd=d)
        return c, s, rc, out, err, cur, log, cmd
    recs = {c: {} for c in CONFIGS}
    with ThreadPoolExecutor(max_workers=8) as ex:
        for c, s, rc, out, err, cur, log, cmd in ex.map(one, [(c, s) for s in range(n) for c in CONFIGS]):
            for key, ch, msg in runner.classify(rc, out, err, cur):
                first.setdefault(key, []).append(dict(key=key, choices=ch, msg="[%s] %s" % (c, msg), job=job, config=c, bin=bins[c], cmd=cmd))
            _, stats, outs, samples, _, _ = runner.parse(out)
            for k, v in stats.items():
                if k not in ("states", "distinct"):
                    res.add(k, v)
            for k, v in outs.items():
                res.outcomes[k] = res.outcomes.get(k, 0) + v
            if os.path.exists(log):
                for l in open(log):
                    p = l.split()
                    if len(p) == 2:
                        recs[c][p[0]] = p[1]
                        if c == "ref":
                            res.cases.add(hash((p[0], p[1])) & (2 ** 64 - 1))
    for pair in [("ref", c) for c in CONFIGS[1:]]:
        a, b = recs[pair[0]], recs[pair[1]]
        seen = 0
        for ch in sorted(set(a) | set(b), key=len):
            res.add("checks", 1)
            if a.get(ch) == b.get(ch) or seen >= 6:
                continue
            seen += 1
            d = difference(bins, tier, seed, ch, work, pair)
            if d is None:
                raise runner.CheckError("records of %s differ but the replays agree" % ch)
            tr, x, y = d
            key = "builds differ: %s" % x.split(":")[0]
            if key in first and len(first[key]) >= 1:
                continue
            first.setdefault(key, []).append(dict(key=key, choices=ch, config="%s,%s" % pair, job=job, confirmed=True, trace=tr,
                                                  msg="the %s build gives \"%s\", the %s build gives \"%s\"" % (pair[0], x[:300], pair[1], y[:300])))
    res.samples += ["%s -> %s in every build" % kv for kv in list(sorted(recs["ref"].items()))[1000:1003]]


def replay(doc):
    import registry
    job = registry.CHECKS[doc["property"]]["jobs"][doc["job_index"]]
    bins = build(job)
    if "," not in (doc.get("config") or ""):
        return subprocess.run([bins[doc["config"]], "--tier", doc["tier"], "--seed", str(doc["seed"]), "--replay", doc["choices"]], env=runner.ENV).returncode
    pair = doc["config"].split(",")
    d = difference(bins, doc["tier"], doc["seed"], doc["choices"], "/tmp", pair)
    if d is None:
        print("the builds agree")
        return 0
    print("\n".join(d[0]))
    print("%s: %s\n%s: %s" % (pair[0], d[1], pair[1], d[2]))
    return 1
