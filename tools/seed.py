#!/usr/bin/env python3
"""Confirms a planted change in a scratch copy of /repo and runs checks against it.
usage: seed.py ID [check...]      (no check: the property of meta.json)
       seed.py ID --noverify [check...]"""
import json, os, subprocess, sys, shutil
V = "/verif"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main():
    a = sys.argv[1:]; sid = a.pop(0); noverify = "--noverify" in a
    a = [x for x in a if x != "--noverify"]
    d = "%s/seeded/%s" % (V, sid)
    meta = json.load(open(d + "/meta.json"))
    checks = a or [meta["property"]]
    s = "/tmp/seed-%s" % sid
    shutil.rmtree(s, ignore_errors=True)
    sh("cp -a /repo " + s)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", s + ".build.sh").replace("/repo", s)
        open(s + "." + f, "w").write(t)
    ok = True
    try:
        tmpd = s + ".demo"; shutil.rmtree(tmpd, ignore_errors=True); shutil.copytree(d, tmpd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        if not noverify:
            r = sh("bash %s.build.sh" % s)
            r = sh("timeout 300 bash %s/demo.sh" % tmpd, cwd=s)
            print("%s demo unchanged: %d %s" % (sid, r.returncode, (r.stdout + r.stderr)[-300:].strip())); ok &= r.returncode == 0
        r = sh("git apply %s/patch.diff" % d, cwd=s)
        if r.returncode: print("patch does not apply", r.stderr); return 1
        if not noverify:
            r = sh("bash %s.test.sh %s.json" % (s, s)); res = json.load(open(s + ".json"))
            print("%s tests: %d passed %d failed" % (sid, len(res["passed"]), len(res["failed"]))); ok &= len(res["passed"]) == 4209 and not res["failed"]
            r = sh("timeout 300 bash %s/demo.sh" % tmpd, cwd=s)
            print("%s demo changed: %d %s" % (sid, r.returncode, (r.stdout + r.stderr)[-300:].strip())); ok &= r.returncode != 0
        for c in checks:
            r = sh("./check %s quick" % c, cwd=V, env=dict(os.environ, VH_REPO=s))
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s check %s: exit %d, %s" % (sid, c, r.returncode, "CAUGHT" if viol and r.returncode == 1 else "MISSED"))
            print("   ", "\n    ".join([l[:250] for l in r.stdout.splitlines() if l.startswith(c + ":")][:2]))
            if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-500:])
    finally:
        for p in (s, s + ".demo"): shutil.rmtree(p, ignore_errors=True)
        for p in (".build.sh", ".test.sh", ".json"):
            if os.path.exists(s + p): os.unlink(s + p)
    print("%s %s" % (sid, "CONFIRMED" if ok else "NOT CONFIRMED"))
if __name__ == "__main__": sys.exit(main())
