#!/usr/bin/env python3
"""tools/mut.py FILE OLD NEW CHECK...: run checks against a scratch copy of /repo with one replacement (all occurrences of OLD must be 1, or give @n: prefix to OLD to select the n-th)."""
import os, subprocess, sys, tempfile, shutil
f, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
r = d + '/repo'; os.mkdir(r)
subprocess.run('cp -a /repo/. %s/' % r, shell=True, check=True)
p = os.path.join(r, f); s = open(p).read()
n = None
if old.startswith('@'): n, old = old[1:].split(':', 1); n = int(n)
k = s.count(old)
if k == 0 or (n is None and k != 1): print('occurrences:', k); shutil.rmtree(d); sys.exit(2)
if n is None: s = s.replace(old, new)
else:
    i = -1
    for _ in range(n): i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
open(p, 'w').write(s)
env = dict(os.environ, VH_REPO=r)
for c in checks:
    o = subprocess.run(['/verif/check', c, 'quick'], env=env, capture_output=True, text=True)
    print(c, 'rc', o.returncode, *[l for l in o.stdout.splitlines() if 'check failed' in l or 'VIOLATION' in l or 'held' in l or 'rror' in l][:3], sep='\n  ')
    if o.returncode not in (0, 1): print(o.stdout[-500:], o.stderr[-1500:])
shutil.rmtree(d)
