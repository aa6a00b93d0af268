#!/usr/bin/env python3
"""mut.py FILE.py : quick sensitivity trials.  FILE.py defines MUTS = [(name, file, old, new, [checks])...];
each is applied to a private copy of /repo (bound over /repo in an own mount namespace) and the checks are run."""
import sys, os, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = sys.argv[2:]
for name, f, old, new, checks in ns['MUTS']:
    if sel and name not in sel: continue
    W = '/tmp/mut-' + name
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + '/out'); os.makedirs(W + '/ev')
    subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
    p = W + '/repo/' + f
    s = open(p).read()
    if s.count(old) < 1: print(name, 'NOT FOUND'); continue
    open(p, 'w').write(s.replace(old, new, 1))
    os.utime(p)
    for c in checks:
        r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --make-rprivate /; mount --bind %s/repo /repo; mkdir -p /verif/out /verif/evidence; mount --bind %s/out /verif/out; mount --bind %s/ev /verif/evidence; cd /verif; timeout 900 python3 lib/checks.py %s quick' % (W, W, W, c)], capture_output=True, text=True)
        l = [x for x in (r.stdout + r.stderr).splitlines() if 'rejected' in x or 'MACH' in x or 'error' in x]
        print(name, c, 'rc', r.returncode, (l or [''])[0][:220], flush=True)
    shutil.rmtree(W)
