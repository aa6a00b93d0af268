#!/usr/bin/env python3
"""tools/mkbug.py ID PROPERTY FILE <<< JSON-ish python: dict(old=..., new=..., needs=..., breaks=..., demo=C source or None, sh=...)
writes seeded/ID from an edit of a scratch copy of the file."""
import sys, os, subprocess, json, tempfile, shutil
def mk(id, prop, edits, needs, breaks, demo_c=None, demo_sh=None, extra=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    patch = ''
    t = tempfile.mkdtemp()
    for f, pairs in edits.items():
        src = open('/repo/' + f).read(); new = src
        for a, b in pairs:
            assert new.count(a) == 1, (id, f, new.count(a), a)
            new = new.replace(a, b)
        os.makedirs(os.path.dirname('%s/a/%s' % (t, f)), exist_ok=True); os.makedirs(os.path.dirname('%s/b/%s' % (t, f)), exist_ok=True)
        open('%s/a/%s' % (t, f), 'w').write(src); open('%s/b/%s' % (t, f), 'w').write(new)
        r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True)
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(l.split('\t')[0] + '\n' if l[:4] in ('--- ', '+++ ') else l + '\n' for l in r.stdout.splitlines())
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    if demo_c:
        open(d + '/demo.c', 'w').write(demo_c)
        demo_sh = demo_sh or ('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\n'
            'gcc -g -O1 -I/repo/include "$d/demo.c" -o "$t/demo" -L/repo/src/.libs -lecc -lgmp || exit 2\nLD_LIBRARY_PATH=/repo/src/.libs timeout 120 "$t/demo"\n')
    open(d + '/demo.sh', 'w').write(demo_sh)
    os.chmod(d + '/demo.sh', 0o755)
    for n, s in (extra or {}).items(): open(d + '/' + n, 'w').write(s)
