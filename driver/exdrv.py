#!/usr/bin/env python3
"""Runs the example programs in a scratch directory as a script on standard input says, and logs what happens.
  put F HEX                    write a file
  copy G F                     another name for what F contains now
  text G F OP ARGS...          G := F changed:      flip POS BIT | cut LEN | drop POS LEN | ins POS HEX | sub OLDHEX NEWHEX
  der G F BLOCK OP ARGS...     the same on the octets inside block number BLOCK of F
  field G F PATH HEX           G := F with the contents of one DER element replaced (PATH: 0.1.2)
  tag G F PATH NN              G := F with the tag of one DER element replaced
  graft G F PATH H PATH2       G := F with one element replaced by an element of H
  build G WORD HEX [HEX...]    G := blocks
  run PROG OUT KEY IN NAME HINT [FLAGS]     "-" for none; HINT: private key file of the recipient;
                               FLAGS: i (input by --file), s (short options)
  reset
POS and LEN count from the end when negative and are reduced modulo the length."""
import sys, os, json, subprocess, tempfile, shutil, base64, re, signal
alarm = int(sys.argv[1])
bindir = os.environ['EXBIN']
env = dict(os.environ, LC_ALL='C', ASAN_OPTIONS='detect_leaks=0:exitcode=200:abort_on_error=0',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=200:print_stacktrace=0')
d = tempfile.mkdtemp(prefix='ex')
fs = {}

def log(**e):
    for k in ('a', 'c', 'r', 'k'):
        e.setdefault(k, [])
    sys.stdout.write(json.dumps(e) + '\n')
    sys.stdout.flush()

def put(f, o):
    fs[f] = o
    with open(d + '/' + f, 'wb') as h:
        h.write(o)

def wrap(w, o):
    b = base64.b64encode(o)
    ls = [b[i:i + 72] for i in range(0, len(b), 72)]
    return b'-----BEGIN ' + w + b'-----\n' + b'\n'.join(ls) + b'\n-----END ' + w + b'-----\n'

def blocks(t):
    r = []
    for m in re.finditer(rb'-----BEGIN ([^-]*)-----\n([^-]*)-----END \1-----\n', t):
        try:
            r.append((m.group(1), base64.b64decode(m.group(2))))
        except Exception:
            pass
    return r

def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 + len(b)]) + b

def parse(o):
    """[tag, octets | list of elements]; raises on anything odd"""
    r, i = [], 0
    while i < len(o):
        t, n, i = o[i], o[i + 1], i + 2
        if n & 128:
            k = n & 127
            n = int.from_bytes(o[i:i + k], 'big')
            i += k
        if i + n > len(o):
            raise ValueError
        v = o[i:i + n]
        r.append([t, parse(v) if t == 48 else v])
        i += n
    return r

def unparse(l):
    r = b''
    for t, v in l:
        v = v if isinstance(v, bytes) else unparse(v)
        r += bytes([t]) + length(len(v)) + v
    return r

def at(tree, path):
    n = [48, tree[0][1]]
    for i in path.split('.'):
        n = n[1][int(i)]
    return n

def edit(o, op):
    n = len(o)
    if op[0] == 'flip':
        if n:
            i = int(op[1]) % n
            o = o[:i] + bytes([o[i] ^ (1 << int(op[2]))]) + o[i + 1:]
    elif op[0] == 'cut':
        o = o[:int(op[1]) % (n + 1)]
    elif op[0] == 'drop':
        i = int(op[1]) % max(n, 1)
        o = o[:i] + o[i + int(op[2]):]
    elif op[0] == 'ins':
        i = int(op[1]) % (n + 1)
        o = o[:i] + bytes.fromhex(op[2]) + o[i:]
    elif op[0] == 'sub':
        o = o.replace(bytes.fromhex(op[1]), bytes.fromhex(op[2]) if len(op) > 2 else b'')
    return o

def reblock(t, i, f):
    bs = blocks(t)
    if not bs:
        return t
    i %= len(bs)
    return b''.join(wrap(w, f(o) if k == i else o) for k, (w, o) in enumerate(bs))

def hint(f):
    try:
        return parse(blocks(fs[f])[0][1])[0][1][0][1].hex() or '00'
    except Exception:
        return ''

def run(prog, out, key, inp, name, hf, flags=''):
    inp, key, name, out = [('' if x == '-' else x) for x in (inp, key, name, out)]
    short = 's' in flags
    exe = 'ecdh_gen' if prog == 'list' else prog
    a = []
    if prog in ('badopt', 'help'):
        exe, a = name, ['--help' if prog == 'help' else '--no-such-option']
        name = ''
    if prog == 'list':
        a = ['-l' if short else '--list-curves']
    if name:
        a += ['-c', bytes.fromhex(name)] if short else [b'--curve=' + bytes.fromhex(name)]
    if key:
        o = dict(ecdh_enc='pubkey', ecdh_dec='privkey', ecdsa_sign='privkey', ecdsa_verify='pubkey', ecelgamal_enc='pubkey', ecelgamal_dec='privkey')[prog]
        a += ['-k', key] if short else ['--%s=%s' % (o, key)]
    stdin = subprocess.DEVNULL
    fh = None
    if inp:
        if 'i' in flags:
            a += ['-f', inp] if short else ['--file=' + inp]
        elif inp in fs:
            fh = stdin = open(d + '/' + inp, 'rb')
    for tries in (1, 3):
        if fh:
            fh.seek(0)
        try:
            p = subprocess.run([bindir + '/' + exe] + a, cwd=d, env=env, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=alarm * tries)
            rc, o, err = p.returncode, p.stdout, p.stderr
            break
        except subprocess.TimeoutExpired as x:
            rc, o, err = -14, b'', b'timeout'
    if fh:
        fh.close()
    e = dict(op='run', p=prog, key=key, f=inp, name=name or '-', d=hint(hf) if hf != '-' else '', rc=rc, o=o.hex(), out=out, r=[str(rc)])
    if rc < 0 or rc > 125:
        e['err'] = err.decode('latin1')[-1500:]
    log(**e)
    if out:
        put(out, o)

try:
    for line in sys.stdin:
        w = line.split()
        if not w or w[0].startswith('#'):
            continue
        op = w[0]
        if op == 'reset':
            for f in fs:
                os.remove(d + '/' + f)
            fs.clear()
            log(op='reset')
            continue
        if op == 'run':
            run(*w[1:])
            continue
        if op == 'put':
            o = bytes.fromhex(w[2]) if len(w) > 2 else b''
        elif op == 'build':
            o = b''.join(wrap(w[i].replace('_', ' ').replace('ECDHE XSALSA20', 'ECDHE_XSALSA20').encode(), bytes.fromhex(w[i + 1])) for i in range(2, len(w) - 1, 2))
        else:
            o = fs.get(w[2], b'')
            try:
                if op == 'text':
                    o = edit(o, w[3:])
                elif op == 'der':
                    o = reblock(o, int(w[3]), lambda x: edit(x, w[4:]))
                elif op in ('field', 'tag', 'graft'):
                    def f(x):
                        t = parse(x)
                        n = at(t, w[3])
                        if op == 'field':
                            n[1] = bytes.fromhex(w[4]) if len(w) > 4 else b''
                        elif op == 'tag':
                            n[0] = int(w[4])
                        else:
                            n[1] = at(parse(blocks(fs[w[4]])[0][1]), w[5])[1]
                        return unparse(t)
                    o = reblock(o, 0, f)
            except (ValueError, IndexError, KeyError, TypeError):
                pass
        put(w[1], o)
        log(op='put', f=w[1], o=o.hex())
finally:
    shutil.rmtree(d, ignore_errors=True)
