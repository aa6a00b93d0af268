"""C19: the example programs."""
import os, glob
from concurrent.futures import ThreadPoolExecutor
from vlib import Block, V, REPO, NPROC
from nums import *
from gen_scheme import signable
from gen_point import G, rand_on, enc_bytes, torsion, small_curves, big_curve, vary_one, FORMS

PROGS = ['ecdh_gen', 'ecdh_pub', 'ecdh_enc', 'ecdh_dec', 'ecdsa_sign', 'ecdsa_verify', 'ecelgamal_enc', 'ecelgamal_dec']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def build_ex(c, name, cflags=()):
    """the programs with the library, compiled out of tree; returns the directory"""
    d = '%s/drv%s' % (c.out, name)
    os.makedirs(d + '/o')
    ex = REPO + '/examples'
    for a in glob.glob(ex + '/*.asn'):
        t = '%s/o/%s_asn1_tab.c' % (d, os.path.basename(a)[:-4])
        c.must(['asn1Parser', '-o', t, a])
    main = [p for p in PROGS]
    srcs = c.lib_sources() + sorted(glob.glob(ex + '/*.c')) + sorted(glob.glob(d + '/o/*.c'))
    srcs = [s for i, s in enumerate(srcs) if os.path.basename(s) not in [os.path.basename(x) for x in srcs[i + 1:]]]
    fl = ['gcc', '-g', '-O1', '-w', '-DSAFE_CLEAN', '-I' + REPO + '/include', '-I' + ex] + list(cflags)
    obj = lambda s: '%s/o/%s.o' % (d, os.path.basename(s)[:-2])
    with ThreadPoolExecutor(NPROC) as ex_:
        list(ex_.map(lambda s: c.must(fl + ['-c', s, '-o', obj(s)]), srcs))
        common = [obj(s) for s in srcs if os.path.basename(s)[:-2] not in main]
        c.must(['ar', 'rcs', d + '/o/common.a'] + common)
        list(ex_.map(lambda p: c.must(fl + ['%s/o/%s.o' % (d, p), d + '/o/common.a', '-o', '%s/%s' % (d, p), '-lsodium', '-ltasn1', '-lpopt', '-lb64', '-lgmp']), main))
    return d

# ---- keys ---------------------------------------------------------------------
def oct_(v, w=None): return v.to_bytes(w if w is not None else max(1, (v.bit_length() + 7) // 8), 'big')
def dlen(n):
    if n < 128: return bytes([n])
    b = oct_(n)
    return bytes([128 + len(b)]) + b
def tlv(t, v): return bytes([t]) + dlen(len(v)) + v
def octs(v): return tlv(4, v if isinstance(v, bytes) else oct_(v))
NR = dict(ws=2, ed=3, mo=4, te=5)
def dint(v):
    n = v.bit_length() // 8 + 1
    return v.to_bytes(n, 'big', signed=True)
def dcurve(c):
    return tlv(48, octs(c['p']) + tlv(10, bytes([NR[c['t']]])) + tlv(48, octs(c['a'] % c['p']) + octs(c['b'] % c['p'])) + octs(c['n']) + octs(c['h'])
               + tlv(48, octs(c['gx']) + octs(c['gy'])) + tlv(2, dint(c['bits'])))
def dpriv(c, d): return tlv(48, octs(d) + dcurve(c))
def dpub(c, P, comp=True): return tlv(48, octs(enc(c, P, comp)) + dcurve(c))
def enc(c, P, comp=True):
    w = (c['bits'] + 7) // 8
    if P is None: return bytes(1 + (1 if comp else 2) * w)
    if comp: return bytes([2 + (P[1] & 1)]) + oct_(P[0], w)
    return b'\4' + oct_(P[0], w) + oct_(P[1], w)
def priv(f, c, d): return 'build %s ECDH_PRIVATE_KEY %s' % (f, dpriv(c, d).hex())
def pub(f, c, P, comp=True): return 'build %s ECDH_PUBLIC_KEY %s' % (f, dpub(c, P, comp).hex())
def put(f, b): return 'put %s %s' % (f, b.hex())
def run(prog, out='-', key='-', inp='-', name='-', hint='-', flags=''): return ('run %s %s %s %s %s %s %s' % (prog, out, key, inp, name, hint, flags)).strip()
def fl(rng): return rng.choice(['', 'i', 's', 'is'])
def message(rng, n):
    k = rng.random()
    if k < .15: return bytes(n)
    if k < .3: return b'\xff' * n
    if k < .5: return (b'-----BEGIN ECDSA SIGNATURE-----\n' * (n // 32 + 1))[:n]
    return bytes(rng.getrandbits(8) for _ in range(n))

# ---- blocks ---------------------------------------------------------------------
def life_block(rng, c, name, other):
    """keys from the programs themselves, everything they can do with them"""
    nm = c['name'].encode().hex()
    L = [run('ecdh_gen', 'k', name=nm, flags=fl(rng)), run('ecdh_gen', 'k2', name=nm, flags=fl(rng)),
         run('ecdh_pub', 'q', inp='k', flags=fl(rng)), run('ecdh_pub', 'q2', inp='k2', flags=fl(rng)),
         put('m', message(rng, rng.choice([1, 7, 64, 65, 200])))]
    for _ in range(2):
        L += [run('ecdh_enc', 'e', 'q', 'm', hint='k', flags=fl(rng)), run('ecdh_dec', 'o', 'k', 'e', flags=fl(rng))]
    L += [run('ecdh_dec', '-', 'k2', 'e', flags=fl(rng)),
          run('ecdsa_sign', 's', 'k', 'm', flags=fl(rng)), run('ecdsa_verify', 'o', 'q', 's', flags=fl(rng)), run('ecdsa_verify', '-', 'q2', 's', flags=fl(rng)),
          run('ecelgamal_enc', 'c', 'q', 'q2', hint='k', flags=fl(rng)), run('ecelgamal_enc', 'c2', 'q', 'q2', hint='k', flags=fl(rng)),
          run('ecelgamal_dec', 'o', 'k', 'c', flags=fl(rng)), run('ecelgamal_dec', 'o', 'k2', 'c2', flags=fl(rng)),
          run('ecdh_gen', 'x', name=other['name'].encode().hex()), run('ecdh_pub', 'y', inp='x'),
          run('ecdsa_verify', '-', 'y', 's'), run('ecdh_dec', '-', 'x', 'e'), run('ecelgamal_enc', '-', 'y', 'q'), run('ecelgamal_enc', '-', 'q', 'y'),
          run('ecelgamal_dec', '-', 'x', 'c'), 'reset']
    return Block('life %s' % name, L, 60)

def keys(rng, c, f='k', g='q'):
    d = rng.randrange(1, c['n'])
    return [priv(f, c, d), pub(g, c, mul(c, d, G(c)))]

def length_block(rng, c, ns, name):
    L = keys(rng, c)
    for n in ns:
        L += [put('m', message(rng, n)), run('ecdh_enc', 'e', 'q', 'm', hint='k', flags=fl(rng)), run('ecdh_dec', 'o', 'k', 'e', flags=fl(rng)),
              run('ecdsa_sign', 's', 'k', 'm', flags=fl(rng)), run('ecdsa_verify', 'o', 'q', 's', flags=fl(rng))]
    return Block('lengths %s' % name, L + ['reset'], 5 * len(ns) + sum(ns) // 4000)

def option_block(rng, c, name):
    nm = c['name']
    L = keys(rng, c) + [put('m', b'message'), put('z', b''), run('ecdh_gen', 'k0'), run('list'), run('list', flags='s')]
    for x in [nm[:-1], nm + ' ', ' ' + nm, nm + '0', nm.swapcase(), 'x' * 3000, 'P-256', 'secp256', '-', '%s%s%s%n'] + [nm[:i] for i in range(1, min(6, len(nm)))]:
        L.append(run('ecdh_gen', name=x.encode().hex(), flags=rng.choice(['', 's']) if not x.startswith('-') else ''))
    for p in PROGS: L += [run('badopt', name=p), run('help', name=p)]
    for k, m in [('-', 'm'), ('none', 'm'), ('q', 'none'), ('k', 'none'), ('z', 'm'), ('q', 'm'), ('k', 'm'), ('m', 'q'), ('m', 'k'), ('q', 'q'), ('k', 'k'), ('q', 'k'), ('k', 'q')]:
        for p in PROGS[1:]:
            if p == 'ecdh_pub':
                if k != 'q': continue
                k2 = '-'
            else: k2 = k
            L.append(run(p, '-', k2, m, flags=rng.choice(['i', 'is']) if m == 'none' else fl(rng)))
    L = [l for l in L if not (l.split()[0] == 'run' and l.split()[4] == 'none' and 'i' not in (l.split() + [''] * 8)[7])]
    return Block('options %s' % name, L + ['reset'], 120)

def small_block(rng, c, pts, name, n):
    L = []
    for i in range(n):
        d = rng.choice([0, 1, 2, c['n'] - 1, c['n'], c['n'] + 1, rng.randrange(c['n']), rng.getrandbits(16), rng.getrandbits(2200)])
        P, M = rng.choice(pts), rng.choice(pts)
        r = rng.random()
        if r < .5: P = mul(c, d % c['n'], G(c))
        L += [priv('k', c, d), pub('q', c, P, rng.random() < .7), pub('t', c, M, rng.random() < .7), run('ecdh_pub', 'q1', inp='k'),
              run('ecelgamal_enc', 'c', 'q', 't', hint='k'), run('ecelgamal_dec', 'o', 'k', 'c')]
        ctx = tlv(48, octs(enc(c, rng.choice(pts))) + octs(enc(c, rng.choice(pts), rng.random() < .5)) + dcurve(c))
        L += ['build c1 ECELGAMAL_ENCRYPTED_MESSAGE ' + ctx.hex(), run('ecelgamal_dec', 'o', 'k', 'c1')]
        L += [put('m', message(rng, rng.randrange(1, 40))), run('ecdh_enc', 'e', 'q', 'm', hint='k'), run('ecdh_dec', 'o', 'k', 'e')]
        w = (c['bits'] + 7) // 8
        o = rng.choice([enc(c, rng.choice(pts), rng.random() < .5), bytes([rng.choice([0, 2, 3, 4, 5])]) + oct_(rng.randrange(2 * c['p']) % (1 << 8 * w), w), rng.randbytes(rng.randrange(1, 5))])
        L += ['build e1 ECDHE_XSALSA20_ENCRYPTED_MESSAGE ' + tlv(48, octs(o) + octs(rng.randbytes(24)) + octs(rng.randbytes(9))).hex(), run('ecdh_dec', 'o', 'k', 'e1')]
    return Block('small %s' % name, L + ['reset'], 10 * n)

def sig_block(rng, c, n, name, pts=None):
    """signatures and public keys of every kind for verification; private keys of every kind for signing"""
    L = []
    w = (c['n'].bit_length() + 7) // 8
    for i in range(n):
        d = rng.choice([1, 2, c['n'] - 1, rng.randrange(1, c['n']), c['n'] + rng.randrange(1, c['n']), rng.randrange(1, c['n']) + c['n'] * rng.getrandbits(70)])
        L += [priv('k', c, d), pub('q', c, mul(c, d % c['n'], G(c)), rng.random() < .7), put('m', message(rng, rng.randrange(1, 90)))]
        L += [run('ecdsa_sign', 's', 'k', 'm'), run('ecdsa_verify', 'o', 'q', 's')]
        L += ['der t s 1 flip %d %d' % (rng.randrange(2 * w), rng.randrange(8)), run('ecdsa_verify', '-', 'q', 't'),
              'der t s 0 flip %d %d' % (rng.randrange(90), rng.randrange(8)), run('ecdsa_verify', '-', 'q', 't'),
              'der t s 0 %s' % rng.choice(['cut 5', 'ins 0 00', 'ins -1 00', 'drop 0 1']), run('ecdsa_verify', '-', 'q', 't'),
              'der t s 1 %s' % rng.choice(['cut %d' % w, 'cut %d' % (2 * w - 1), 'ins 0 00', 'ins -1 00', 'drop %d 1' % rng.randrange(2 * w), 'cut 1']), run('ecdsa_verify', '-', 'q', 't')]
        N = c['n']
        top = 1 << 8 * w
        r, s = [rng.choice([0, 1, N - 1, N, min(N + 1, top - 1), top - 1, rng.randrange(N)]) for _ in 'rs']
        L += ['build t ECDSA_SIGNED_MESSAGE %s ECDSA_SIGNATURE %s' % (b'abc'.hex(), (oct_(r, w) + oct_(s, w)).hex()), run('ecdsa_verify', '-', 'q', 't')]
        P = rng.choice(pts) if pts else rng.choice([rand_on(rng, c), neg(c, mul(c, d % N, G(c)))] + list(torsion(rng, c)))
        L += [pub('q3', c, P, rng.random() < .5), run('ecdsa_verify', '-', 'q3', 's')]
    return Block('signatures %s' % name, L + ['reset'], 16 * n)

WORDS = dict(k='ECDH PRIVATE KEY', q='ECDH PUBLIC KEY', e='ECDHE_XSALSA20 ENCRYPTED MESSAGE', c='ECELGAMAL ENCRYPTED MESSAGE', s='ECDSA SIGNED MESSAGE')
def uses(rng, f, g):
    """runs which read file g, a changed f"""
    return dict(k=[run('ecdh_pub', '-', inp=g, flags=fl(rng)), run('ecdh_dec', '-', g, 'e'), run('ecdsa_sign', '-', g, 'm'), run('ecelgamal_dec', '-', g, 'c')],
                q=[run('ecdh_enc', '-', g, 'm', hint='k'), run('ecdsa_verify', '-', g, 's'), run('ecelgamal_enc', '-', g, 'q', hint='k'), run('ecelgamal_enc', '-', 'q', g, hint='k', flags=fl(rng))],
                e=[run('ecdh_dec', '-', 'k', g, flags=fl(rng))], c=[run('ecelgamal_dec', '-', 'k', g, flags=fl(rng))], s=[run('ecdsa_verify', '-', 'q', g, flags=fl(rng))])[f]
def start(rng, c, n=20):
    return keys(rng, c) + keys(rng, c, 'k2', 'q2') + [put('m', message(rng, n)), run('ecdh_enc', 'e', 'q', 'm', hint='k'), run('ecdsa_sign', 's', 'k', 'm'), run('ecelgamal_enc', 'c', 'q', 'q2', hint='k')]

def text_edit(rng, f):
    w = WORDS[f].encode()
    r = rng.randrange(12)
    if r < 3: return 'flip %d %d' % (rng.getrandbits(24), rng.randrange(8))
    if r == 3: return 'cut %d' % rng.getrandbits(24)
    if r == 4: return 'drop %d %d' % (rng.getrandbits(24), rng.randrange(1, 90))
    if r == 5: return 'ins %d %s' % (rng.choice([0, -1, rng.getrandbits(24)]), rng.choice([b'\n', b'-', b'=', b'\0', b'AAAA', b' ', b'\r\n', b'-----', b'text\n', w, b'\xff' * 20]).hex())
    if r == 6: return 'sub %s %s' % (w.hex(), rng.choice([x for x in list(WORDS.values()) + ['', 'X', 'ECDSA SIGNATURE'] if x != w.decode()]).encode().hex())
    if r == 7: return 'sub 0a %s' % rng.choice(['', '0d0a', '20', '0a0a'])
    if r == 8: return 'sub 2d2d2d2d2d %s' % rng.choice(['2d', '', '2d2d2d2d', '2d' * 9, '2d2d2d2d2d0a'])
    if r == 9: return 'sub %s %s' % rng.choice([(b'BEGIN'.hex(), b'END'.hex()), (b'END'.hex(), b'BEGIN'.hex()), (b'BEGIN'.hex(), b'begin'.hex()), (b'END '.hex(), b'END'.hex())])
    if r == 10: return 'cut %d' % -rng.randrange(1, 60)
    return 'drop %d 1' % rng.getrandbits(24)
def der_edit(rng):
    r = rng.randrange(8)
    if r < 4: return 'flip %d %d' % (rng.choice([rng.randrange(8), rng.getrandbits(20)]), rng.randrange(8))
    if r == 4: return 'cut %d' % rng.choice([1, 2, 3, rng.getrandbits(20)])
    if r == 5: return 'drop %d %d' % (rng.choice([rng.randrange(8), rng.getrandbits(20)]), rng.randrange(1, 20))
    return 'ins %d %s' % (rng.choice([rng.randrange(8), -1, rng.getrandbits(20)]), rng.choice(['00', '0000', '80', 'ff', '0400', '040100', '30', rng.randbytes(3).hex()]))
def edit_block(rng, c, n, name):
    L = start(rng, c, rng.choice([1, 3, 20, 130]))
    for i in range(n):
        f = rng.choice('kqeccss' if i % 3 else 'kq')
        if rng.random() < .5: L.append('text x %s %s' % (f, text_edit(rng, f)))
        else: L.append('der x %s %d %s' % (f, rng.randrange(2), der_edit(rng)))
        if rng.random() < .15: L.append('text x x %s' % text_edit(rng, f))
        u = uses(rng, f, 'x')
        L += u if rng.random() < .1 else [rng.choice(u)]
    return Block('edits %s' % name, L + ['reset'], 2 * n)

CURVE = ['p', 'type', 'p1', 'p2', 'n', 'h', 'gx', 'gy', 'bits']
PATHS = dict(p='0', type='1', p1='2.0', p2='2.1', n='3', h='4', gx='5.0', gy='5.1', bits='6')
def field_values(rng, c, f):
    p, n = c['p'], c['n']
    v = dict(p=p, type=NR[c['t']], p1=c['a'] % p, p2=c['b'] % p, n=n, h=c['h'], gx=c['gx'], gy=c['gy'], bits=c['bits'])[f]
    r = rng.randrange(4)
    w = max(1, (v.bit_length() + 7) // 8)
    if f in ('type', 'bits'):
        return rng.choice([dint(x) for x in (0, 1, 2, 3, 4, 5, 6, 255, 256, -1, -128, v + 1, v - 1, v + 8, 2 * v, 1023, 1024, 1025, 2048, 32767, 32768, 65535, 1 << 30, (1 << 31) - 1, -(1 << 31), 1 << 31, 1 << 32, 1 << 64)]
                          + [b'', b'\0' + dint(v), b'\0\0' + dint(v), b'\0\0\0\0' + dint(v), bytes(4), bytes(9)])
    if r == 0: return rng.choice([b'', b'\0', b'\1', b'\2', b'\3', b'\0' + oct_(v), bytes(40) + oct_(v), oct_(v) + b'\0', b'\xff' * w, b'\xff' * 128, b'\xff' * 129, b'\1' + bytes(128), oct_(v)[1:]])
    if r == 1: return oct_(rng.choice([v + 1, abs(v - 1), v + 2, v + p, 2 * v, v + n, (p - v) % p, p, p - 1, p + 1, n, n - 1, v * v]))
    if r == 2: return oct_(v ^ (1 << rng.randrange(max(1, v.bit_length()))))
    return oct_(rng.choice([rng.getrandbits(8 * w), randprime(rng, 8 * w), rng.getrandbits(64), nextprime(v), 4, 9, 15, 561, 1 << 200]))
def field_block(rng, c, n, name):
    L = start(rng, c)
    w = (c['bits'] + 7) // 8
    for i in range(n):
        f = rng.choice('kqkqec')
        at = dict(k='1.', q='1.', c='2.').get(f)
        if at and rng.random() < .7:
            # (most other values are of the kinds listed in known-findings.txt)
            x = rng.choice(['h', 'h', 'h', 'gx', 'gy', 'p2', 'p1', rng.choice(CURVE)])
            if x != 'h' and f != 'k' and rng.random() < .7: x = 'h'
            L.append('field x %s %s %s' % (f, at + PATHS[x], field_values(rng, c, x).hex()))
        elif rng.random() < .1: L.append('tag x %s %s %d' % (f, rng.choice(['0', '1'] + ([at + PATHS[rng.choice(CURVE)]] if at else ['2'])), rng.choice([0, 2, 3, 4, 5, 10, 36, 48, 49, 128])))
        else:
            P = rng.choice([rand_on(rng, c), G(c)] + list(torsion(rng, c)))
            pt = rng.choice([enc(c, P), enc(c, P, False), enc(c, None), enc(c, None, False), enc(c, P)[:-1], enc(c, P) + b'\0', bytes([rng.choice([0, 1, 5, 6, 7, 255])]) + enc(c, P)[1:], enc(c, P, False)[:-1] + bytes([enc(c, P, False)[-1] ^ 1]),
                             b'\2' + oct_(c['p'] % (1 << 8 * w), w), b'\3' + b'\xff' * w, b'\2' + rng.randbytes(w), b'\3' + rng.randbytes(w), b'\2' + bytes(w), b'\3' + bytes(w), b'', b'\4', bytes(w), bytes(2 * w), bytes(2 * w + 2)])
            if f == 'k': L.append('field x k 0 %s' % rng.choice([b'', b'\0', b'\1', oct_(c['n']), oct_(c['n'] - 1), oct_(c['n'] + 1), b'\0' * 9 + b'\5', b'\xff' * 300]).hex())
            elif f == 'q': L.append('field x q 0 %s' % pt.hex())
            elif f == 'c': L.append('field x c %s %s' % (rng.choice('01'), pt.hex()))
            else:
                k = rng.choice('012')
                L.append('field x e %s %s' % (k, (pt if k == '0' else rng.choice([b'', b'\0', bytes(23), bytes(24), bytes(25), rng.randbytes(24)]) if k == '1' else rng.choice([b'', b'\0', rng.randbytes(100)])).hex()))
        u = uses(rng, f, 'x')
        L += u if rng.random() < .2 else [rng.choice(u)]
    return Block('fields %s' % name, L + ['reset'], 2 * n)

def graft_block(rng, c, o, name):
    """parts of keys and messages of two curves exchanged; curves which differ in one value"""
    L = start(rng, c)
    L += keys(rng, o, 'ko', 'qo') + ['build co ECELGAMAL_ENCRYPTED_MESSAGE ' + tlv(48, octs(enc(o, G(o))) + octs(enc(o, rand_on(rng, o))) + dcurve(o)).hex()]
    for f, g, at in (('k', 'ko', '1'), ('q', 'qo', '1'), ('c', 'co', '2')):
        for path in [at] + [at + '.' + PATHS[x] for x in CURVE] + ['0']:
            L.append('graft x %s %s %s %s' % (f, path, g, path))
            L.append(rng.choice(uses(rng, f, 'x')))
    L += ['graft x k2 0 k 0', run('ecdh_dec', '-', 'x', 'e'), 'graft x c 0 c 1', run('ecelgamal_dec', '-', 'k', 'x')]
    # the same curve with another cofactor, generator or order is another curve
    d = rng.randrange(1, c['n'])
    vs = [dict(c, h=c['h'] + 1)]
    P = mul(c, rng.randrange(2, c['n']), G(c))
    vs.append(dict(c, gx=P[0], gy=P[1]))
    for v in vs:
        L += [priv('kv', v, d), pub('qv', v, mul(v, d, G(v))), run('ecdh_pub', '-', inp='kv'), run('ecelgamal_enc', '-', 'q', 'qv', hint='k'), run('ecelgamal_enc', '-', 'qv', 'q', hint='kv'), run('ecelgamal_dec', '-', 'kv', 'c'),
              run('ecelgamal_enc', 'cv', 'qv', 'qv', hint='kv'), run('ecelgamal_dec', '-', 'kv', 'cv'), run('ecelgamal_dec', '-', 'k', 'cv'), run('ecdsa_verify', '-', 'qv', 's'),
              run('ecdsa_sign', 'sv', 'kv', 'm'), run('ecdsa_verify', '-', 'qv', 'sv'), run('ecdh_enc', 'ev', 'qv', 'm', hint='kv'), run('ecdh_dec', '-', 'kv', 'ev'), run('ecdh_dec', '-', 'k', 'ev')]
    return Block('grafts %s' % name, L + ['reset'], 80)

def c19(c):
    c.model('MCCiphers')
    rng, T = c.rng, c.thorough
    named_ = named()
    names = list(named_)
    plain, san = build_ex(c, 'plain'), build_ex(c, 'san', SAN)
    B = [life_block(rng, named_[n], n, named_[rng.choice(names)]) for n in names]
    lens = [1, 2, 3, 4, 5, 31, 32, 33, 53, 54, 55, 63, 64, 65, 71, 72, 73, 107, 108, 109, 110, 111, 112, 113, 119, 120, 127, 128, 129, 130, 239, 240, 241, 255, 256, 257, 999, 1023, 1024]
    big = [15999, 16000, 16001, 32000, 32001, 65535, 65536, 100000]
    pick = lambda t: named_[rng.choice([n for n in names if named_[n]['t'] == t and named_[n]['bits'] < 300])]
    for i, t in enumerate(FORMS): B.append(length_block(rng, pick(t), lens[i::4] + big[i::4] + [rng.randrange(1, 3000)], t))
    B.append(option_block(rng, pick(rng.choice(FORMS)), '1'))
    m = 6 if T else 1
    S = [s for s in small_curves(rng, [5, 7, 11, 13, 17, 23, 29, 31, 251, 257], 1)]
    for i, (s, pts) in enumerate(rng.sample(S, min(len(S), 8 * m))): B.append(small_block(rng, s, pts, '%s %x' % (s['t'], s['p']), 4))
    # (on tiny curves some digests have no signature under some keys)
    S2 = [s for s in S if signable(s[0], 1)]
    S3 = [s for s in S2 if s[0]['n'] > 40]
    for i, (s, pts) in enumerate(rng.sample(S2, min(len(S2), 4 * m))): B.append(sig_block(rng, s, 3, '%s %x' % (s['t'], s['p']), pts))
    for j in range(m):
        for t in FORMS:
            B.append(sig_block(rng, pick(t), 4, t))
            for k in range(2):
                B.append(edit_block(rng, pick(t), 40, '%s %d.%d' % (t, j, k)))
                B.append(field_block(rng, pick(t), 40, '%s %d.%d' % (t, j, k)))
            B.append(graft_block(rng, pick(t), pick(rng.choice([t, t, rng.choice(FORMS)])), t))
        s = rng.choice(S3)
        B.append(edit_block(rng, s[0], 30, 'small %d' % j))
        B.append(field_block(rng, s[0], 30, 'small %d' % j))
        B.append(edit_block(rng, named_[rng.choice(names)], 20, 'any %d' % j))
        B.append(field_block(rng, named_[rng.choice(names)], 20, 'any %d' % j))
    exe = V + '/driver/exdrv.py'
    rng.shuffle(B)
    h = [b for b in B if not b.name.startswith('lengths')]
    k = len(h) // 4
    listed = {'FINDING_' + i: '1' for i, _ in c.known_findings()}
    c.run_blocks(exe, h[:k] + [b for b in B if b.name.startswith('lengths')], module='Examples', alarm=20, env={'EXBIN': plain}, tlc_env=listed, label='p', packs=8 * m)
    c.run_blocks(exe, h[k:], module='Examples', alarm=20, env={'EXBIN': san}, tlc_env=listed, label='s', packs=8 * m)
    c.probe_known(exe, probes(rng), module='Examples', alarm=4, env={'EXBIN': san})

def probes(rng):
    """one script for each listed finding"""
    c = named()['secp256k1']
    d = 7
    Q = mul(c, d, G(c))
    base = [priv('k', c, d), pub('q', c, Q), put('m', b'message')]
    e = lambda *x: 'build x ECDHE_XSALSA20_ENCRYPTED_MESSAGE ' + tlv(48, b''.join(octs(i) for i in x)).hex()
    pa = 'field x %s %s %s'
    return dict(
        unreadable=Block('p', base + [run('ecdh_enc', '-', 'q', '.', flags='i')]),
        short=Block('p', base + [put('m', b'm'), run('ecdsa_sign', '-', 'k', 'm')]),
        overread=Block('p', base + ['build s ECDSA_SIGNATURE ' + bytes(64).hex(), run('ecdsa_verify', '-', 'q', 's')]),
        empty=Block('p', base + [put('z', b''), run('ecdh_enc', '-', 'q', 'z'), run('ecdsa_sign', '-', 'k', 'z')]),
        der=Block('p', base + [pa % ('k', '0', ''), run('ecdh_pub', '-', inp='x'), pa % ('k', '1.6', bytes(9).hex()), run('ecdh_pub', '-', inp='x')]),
        params=Block('p', base + [pa % ('k', '1.0', '04'), run('ecdh_pub', '-', inp='x'), pa % ('k', '1.6', dint(2048).hex()), run('ecdh_pub', '-', inp='x')]),
        points=Block('p', base + [pa % ('q', '1.2.1', '08'), run('ecdh_enc', '-', 'x', 'm', hint='k'), pa % ('q', '0', '02' + 'ff' * 32), run('ecdh_enc', '-', 'x', 'm', hint='k')]),
        message=Block('p', base + [e(enc(c, Q), b'short', b'text'), run('ecdh_dec', '-', 'k', 'x'), e(b'\2' + b'\xff' * 32, bytes(24), b'text'), run('ecdh_dec', '-', 'k', 'x')]))
