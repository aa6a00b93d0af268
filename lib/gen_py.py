"""C16, C17: the Python module."""
import os, sysconfig, glob
from concurrent.futures import ThreadPoolExecutor
from vlib import Block, V, REPO, NPROC, MachineryError
from nums import *
from gen_point import G, rand_on, enc_bytes, mutations, text_mut, small_curves, torsion, any_small, FORMS, neg_y
from gen_scheme import sigb, HSZ, dig, dint, can_sign

PY = '/usr/bin/python3'
def build_ext(c, name, cflags=(), env=None, preload=None, cc='gcc'):
    """the extension module, with the library linked into it; returns the program which runs pydrv.py with it"""
    d = '%s/drv%s' % (c.out, name)
    os.makedirs(d)
    inc = sysconfig.get_paths()['include']
    if not os.path.exists(inc + '/Python.h'): inc = '/usr/include/python3.12'
    srcs = c.lib_sources() + sorted(glob.glob(REPO + '/python/*.c'))
    flags = [cc, '-g', '-O1', '-fPIC', '-w', '-DSAFE_CLEAN', '-I' + REPO + '/include', '-I' + REPO + '/python', '-I' + inc] + list(cflags)
    objs = ['%s/%s.o' % (d, os.path.basename(s)) for s in srcs]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda so: c.must(flags + ['-c', so[0], '-o', so[1]]), zip(srcs, objs)))
    c.must([cc, '-shared'] + list(cflags) + objs + ['-o', d + '/ECC.so', '-lgmp'])
    for o in objs: os.remove(o)
    sh = '%s/drv%s.sh' % (c.out, name)
    e = dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **(env or {}))
    if preload: e['LD_PRELOAD'] = preload
    open(sh, 'w').write('#!/bin/sh\nexec env %s %s -S %s/driver/pydrv.py "$@"\n' % (' '.join("%s='%s'" % kv for kv in e.items()), PY, V))
    os.chmod(sh, 0o755)
    return sh
DEBUG = dict(PYTHONMALLOC='debug', MALLOC_PERTURB_='165')

FOREIGN = ['float', 'zero', 'nan', 'str', 'bytes', 'none', 'list', 'tuple', 'dict', 'complex', 'obj', 'frac', 'dec', 'barr', 'type', 'cls', 'ccls', 'mod', 'set', 'badtext', 'nultext', 'mem', 'func', 'nt', 'ell']
def bigints(rng, m):
    return rng.choice([0, 0, 1, -1, 2, m - 1, m, m + 1, -m, 1 - m, 2 * m, -3 * m + 1, m // 2, rng.randrange(m), -rng.randrange(m), rng.randrange(m),
                       1 << 64, (1 << 64) - 1, -(1 << 64), 1 << 63, -(1 << 63), (1 << 63) - 1, -(1 << 31), 255, 256, -128, -129, 127, 128, -256, -255, -32768, 65535,
                       rng.getrandbits(rng.randrange(1, 2100)), -rng.getrandbits(rng.randrange(1, 2100)), -(1 << rng.randrange(1, 1200)), 1 << rng.randrange(1, 1200),
                       rng.getrandbits(5000), -rng.getrandbits(9000), (1 << 2048), -(1 << 2047), (1 << 2040) - 1])
def I(rng, v): return '%s:%s' % ('j' if rng.random() < .12 else 'i', hx(v))
def X(rng): return 'x:' + rng.choice(FOREIGN)
def T(s): return 't:' + (s.encode().hex() if s else '-')
def Bt(b): return 'b:' + (b.hex() if b else '-')
def pcurve(h, c, rng=None):
    if 'name' in c and (rng is None or rng.random() < .6): return 'named %s %s' % (h, T(c['name']))
    return 'curve %s form:%s %s' % (h, c['t'], ' '.join('i:' + hx(c[k]) for k in ('p', 'a', 'b', 'n', 'h', 'gx', 'gy')) + ' i:%x' % c['bits'])
def point_at(h, ch, P): return 'point %s %s' % (h, ch) if P is None else 'affpt %s %s i:%x i:%x' % (h, ch, P[0], P[1])

# ---- field elements
def fe_block(rng, mods, n, name):
    m, o = mods
    L, live = [], []
    for i in range(4): L.append('fe f%d %s i:%x' % (i, I(rng, bigints(rng, m)), m)); live.append('f%d' % i)
    L.append('fe f9 %s i:%x' % (I(rng, bigints(rng, o)), o))
    for _ in range(n):
        op = rng.choice(['add', 'sub', 'mul'] * 4 + ['pow', 'pow', 'neg', 'inv', 'sqrt', 'repr', 'eq', 'ne', 'eq', 'ne', 'int', 'str', 'lt', 'fe', 'fe', 'frand', 'order'])
        d, a, b = 'f%d' % rng.randrange(7), rng.choice(live), rng.choice(live)
        r = rng.random()
        if op in ('add', 'sub', 'mul', 'eq', 'ne', 'lt'):
            x = b if r < .45 else I(rng, bigints(rng, m)) if r < .85 else 'f9' if r < .92 else X(rng)
            if op in ('eq', 'ne') and r > .9 and rng.random() < .5: x = 'i:%x' % rng.randrange(min(m, 5))
            u, v = (a, x) if rng.random() < .5 else (x, a)
            if op == 'lt': L.append('%s %s %s' % (rng.choice(['lt', 'le', 'gt', 'ge']), u, v)); continue
            if op in ('eq', 'ne'): L.append('%s %s %s' % (op, u, v)); continue
            L.append('%s %s %s %s' % (op, d, u, v))
            if (x == b or x[0] in 'ij') and d not in live: live.append(d)
        elif op == 'pow':
            e = rng.choice([0, 1, 2, 3, 5, m - 1 if m < 1 << 64 else 7, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, rng.getrandbits(64), rng.getrandbits(30), 1 << 64, (1 << 64) + 5, rng.getrandbits(200), -1, -2, -(1 << 70)])
            if r < .85: L.append('pow %s %s %s' % (d, a, I(rng, e)))
            elif r < .9: L.append('pow %s %s %s' % (d, I(rng, e), a))
            elif r < .95: L.append('pow %s %s %s' % (d, *rng.sample([a, rng.choice([b, X(rng), 'i:3', 'f9'])], 2))) if rng.random() < .5 else L.append('pow %s %s x:float' % (d, a))
            else: L.append('pow %s %s %s %s' % (d, a, 'i:3', rng.choice(['i:7', a, 'x:none' if False else 'x:float'])))
            continue
        elif op in ('neg', 'repr'):
            L.append('%s %s %s' % (op, d, a))
            if d not in live: live.append(d)
        elif op in ('inv', 'sqrt'): L.append('%s z %s' % (op, a)); continue
        elif op == 'order': L.append('bad %s %s' % (rng.choice(['float', 'pos', 'abs', 'inv', 'index', 'len', 'item', 'iter', 'call', 'hash']), a)) if r < .5 else L.append('bad %s %s %s' % (rng.choice(['div', 'fdiv', 'mod', 'and', 'lshift']), a, rng.choice([b, 'i:3'])))
        elif op in ('int', 'str'): L.append('%s %s' % (op, a))
        elif op == 'fe':
            if r < .7: L.append('fe %s %s %s' % (d, I(rng, bigints(rng, m)), 'i:%x' % m)); live.append(d) if d not in live else None
            else:
                v = rng.choice([['i:5', 'i:0'], ['i:5', 'i:1'], ['i:5', 'i:-7'], ['i:5', 'i:-%x' % m], ['i:5', X(rng)], [X(rng), 'i:7'], ['i:5'], ['i:5', 'i:7', 'i:7'], [], [a, 'i:%x' % m], ['i:5', a],
                                ['i:5', 'i:%x' % (1 << 1024)], ['i:5', 'i:%x' % ((1 << 4096) + 1)], [X(rng), X(rng)], ['i:5', 'i:%x' % (m << 1030)]])
                L.append('fe z ' + ' '.join(v))
        elif op == 'frand': L.append('frand %s %s' % (('z', rng.choice(['i:0', 'i:1', 'i:-5', X(rng), a, 'i:%x' % (1 << 1024), 'i:7 i:7', ''])) if r < .5 else ('z', 'i:%x' % m)))
    return Block(name, L + ['del %s' % h for h in live] + ['del f9'] + (['del z'] if False else []), weight=len(L))

def fix_z(b):
    """z holds results nobody uses; it may or may not exist at the end of a block"""
    return b

# ---- curves
def cv_block(rng, c, n, name):
    p = c['p']
    L = [pcurve('c0', c), pcurve('c1', c, rng)]
    # negative and unreduced parameters
    for k in range(3):
        hh, sx, sy, sa, sb = [(-c['h'], 0, 0, 0, 0), (-rng.getrandbits(700), -p, -p, -p, -p), (rng.getrandbits(200), p * rng.getrandbits(300), -p * rng.getrandbits(90), p << 500, -(p << 700))][k]
        L += ['curve c%d form:%s i:%x %s i:%x' % (6 + k, c['t'], p, ' '.join('i:' + hx(v) for v in (c['a'] + sa, c['b'] + sb, c['n'], hh, c['gx'] + sx, c['gy'] + sy)), c['bits'])]
        L += ['attr c%d %s' % (6 + k, a) for a in ('p', 'n', 'h', 'G', 'bits', 'ctype', 'a', 'b', 'c', 'd', 'A', 'B')] + ['repr c9 c%d' % (6 + k), 'gen p0 c%d' % (6 + k), 'eq c0 c%d' % (6 + k)]
    for _ in range(n):
        r = rng.random()
        if r < .35:
            L.append('attr c0 %s' % rng.choice(['p', 'n', 'h', 'G', 'bits', 'ctype', 'a', 'b', 'c', 'd', 'A', 'B', 'p', 'a', 'b', 'x', 'g', 'P', 'type', 'C', 'D', 'pp', 'order']))
        elif r < .5:
            x, y = rng.choice([rand_on(rng, c), G(c), (rng.randrange(p), rng.randrange(p))])
            if rng.random() < .3: x += rng.choice([p, 2 * p, -p])
            if rng.random() < .3: y += rng.choice([p, -p, 1 << 3000])
            a = [I(rng, x), I(rng, y)]
            if rng.random() < .15: a[rng.randrange(2)] = X(rng)
            if rng.random() < .05: a = rng.choice([a[:1], a + ['i:1'], []])
            if len(a) == 2: L.append('check c0 ' + ' '.join(a))
        elif r < .6: L.append('%s c0 %s' % (rng.choice(['eq', 'ne']), rng.choice(['c1', 'c0', 'i:5', X(rng), 'c2' if 'c2' in ''.join(L) and False else 'c1'])))
        elif r < .64: L.append('repr c5 c0')
        elif r < .66: L.append('%s c0 c1' % rng.choice(['lt', 'le', 'gt', 'ge']))
        elif r < .68: L.append('setattr c0 %s' % rng.choice(['p', 'n', 'a', 'zz', 'ctype']))
        elif r < .72: L.append(rng.choice(['bad len c0', 'bad call c0', 'bad iter c0', 'int c0', 'neg z c0', 'inv z c0', 'bad hash c0', 'add z c0 c1', 'mul z c0 i:3', 'asbytes c0', 'affine c0', 'setup c0', 'compressed c0']))
        elif r < .78:
            nm = rng.choice(['', 'secp256k1 ', 'SECP256K1', 'secp256', 'NIST P-256\0', 'a' * 5000, c.get('name', 'x')[:-1], 'Ed25519\u00e9'])
            L.append('named z ' + rng.choice([T(nm), T(nm), X(rng), 'i:5', 'c0', '', T('Ed25519') + ' ' + T('x')]))
        elif r < .82: L.append('names')
        else:
            d = dict(c); d.pop('name', None)
            a = [d[k] for k in ('p', 'a', 'b', 'n', 'h', 'gx', 'gy')] + [d['bits']]
            t = d['t']
            q = rng.random()
            if q < .2: a[rng.choice([1, 2])] += p * rng.choice([1, 2, 1 << 70])
            elif q < .45: a[rng.choice([5, 6])] = rng.choice([0, 1, rng.randrange(p), -1])
            elif q < .55: a[3] = rng.choice([0, 1, 2, 3, -5, 1 << 1024, (1 << 1024) - 1, nextprime(1 << 100)])
            elif q < .65: a[7] = rng.choice([0, 1, p.bit_length() - 1, -1, 1025, 1 << 31, (1 << 32) + p.bit_length(), -(1 << 31), 1 << 70])
            elif q < .72: a[0] = rng.choice([0, 1, 2, -p, 1 << 1024, p << 1030])
            elif q < .78: a[4] = rng.choice([0, 1, 5, 1 << 80, (1 << 3000) + 1])
            elif q < .84: a[rng.randrange(1, 7)] *= -1
            elif q < .9:
                k = rng.randrange(8)
                L.append('curve z form:%s %s' % (t, ' '.join(X(rng) if i == k else 'i:' + hx(v) for i, v in enumerate(a)))); continue
            elif q < .94:
                L.append('curve z form:%s %s' % (t, ' '.join('i:' + hx(v) for v in rng.choice([a[:7], a + [1], [], a[:3]])))); continue
            if a[0] > 1 and t == 'mo' and a[1] % a[0] == 0: continue
            if a[0] in (2,) or a[0] != p and a[0] > 2: continue
            dd = dict(t=t, p=a[0], a=a[1], b=a[2])
            if a[0] == p and not complete(dd): continue
            L.append('curve z form:%s %s' % (t, ' '.join('i:' + hx(v) for v in a)))
    return Block(name, L)

# ---- points
def pt_block(rng, c, o, n, name):
    """c: the curve; o: another one"""
    p, N = c['p'], c['n']
    w = (p.bit_length() + 7) // 8
    L = [pcurve('c0', c), pcurve('c1', c, rng), pcurve('c2', o)]
    L += [point_at('p0', 'c0', G(c)), point_at('p1', 'c1', rand_on(rng, c)), point_at('p2', 'c0', rng.choice(torsion(rng, c))), 'point p3 c1', point_at('p8', 'c2', rand_on(rng, o)),
          'fe f0 i:%x i:%x' % (rng.randrange(N), N), 'fe f1 i:%x i:%x' % (rng.randrange(p), p), 'fe f2 i:3 i:7']
    live = ['p0', 'p1', 'p2', 'p3']
    # coordinates in other fields than the curve's, with the right residues; texts which continue after a valid one
    x, y = rand_on(rng, c)
    q1, q2 = nextprime(max(x, y) + 1), nextprime(2 * p)
    if q1 == p: q1 = nextprime(p + 1)
    L += ['fe x0 i:%x i:%x' % (x, p), 'fe y0 i:%x i:%x' % (y, p), 'affpt p7 c0 x0 y0']
    for q in (q1, q2): 
        if q != p and q.bit_length() <= 1024: L += ['fe x1 i:%x i:%x' % (x, q), 'fe y1 i:%x i:%x' % (y, q), 'affpt z c0 x0 y1', 'affpt z c0 x1 y0', 'affpt z c0 x1 y1', 'affpt z c0 i:%x y0' % x, 'affpt z c0 x0 i:%x' % y]
    for comp in (True, False):
        s = enc_bytes(c, (x, y), comp).hex()
        L += ['point z c0 ' + T(v) for v in (s + '\0', s + '\0\0', s + '\0' + s, s[:-2] + '\0' + s[-2:], s + ' ', ' ' + s, s + '\n', s + '0', s + '00', s[:-1], s[:-2], '0x' + s, s[:-1] + '\u0660', s[:1] + '\0')]
    for _ in range(n):
        d, a, b = 'p%d' % rng.randrange(7), rng.choice(live), rng.choice(live)
        op = rng.choice(['add', 'sub', 'add', 'sub', 'mul', 'mul', 'mul', 'neg', 'eq', 'ne', 'repr', 'str', 'compressed', 'uncompressed', 'affine', 'setup', 'affpt', 'affpt', 'point', 'point', 'point', 'odd', 'prand'])
        r = rng.random()
        ok = False
        if op in ('add', 'sub'):
            x = b if r < .85 else 'p8' if r < .9 else rng.choice([X(rng), 'i:0', 'i:5', 'f0', 'c0'])
            u, v = (a, x) if rng.random() < .5 else (x, a)
            L.append('%s %s %s %s' % (op, d, u, v)); ok = x == b
        elif op == 'mul':
            k = rng.choice([0, 1, -1, 2, 3, N - 1, N, N + 1, -N, p, rng.randrange(N), -rng.randrange(N), rng.getrandbits(16), bigints(rng, N), rng.getrandbits(N.bit_length() + 70)])
            x = I(rng, k) if r < .6 else rng.choice(['f0', 'f1', 'f2']) if r < .9 else rng.choice([b, X(rng), 'c0'])
            u, v = (a, x) if rng.random() < .5 else (x, a)
            L.append('mul %s %s %s' % (d, u, v)); ok = r < .9
        elif op in ('neg', 'repr'): L.append('%s %s %s' % (op, d, a)); ok = True
        elif op in ('eq', 'ne'): L.append('%s %s %s' % (op, a, b if r < .7 else rng.choice(['p8', 'i:0', 'c0', 'f0', X(rng)])))
        elif op == 'setup': L.append('setup ' + a)
        elif op in ('str', 'compressed', 'uncompressed', 'affine'): L.append('%s %s' % (op, a))
        elif op == 'affpt':
            x, y = rng.choice([G(c), rand_on(rng, c), rand_on(rng, c), (rng.randrange(p), rng.randrange(p)), (0, 0), (0, 1), rand_on(rng, o)])
            q = rng.random()
            if q < .2: x += rng.choice([p, -p, p << 70]); y -= rng.choice([0, p, 2 * p])
            if q < .5: L.append('affpt %s %s %s %s' % (d, rng.choice(['c0', 'c1']), I(rng, x), I(rng, y)))
            elif q < .8:
                L += ['fe f5 i:%s i:%x' % (hx(x), p), 'fe f6 i:%s i:%x' % (hx(y), p), 'affpt %s %s f5 f6' % (d, 'c0')]
            else:
                v = [I(rng, x), I(rng, y)]
                v = rng.choice([['c0', v[0], 'f1'], ['c0', 'f1', v[0]], ['c0'] + v + ['i:1'], ['c0', v[0]], ['c0', X(rng), v[1]], ['c0', v[0], X(rng)], ['c0', 'f0', 'f0'], ['c0', 'f1', 'f2'], ['f0'] + v, ['p0'] + v, [X(rng)] + v, ['c0', 'c0', 'p0']])
                L.append('affpt z ' + ' '.join(v)); continue
            ok = on_curve(c, (x % p, y % p))
        elif op == 'point':
            P = rng.choice([None] * (neutral(c) is None) + [G(c), rand_on(rng, c)])
            enc = enc_bytes(c, P, rng.random() < .5)
            q = rng.random()
            if q < .3: L.append('point %s c0 %s' % (d, Bt(enc) if rng.random() < .5 else T(enc.hex().upper() if rng.random() < .5 else enc.hex()))); ok = True
            elif q < .5: L.append('point z c0 ' + Bt(rng.choice(mutations(rng, c, rand_on(rng, c)))))
            elif q < .65:
                s = enc.hex(); k = rng.randrange(len(s))
                s = rng.choice([s[:-1], s + '0', s + '00', ' ' + s, s + ' ', '0x' + s, s[:k] + 'g' + s[k + 1:], s[:k] + '\0' + s[k + 1:], s + '\0', '', '-' + s[1:], s[:k] + '\u00e9' + s[k + 1:], 'zz', '0', s[:k] + ' ' + s[k + 1:]])
                L.append('point z c0 ' + T(s))
            else:
                L.append('point z ' + rng.choice(['c0 ' + X(rng), 'c0 x:tup1', 'c0 x:tup0', 'c0 x:tup3', X(rng), 'p0', '', 'c0 i:5', 'c0 c0', 'c0 f1', 'c0 p0', 'c0 b:00 b:00', 'f0 b:02', X(rng) + ' b:02']).replace('x:tuple', 'x:list').replace('x:str', 'x:list').replace('x:bytes', 'x:list').replace('x:nultext', 'x:list'))
        elif op == 'prand':
            if r < .5: L.append('prand z ' + rng.choice([X(rng), 'i:5', 'f0', 'p0', '', 'c0 c0']))
            elif p.bit_length() < 260: L.append('prand %s c0' % d); ok = True
        else:
            L.append(rng.choice(['lt p0 p1', 'le p0 p1', 'gt p0 p1', 'int p0', 'inv z p0', 'sqrt z p0', 'pow z p0 i:2', 'pow z f0 p0', 'bad len p0', 'bad iter p0', 'bad call p0', 'bad abs p0', 'bad pos p0', 'bad hash p0', 'bad div p0 i:2', 'bad mod p0 p1',
                                 'asbytes p0', 'verify p0 p1 b:00', 'decrypt z p0 i:3', 'sign z p0 i:3 b:00', 'attr p0 p', 'setattr p0 x', 'part z p0 C', 'affine c0', 'compressed f0', 'uncompressed c0', 'setup f0']))
        if ok and d not in live: live.append(d)
    return Block(name, L, weight=len(L) * (3 if p.bit_length() < 300 else 8))

# ---- schemes
BADH = ['nomodule', 'nosize', 'floatsize', 'zero', 'negative', 'huge', 'nonew', 'newint', 'newclass', 'newfails', 'newnone', 'text', 'long', 'none', 'digestfails']
def msgs(rng):
    m = rng.choice([b'm', b'message', b'\0', b'\0\0\0', b'\xff' * 40, rng.randbytes(rng.randrange(1, 300)), b'\xee', b'\xee\xea', 'text\u00e9\u20ac'.encode()])
    return m
def scheme_block(rng, c, o, n, name):
    N, p = c['n'], c['p']
    ws = (N.bit_length() + 7) // 8
    L = [pcurve('c0', c), pcurve('c1', c, rng), pcurve('c2', o)]
    hs = rng.choice(HSZ)
    L += ['scheme s0 c0 H:%d' % hs, point_at('p0', 'c1', G(c)), point_at('p9', 'c2', G(o)), 'fe f9 i:5 i:%x' % o['n']]
    s = sigb(N, rng.randrange(1, N), rng.randrange(1, N)).hex()
    L += ['import g3 s0 ' + T(s)] + ['import z s0 ' + T(v) for v in (s + '\0', s + '\0\0', s + '\0' + s, s[:-2] + '\0' + s[-2:], s[:-1] + '\0', s + ' ', ' ' + s, s + '0', s + '00', s[:-1], s[:-2], '0x' + s[2:], s[:-1] + '\u0660')]
    for _ in range(n):
        r = rng.random()
        d = rng.choice([1, 2, N - 1, rng.randrange(1, N), rng.randrange(1, N)]) % N or 1
        if r < .06: L.append('scheme s0 %s H:%d' % (rng.choice(['c0', 'c1']), hs))
        elif r < .16: L.append('scheme z ' + rng.choice(['c0 HB:' + rng.choice(BADH), 'c0 HB:' + rng.choice(BADH), 'c0 ' + X(rng).replace('x:mod', 'x:obj'), X(rng) + ' H:20', 'c0', 'c0 H:20 H:20', '', 'p0 H:20', 'c0 x:mod']))
        elif r < .55:
            m = next(m for m in [msgs(rng) for _ in range(20)] + [bytes([i]) for i in range(1, 200)] if m and (N > 300 or can_sign(c, d, dint(N, dig(m, hs)))))
            L.append('fe f0 i:%x i:%x' % (d, N))
            key = rng.choice(['f0', 'i:%x' % d, 'i:%s' % hx(d - N), 'i:%x' % (d + N), 'i:%s' % hx(d - (N << 900)), 'j:%x' % d if d > 1 else 'f0'])
            mt = Bt(m)
            try:
                if rng.random() < .4 and m.decode(): mt = 't:' + m.hex()
            except UnicodeDecodeError: pass
            L += ['sign g0 s0 %s %s' % (key, mt), 'mul p1 p0 f0', 'verify g0 p1 %s' % rng.choice([mt, Bt(m)]), 'verify g0 p1 %s' % Bt(m + b'x'), 'asbytes g0', 'str g0']
            q = rng.random()
            if q < .2: L += ['neg p2 p1', 'verify g0 p2 ' + mt]
            elif q < .4: L += ['point p2 c0', 'verify g0 p2 ' + mt]
            elif q < .5: L += ['verify g0 p9 ' + mt, 'verify g0 p1 b:-', 'verify g0 p1 t:-']
            elif q < .6: L += ['verify g0 ' + rng.choice(['c0 ' + mt, X(rng) + ' ' + mt, 'p1 ' + X(rng).replace('x:str', 'x:list').replace('x:bytes', 'x:list').replace('x:nultext', 'x:list'), 'p1', 'p1 %s %s' % (mt, mt), 'p1 i:5', 'i:5 ' + mt, 'f0 ' + mt])]
            elif q < .7: L += ['verify g0 p1 b:ee%s05' % rng.choice(['eb', 'ec', 'ed', 'ee']), 'verify g0 p1 ' + mt]
        elif r < .7:
            L.append('sign z s0 ' + rng.choice(['f9 b:00', 'f9 b:-', 'i:5 b:-', 'i:5 t:-', 'i:5 ' + X(rng).replace('x:str', 'x:list').replace('x:bytes', 'x:list').replace('x:nultext', 'x:list'), X(rng) + ' b:01', 'p0 b:01', 's0 b:01', 'i:5', '', 'i:5 b:01 b:01',
                     'i:5 b:ee' + rng.choice(['eb', 'ec', 'ed', 'ee']) + '77', 'i:5 i:5', 'i:5 p0', 'c0 b:01']))
        else:
            rr, s = rng.choice([(1, 1), (N - 1, N - 1), (rng.randrange(1, N), rng.randrange(1, N)), (0, 1), (1, 0), (N, 1), (1, N), (256 ** ws - 1, 5)])
            b = sigb(N, rr, s)
            q = rng.random()
            if q < .35: L.append('import %s s0 %s' % ('g1', Bt(b) if rng.random() < .5 else T(b.hex())))
            elif q < .45: L.append('import g1 s0 ' + Bt(rng.choice([b[:-1], b + b'\0', b'\0' + b, b'', b[:ws], b * 2])))
            elif q < .6:
                t = b.hex(); k = rng.randrange(len(t))
                L.append('import g1 s0 ' + T(rng.choice([t.upper(), t[:-1], t + '0', t + '00', '', 'zz', t[:k] + 'x' + t[k + 1:], t[:k] + '\0' + t[k + 1:], t + '\0', ' ' + t[1:], '-' + t[1:], '0x' + t[2:], t[:k] + '\u00e9' + t[k + 1:]])))
            elif q < .7: L.append('import z ' + rng.choice(['s0 ' + X(rng).replace('x:str', 'x:list').replace('x:bytes', 'x:list').replace('x:nultext', 'x:list'), X(rng) + ' ' + Bt(b), 'c0 ' + Bt(b), 's0', '', 's0 i:5', 's0 s0', 's0 %s %s' % (Bt(b), Bt(b))]))
            else: L += ['import g2 s0 ' + Bt(sigb(N, rng.randrange(1, N), rng.randrange(1, N))), 'verify g2 p0 b:01', 'asbytes g2', 'str g2', rng.choice(['bad len g2', 'int g2', 'add z g2 g2', 'bad call s0', 'neg z s0', 'lt g2 g2', 'eq g2 i:5', 'ne s0 i:3', 'eq s0 g2'])]
    return Block(name, L, weight=len(L) * (6 if p.bit_length() < 300 else 20))
def elgamal_block(rng, c, o, n, name):
    N, p = c['n'], c['p']
    L = [pcurve('c0', c), pcurve('c1', c, rng), pcurve('c2', o), point_at('p0', 'c0', G(c)), point_at('p9', 'c2', G(o)), 'fe f9 i:5 i:%x' % o['n']]
    if N == p: return Block(name, L)
    L += ['fe f8 i:5 i:%x' % p]
    for _ in range(n):
        d = rng.choice([0, 1, N - 1, rng.randrange(N), rng.randrange(N), rng.randrange(N)])
        M = rng.choice([G(c), rand_on(rng, c), rng.choice(torsion(rng, c)), neutral(c)])
        L += ['fe f0 i:%x i:%x' % (d, N), 'mul p1 p0 f0', point_at('p2', rng.choice(['c0', 'c1']), M), 'encrypt e0 p1 p2 f0', 'decrypt p3 e0 ' + rng.choice(['f0', 'i:%x' % d, 'i:%s' % hx(d - N), 'i:%x' % (d + (N << 2000))])]
        r = rng.random()
        L += rng.choice([['part p4 e0 C', 'part p5 e0 D', 'pair e1 p4 p5', 'decrypt p6 e1 f0'], ['repr e1 e0', 'str e0', 'decrypt p6 e1 f0'], ['str e0', 'decrypt p6 e0 f0'], ['part p4 e0 C', 'part p5 e0 D', 'add p5 p5 p2', 'pair e1 p4 p5', 'decrypt p6 e1 f0', 'decrypt p7 e0 f0']])
        if r < .5:
            L += [rng.choice(['encrypt z p1 p9', 'encrypt z p9 p1', 'pair z p1 p9', 'decrypt z e0 f9', 'decrypt z e0 f8', 'decrypt z e0 ' + X(rng), 'decrypt z e0 p0', 'encrypt z p1 ' + X(rng), 'encrypt z %s p1' % X(rng), 'pair z p1 ' + X(rng), 'pair z c0 p1', 'pair z p1', 'encrypt z p1', 'encrypt z',
                              'decrypt z e0', 'decrypt z e0 f0 f0', 'part z e0 X', 'part z p0 C', 'attr e0 p', 'setattr e0 C', 'setattr e0 x', 'bad len e0', 'int e0', 'add z e0 e0', 'eq e0 i:5', 'ne e0 p0', 'lt e0 e0', 'mul z e0 i:2', 'neg z e0', 'pair z p1 p1 p1', 'bad iter e0'])]
    return Block(name, L, weight=len(L) * (6 if p.bit_length() < 300 else 20))

# ---- every operation on every pair of kinds
def matrix_block(rng, c, o, name, ops=None):
    N = c['n']
    L = [pcurve('c0', c), pcurve('c1', o), 'fe f0 i:%x i:%x' % (rng.randrange(N), N), 'fe f1 i:3 i:%x' % c['p'], point_at('p0', 'c0', G(c)), point_at('p1', 'c1', G(o)), 'scheme s0 c0 H:20',
         'import g0 s0 ' + Bt(sigb(N, 1, 2 % N or 1)), 'pair e0 p0 p0']
    kinds = ['f0', 'f1', 'c0', 'p0', 'p1', 's0', 'g0', 'e0', 'i:5', 'i:-3', 'x:float', 'x:str', 'x:none', 'x:list', 'x:tuple', 'x:frac', 'x:obj', 'x:cls', 'x:nt', 'b:0102', 't:6162']
    ours = kinds[:8]
    for a in kinds:
        for b in kinds:
            if not (a in ours or b in ours): continue
            for op in ('add', 'sub', 'mul'): L.append('%s z %s %s' % (op, a, b))
            if not (a == 'f0' or a == 'f1') or b[0] != 'i': L.append('pow z %s %s' % (a, b))
            L += ['eq %s %s' % (a, b), 'ne %s %s' % (a, b), 'lt %s %s' % (a, b), 'ge %s %s' % (a, b)] if not (a == b and a[0] in 'sge') else ['lt %s %s' % (a, b)]
            if a in ours: L += ['verify g0 %s %s' % (a, b), 'sign z s0 %s %s' % (a, b)] if not (a == 'p0' and b[0] in 'bt') and not (a == 'f0' and b[0] in 'bt') and b != 'x:str' else []
            L += ['encrypt z %s %s' % (a, b), 'pair z %s %s' % (a, b), 'check c0 %s %s' % (a, b), 'affpt z c0 %s %s' % (a, b)]
            if b != 'x:str': L += ['import z %s %s' % (a, b)]
            if b not in ('x:str', 'x:tuple'): L.append('point z %s %s' % (a, b))
            L += ['scheme z %s %s' % (a, b), 'fe z %s %s' % (a, b)]
        if a in ours: L += ['%s %s' % (q, a) for q in ('int', 'str', 'compressed', 'uncompressed', 'asbytes', 'affine', 'attr', 'bad len', 'bad iter', 'bad item', 'bad call', 'bad float', 'bad index')if q != 'attr']
        L += ['%s z %s' % (q, a) for q in ('neg', 'inv', 'sqrt', 'repr') if a in ours and not (q == 'neg' and a[0] == 'i')] + ['frand z ' + a, 'named z ' + a, 'prand z ' + a, 'decrypt z e0 ' + a, 'decrypt z %s f0' % a if a in ours else 'gc']
        L += ['curve z form:%s %s' % (c['t'], ' '.join(a if i == k else 'i:%x' % v for i, v in enumerate([c[q] for q in ('p', 'a', 'b', 'n', 'h', 'gx', 'gy')] + [c['bits']]))) for k in range(8) if a not in ('i:5', 'i:-3')]
    if ops: rng.shuffle(L[9:])
    return Block(name, L, weight=len(L) * 2)

def with_z(b):
    return Block(b.name, b.lines, b.weight)

def wrap(bl):
    """blocks share one interpreter: names are forgotten at the end of each"""
    for b in bl:
        if b.lines[-1] != 'reset': b.lines = [l for l in b.lines if not l.startswith('del ')] + ['reset']
    return bl

def curves(rng, nm, k):
    """curves to exercise: small ones of every form and named ones, each with another one"""
    small = [x for x, _ in small_curves(rng, [61, 127, 251]) if x['n'] >= 13]
    big = rng.sample(list(nm.values()), k)
    for c in small: yield c, rng.choice(small + big) 
    for c in big: yield c, rng.choice([x for x in small + big if x['p'] != c['p'] or x['n'] != c['n']])

def pairs(rng, nm, k):
    for c, o in curves(rng, nm, k):
        if o['n'] == c['n']: o = next(x for x in nm.values() if x['n'] != c['n'])
        yield c, o

def blocks16(c):
    rng, nm = c.rng, named()
    mods = [2, 3, 5, 7, 13, 251, 257, 65537, (1 << 31) - 1, prevprime(1 << 32), nextprime(1 << 32), (1 << 61) - 1, prevprime(1 << 64), nextprime(1 << 64), (1 << 127) - 1, prevprime(1 << 128), prevprime(1 << 256), nextprime(1 << 256), (1 << 521) - 1, prevprime(1 << 1024), nextprime(1 << 1000)]
    mods += [nm[k][x] for k in rng.sample(list(nm), 8) for x in 'pn']
    t = c.thorough
    bl = []
    for m in mods:
        for _ in range(6 if t else 2):
            o = rng.choice([q for q in mods if q != m])
            bl.append(fe_block(rng, (m, o), 150 if t else 80, 'elements mod %x' % m))
    for a, o in pairs(rng, nm, 46 if t else 16): bl.append(cv_block(rng, a, 120 if t else 60, 'curve ' + a.get('name', a['t'])))
    for a, o in pairs(rng, nm, 46 if t else 24): bl.append(pt_block(rng, a, o, 120 if t else 60, 'points ' + a.get('name', a['t'])))
    for a, o in pairs(rng, nm, 46 if t else 16): bl.append(scheme_block(rng, a, o, 40 if t else 14, 'ecdsa ' + a.get('name', a['t'])))
    for a, o in pairs(rng, nm, 46 if t else 14): bl.append(elgamal_block(rng, a, o, 20 if t else 6, 'elgamal ' + a.get('name', a['t'])))
    ps = list(pairs(rng, nm, 4))
    for a, o in (ps if t else rng.sample(ps, 2)): bl.append(matrix_block(rng, a, o, 'all pairs of types ' + a.get('name', a['t'])))
    return wrap(bl)

def c16(c):
    exe = build_ext(c, 'py', env=DEBUG)
    bl = blocks16(c)
    c.run_blocks(exe, bl, module='Binding', packs=32 if c.thorough else 8)
    c.extra['blocks'] = len(bl)

# ---------------------------------------------------------------------------- C17
import json
def histories17(c, num, length, seed):
    r = c.tlc('Ownership', 'Ownership', workers=1, timeout=600, overrides=False,
              args=['-simulate', 'num=%d' % num, '-depth', str(length + 5), '-seed', str(seed)], env=dict(HISTLEN=str(length)))
    out, seen = [], set()
    for l in r['out'].splitlines():        # (TLC prints every successor of the last state but one)
        if l.startswith('"[[') and l.endswith(']]"'):
            h = json.loads(json.loads(l))
            k = json.dumps(h[:-1])
            if k not in seen: seen.add(k); out.append(h)
    if len(out) < num // 2 or 'is violated' in r['out'] or 'Error' in r['out']:
        raise MachineryError('history generation failed:\n' + r['out'][-3000:])
    return out

def concrete17(rng, hist, cs):
    hs = rng.choice([20, 32, 1])
    K = lambda t: cs[int(t[1:]) - 1]
    msg = lambda ns: next(m for m in [rng.randbytes(rng.randrange(1, 30)) for _ in range(50)] if not (m[:1] == b'\xee') and all(dint(n, dig(m, hs)) % n for n in ns))
    ns = [k['n'] for k in cs]
    L = []
    for h in hist:
        op, a = h[0], h[1:]
        x = a[0] if a else ''
        if op == 'fe': L.append('fe %s i:%x i:%x' % (x, rng.randrange(1, K(a[1])['n']), K(a[1])['n']))
        elif op in ('neg', 'inv', 'repr'): L.append('%s %s %s' % (op, x, a[1]))
        elif op == 'named': L.append(pcurve(x, K(a[1])))
        elif op == 'curve': L.append(pcurve(x, {k: v for k, v in K(a[1]).items() if k != 'name'}))
        elif op in ('point', 'affpt', 'decode', 'text', 'gen', 'prand'):
            k = K(a[2]); P = rand_on(rng, k)
            e = enc_bytes(k, P, rng.random() < .5)
            L.append({'point': 'point %s %s', 'gen': 'gen %s %s', 'prand': 'prand %s %s', 'affpt': 'affpt %%s %%s i:%x i:%x' % P, 'decode': 'point %s %s ' + Bt(e), 'text': 'point %s %s ' + T(e.hex())}[op] % (x, a[1]))
        elif op == 'mulz': L.append('mul %s %s i:%s' % (x, a[1], hx(rng.choice([0, 1, 2, -1, rng.getrandbits(70), -rng.getrandbits(20)]))))
        elif op == 'mulr': L.append('mul %s %s %s' % (x, a[2], a[1]))
        elif op == 'scheme': L.append('scheme %s %s H:%d' % (x, a[1], hs))
        elif op == 'sign': L.append('sign %s %s %s %s' % (x, a[1], a[2], Bt(msg(ns))))
        elif op == 'signi': L.append('sign %s %s i:%x %s' % (x, a[1], rng.randrange(1, min(ns)), Bt(msg(ns))))
        elif op in ('import', 'importt'):
            n = K(a[2])['n']; b = sigb(n, rng.randrange(1, n), rng.randrange(1, n))
            L.append('import %s %s %s' % (x, a[1], Bt(b) if op == 'import' else T(b.hex())))
        elif op == 'decrypti': L.append('decrypt %s %s i:%x' % (x, a[1], rng.getrandbits(64)))
        elif op == 'verify': L.append('verify %s %s %s' % (x, a[1], Bt(msg(ns))))
        elif op == 'badpoint': L.append('point z %s %s' % (a[1], rng.choice(['b:00ff', 'b:-', 'b:0203', 'x:list', 'x:none'])))
        elif op == 'badtext': L.append('point z %s %s' % (a[1], rng.choice(['t:30', 't:-', 't:7a7a', 'x:badtext', 't:c3a9', 't:3000'])))
        elif op == 'badpair': L.append('affpt z %s %s' % (a[1], rng.choice(['i:0 i:3', 'i:1 x:float', 'x:none i:1', 'i:1', 'i:1 i:2 i:3'])))
        elif op == 'badscheme': L.append('scheme z %s HB:%s' % (a[1], rng.choice(BADH)))
        elif op == 'badsig': L.append('import z %s %s' % (a[1], rng.choice(['b:00', 'b:-', 't:30', 't:7a7a', 'x:list', 'i:5', 'x:badtext'])))
        elif op == 'badmsg': L.append('sign z %s i:5 %s' % (a[1], rng.choice(['b:eeee01', 'b:eeeb01', 'b:eeec01', 'b:eeed01', 'b:-', 'x:none', 'x:badtext', 'i:5'])))
        else: L.append(' '.join([op] + a))
    return L

NOREP = {'del', 'gc', 'reset', 'rep', 'prand', 'setup'}
SLOW = {'sign', 'encrypt', 'prand', 'scheme'}
def repeated(rng, b, share, k=3):
    """a call is first repeated with its results dropped"""
    L = []
    for l in b.lines:
        op = l.split()[0]
        if op not in ('del', 'gc', 'reset', 'rep') and rng.random() < share * (.3 if op in SLOW else 1): L.append('rep %d %s' % (k, l))
        L.append(l)
    return Block(b.name, L, b.weight)
def rep_matrix(rng, c, o, name, share):
    b = matrix_block(rng, c, o, name)
    n = next(i for i, l in enumerate(b.lines) if l.startswith('pair e0')) + 1
    return Block(name, b.lines[:n] + ['rep 3 ' + l for l in b.lines[n:] if not l.startswith('gc') and rng.random() < share], b.weight)

def count_so(c):
    so = c.out + '/drvcount.so'
    c.must(['gcc', '-O1', '-shared', '-fPIC', V + '/driver/count.c', '-o', so])
    return so
def libasan(c): return c.must(['gcc', '-print-file-name=libasan.so']).stdout.strip()

def c17(c):
    rng, nm, t = c.rng, named(), c.thorough
    from gen_mem import ASANF, ASANENV
    c.model('Ownership', 'OwnershipMC', overrides=False, minstates=1000)
    r = c.tlc('Ownership', 'OwnershipBorrow', overrides=False, workers=2)
    if 'NoDangling is violated' not in r['out']: raise MachineryError('the borrowing design should dangle:\n' + r['out'][-2000:])
    small = [x for x, _ in small_curves(rng, [61, 127, 251]) if x['n'] >= 13 and x['n'] != x['p']]
    big = [x for x in nm.values() if x['p'].bit_length() <= 260]
    def pair():
        a = rng.choice(small + big); b = rng.choice([x for x in small + big if x['n'] != a['n'] and x['n'] != a['p']])
        return [a, b]
    num, ln = (400, 120) if t else (60, 90)
    hs = histories17(c, num, ln, c.seed * 100 + 17)
    bl = [Block('history %d' % i, concrete17(rng, h, pair()), weight=len(h)) for i, h in enumerate(hs)]
    bl = wrap17(bl)
    c.stats['ops_histories'] = len(bl)
    packs = 32 if t else 8
    dbg = build_ext(c, 'pyd', env=DEBUG)
    c.run_blocks(dbg, bl, module='Binding', label='debug', packs=packs)
    asan = build_ext(c, 'pya', cflags=ASANF, env=dict(PYTHONMALLOC='malloc', **ASANENV), preload=libasan(c))
    mats = [(a, o) for a, o in pairs(rng, nm, 2) if a['p'].bit_length() < 260]
    pool = wrap([fe_block(rng, (97, 101), 60, 'elements')] + [cv_block(rng, *rng.sample(small, 1), 30, 'curve')] + [pt_block(rng, a, o, 40, 'points') for a, o in mats] + [scheme_block(rng, a, o, 8, 'ecdsa') for a, o in mats] + [elgamal_block(rng, a, o, 4, 'elgamal') for a, o in mats])
    c.run_blocks(asan, bl[:len(bl) if t else 24] + pool + wrap([matrix_block(rng, *mats[0], 'all pairs of types')]), module='Binding', label='asan', packs=packs, alarm=120)
    cnt = build_ext(c, 'pyc', env=dict(PYTHONMALLOC='malloc'), preload=count_so(c))
    reps = [repeated(rng, b, .5 if t else .4) for b in bl[:150 if t else 24]] + [repeated(rng, b, .7) for b in pool]
    reps += wrap([rep_matrix(rng, a, o, 'repeated, all pairs of types', 1 if t else .5) for a, o in (mats if t else mats[:2])])
    c.run_blocks(cnt, reps, module='Binding', label='count', packs=packs, alarm=120)
    c.extra['histories'] = len(hs)
def wrap17(bl):
    for b in bl:
        if b.lines[-1] != 'reset': b.lines = b.lines + ['reset']
    return bl
