"""C18: the Go package."""
import os, glob, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import Block, V, REPO, NPROC, MachineryError
from nums import *
from gen_point import G, rand_on, enc_bytes, mutations, torsion, small_curves, big_curve, FORMS
from gen_scheme import sigb, HSZ, dig, dint, can_sign
from gen_py import bigints, T, Bt, histories17, pairs, count_so, wrap17

def build_go(c, name, cflags=(), env=None, preload=None, goargs=()):
    """the package's sources with our main program; returns the program to run"""
    d = '%s/drv%s' % (c.out, name)
    os.makedirs(d + '/lib'); os.makedirs(d + '/src/ecgo'); os.makedirs(d + '/src/godrv')
    for f in glob.glob(REPO + '/ecgo/*.go'):
        if not f.endswith('_test.go'): shutil.copy(f, d + '/src/ecgo/')
    for f in glob.glob(V + '/driver/godrv/*'): shutil.copy(f, d + '/src/godrv/')
    flags = ['gcc', '-g', '-O1', '-fPIC', '-w', '-DSAFE_CLEAN', '-I' + REPO + '/include'] + list(cflags)
    srcs = c.lib_sources()
    objs = ['%s/lib/%s.o' % (d, os.path.basename(s)) for s in srcs]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda so: c.must(flags + ['-c', so[0], '-o', so[1]]), zip(srcs, objs)))
    c.must(['gcc', '-g', '-O1', '-fPIC', '-c', V + '/driver/gohook.c', '-o', d + '/lib/gohook.o'])
    c.must(['gcc', '-shared'] + [f for f in cflags if f.startswith('-fsan')] + objs + [d + '/lib/gohook.o', '-o', d + '/lib/libecc.so', '-lgmp'])
    for o in objs: os.remove(o)
    cache = c.out + '/drvgocache'
    if not os.path.isdir(cache):
        if os.path.isdir('/opt/vp/cache/go'): shutil.copytree('/opt/vp/cache/go', cache)
        else: os.makedirs(cache)
    e = dict(os.environ, GOPATH=d, GO111MODULE='off', GOFLAGS='', GOPROXY='off', GOTOOLCHAIN='local', GOCACHE=cache, CGO_ENABLED='1', CC='gcc',
             CGO_CFLAGS='-g -O1 -w -I%s/include -DECC_LIB_%s' % (REPO, name), CGO_LDFLAGS='-L%s/lib -Wl,-rpath,%s/lib' % (d, d), TMPDIR=d)
    c.must(['go', 'build', '-o', d + '/godrv'] + list(goargs) + ['godrv'], env=e, cwd=d + '/src/godrv')
    sh = '%s/drv%s.sh' % (c.out, name)
    e = dict(env or {})
    if preload: e['LD_PRELOAD'] = preload
    open(sh, 'w').write('#!/bin/sh\nexec env %s %s/godrv "$@"\n' % (' '.join("%s='%s'" % kv for kv in e.items()), d))
    os.chmod(sh, 0o755)
    return sh

def I(v): return 'i:' + hx(v)
def U(rng): return 'u:%x' % rng.choice([0, 1, 2, 3, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, 1 << 32, rng.getrandbits(64), rng.getrandbits(20)])
def gcurve(h, c, rng=None):
    if 'name' in c and (rng is None or rng.random() < .6): return 'named %s %s' % (h, T(c['name']))
    return 'curve %s w:%s %s' % (h, c['t'], ' '.join(I(c[k]) for k in ('p', 'a', 'b', 'n', 'h', 'gx', 'gy', 'bits')))
def point_at(h, ch, P): return 'point %s %s' % (h, ch) if P is None else 'affpt %s %s i:%x i:%x' % (h, ch, P[0], P[1])
def last(rng, l): return 'last ' + l if rng.random() < .5 else l
COEF = ['ws_a', 'ws_b', 'ed_c', 'ed_d', 'mo_B', 'mo_A', 'te_a', 'te_d']
ATTR = ['p', 'n', 'h', 'gx', 'gy', 'bits'] + COEF

def fe_block(rng, m, o, n, name):
    L = ['fe f%d %s i:%x' % (i, I(bigints(rng, m)), m) for i in range(5)] + ['fe f%d %s i:%x' % (i, I(bigints(rng, o)), o) for i in (7, 8)]
    mine, other = ['f%d' % i for i in range(5)], ['f7', 'f8']
    for _ in range(n):
        r = rng.random()
        a, b = rng.choice(mine), rng.choice(mine)
        d = rng.choice(mine + ['f5', 'f6'])
        op = rng.choice(['add', 'sub', 'mul'] * 3 + ['neg', 'inv', 'sqrt', 'pow', 'cmp', 'int', 'order', 'bit', 'fe', 'move', 'mixed', 'bad'])
        if op in ('add', 'sub', 'mul'): L.append('%s %s %s %s' % (op, d, a, b))
        elif op == 'neg': L.append('neg %s %s' % (d, a))
        elif op in ('inv', 'sqrt'): L.append('%s %s %s' % (op, rng.choice([a, b, 'f6', 'f9']), a))
        elif op == 'pow': L.append('pow %s %s %s' % (d, a, U(rng)))
        elif op == 'cmp': L.append('cmp %s %s' % (a, b))
        elif op in ('int', 'order'): L.append('%s %s' % (op, a))
        elif op == 'bit': L.append('bit %s %s' % (a, I(rng.choice([0, 1, -1, m.bit_length() - 1, m.bit_length(), rng.randrange(m.bit_length() + 70), 1023, 1024, 2047, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + rng.randrange(m.bit_length()), -(1 << 32), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, -rng.getrandbits(40)]))))
        elif op == 'fe': L.append('fe %s %s i:%x' % (d, U(rng) if r < .3 else I(bigints(rng, m)), m))
        elif op == 'move':      # the receiver held an element of another field
            L += ['fe g0 i:%x i:%x' % (rng.randrange(o), o), rng.choice(['%s g0 %s %s' % (rng.choice(['add', 'sub', 'mul']), a, b), 'neg g0 ' + a, 'pow g0 %s u:%x' % (a, rng.randrange(9)), 'inv g0 ' + a, 'sqrt g0 ' + a])]
            if r < .5: L += ['int g0', 'order g0']
            if r < .2: L += ['fe g1 i:0 i:%x' % m, 'fe g2 i:%x i:%x' % (1 % o, o), 'inv g2 g1', 'int g2', 'order g2']
        elif op == 'mixed': L.append('%s %s %s' % (rng.choice(['add f6', 'sub f6', 'mul f6', 'cmp']), *rng.sample([a, rng.choice(other)], 2)))
        else: L.append(rng.choice(['fe z i:5 i:0', 'fe z u:5 i:0', 'frand z i:0', 'fe z i:-5 i:1', 'fe z u:5 i:1', 'frand z i:1', 'fe z i:5 i:-%x' % m, 'fe z u:5 i:-%x' % m, 'frand z i:-%x' % m, 'fe z i:5 i:%x' % (1 << 1024), 'fe z u:5 i:%x' % ((1 << 1024) + 1), 'frand z i:%x' % (1 << 2000),
                                   'frand f6 i:%x' % m, 'fe f6 i:5 i:%x' % m]))
        if rng.random() < .08: L.append('gc')
        if rng.random() < .1: L += ['fe t0 %s i:%x' % (I(bigints(rng, m)), m), 'fe t1 %s i:%x' % (I(bigints(rng, m)), m), 'last ' + rng.choice(['add f6 t0 t1', 'sub f6 t0 t1', 'mul f6 t0 t1', 'neg f6 t0', 'inv f6 t0', 'sqrt f6 t0', 'pow f6 t0 u:1234567', 'int t0', 'order t0', 'bit t0 i:1', 'cmp t0 t1', 'add f6 t0 t0', 'mul t0 t1 t1'])]
    return Block(name, L + ['reset'])

def cv_block(rng, c, o, n, name):
    p = c['p']
    L = [gcurve('c0', c), gcurve('c1', c, rng), gcurve('c2', o)]
    L += ['attr c0 ' + a for a in ATTR] + ['type c0', 'cmp c0 c1', 'cmp c0 c2', 'cmp c2 c1']
    for _ in range(n):
        r = rng.random()
        if r < .15: L.append('attr c%d %s' % (rng.randrange(3), rng.choice(ATTR + ['P', 'a', 'bit', 'G'])))
        elif r < .35:
            x, y = rng.choice([rand_on(rng, c), G(c), (rng.randrange(p), rng.randrange(p))])
            L.append('check c0 %s %s' % (I(x + rng.choice([0, 0, 0, p, -p, p << 900])), I(y + rng.choice([0, 0, 0, p, -p, p << 99]))))
        elif r < .4: L.append(rng.choice(['cmp c0 c1', 'cmp c1 c2', 'names', 'type c1', 'type c2']))
        elif r < .5:
            nm = rng.choice(['', 'secp256k1 ', 'SECP256K1', 'secp256', 'secp256k1\0', 'Ed25519\0x', 'a' * 5000, c.get('name', 'x')[:-1], 'Ed25519\u00e9'])
            L.append('named z ' + T(nm))
        elif r < .6:
            L += [gcurve('t0', c, rng), gcurve('t1', rng.choice([c, o]), rng), 'last ' + rng.choice(['attr t0 ' + rng.choice(ATTR), 'type t0', 'cmp t0 t1', 'check t0 %s %s' % (I(G(c)[0]), I(G(c)[1])), 'gen p0 t0', 'prand p0 t0', 'point p0 t0', 'affpt p0 t0 i:%x i:%x' % G(c), 'scheme s0 t0 H:20', 'point p0 t0 ' + Bt(enc_bytes(c, G(c), True)), 'point p0 t0 ' + T(enc_bytes(c, G(c), False).hex())]), 'gc']
        else:
            a = [c[k] for k in ('p', 'a', 'b', 'n', 'h', 'gx', 'gy', 'bits')]
            q = rng.random()
            if q < .25: a[rng.choice([1, 2])] += p * rng.choice([1, 2, 1 << 70])
            elif q < .45: a[rng.choice([5, 6])] = rng.choice([0, 1, rng.randrange(p), rng.randrange(p)])
            elif q < .55: a[3] = rng.choice([0, 1, 2, 3, -5, 1 << 1024, (1 << 1024) - 1, nextprime(1 << 100)])
            elif q < .65: a[7] = rng.choice([0, 1, p.bit_length() - 1, 1025, 1 << 31, (1 << 32) + p.bit_length(), p.bit_length() + 1, 1024])
            elif q < .72: a[0] = rng.choice([0, 1, 2, -p, 1 << 1024, p << 1030])
            elif q < .78: a[4] = rng.choice([0, 1, 5, 1 << 80, (1 << 3000) + 1])
            elif q < .9: a[rng.randrange(1, 7)] *= -1
            if a[0] > 1 and c['t'] == 'mo' and a[1] % a[0] == 0: continue
            if a[0] == 2 or a[0] != p and a[0] > 2 and a[0].bit_length() <= 1024: continue
            if a[0] == p and not complete(dict(t=c['t'], p=p, a=a[1], b=a[2])): continue
            L.append('curve c4 w:%s %s' % (c['t'], ' '.join(map(I, a))))
            L += ['attr c4 ' + rng.choice(ATTR), 'gen p1 c4', 'cmp c4 c0']
    return Block(name, L + ['reset'])

def LASTP(k): return ['add q5 q2 q3', 'sub q5 q2 q3', 'add q5 q3 q2', 'sub q5 q3 q2', 'mul q5 q2 ' + I(k), 'neg q5 q2', 'set q5 q2', 'cmp q2 q3', 'affine q2', 'str q2', 'strfull q2', 'compressed q2', 'uncompressed q2', 'isneutral q2', 'setup q2', 'encrypt e5 q2 q3', 'pair e5 q2 q3', 'pair e5 q3 q2', 'encrypt e5 q3 q2', 'add q2 q3 q3', 'add q3 q2 q2', 'sub q3 q3 q2', 'set q2 q3']
def last_block(rng, c, name):
    """every operation once with operands nothing else refers to"""
    L = []
    for l in LASTP(rng.randrange(2, c['n'])):
        L += [gcurve('t0', c, rng), gcurve('t1', c, rng), point_at('q2', 't0', rand_on(rng, c)), point_at('q3', 't1', rand_on(rng, c)), 'del t0', 'del t1', 'last ' + l, 'gc']
    return Block(name, L + ['reset'], weight=len(L) * (4 if c['p'].bit_length() < 300 else 14))
def pt_block(rng, c, o, n, name):
    p, N = c['p'], c['n']
    L = [gcurve('c0', c), gcurve('c1', c, rng), gcurve('c2', o), point_at('p0', 'c0', G(c)), point_at('p1', 'c1', rand_on(rng, c)), point_at('p2', 'c0', rng.choice(torsion(rng, c))), 'point p3 c1', point_at('p8', 'c2', rand_on(rng, o))]
    live = ['p0', 'p1', 'p2', 'p3']
    for _ in range(n):
        d, a, b = rng.choice(live + ['p4', 'p5', 'p6']), rng.choice(live), rng.choice(live)
        r = rng.random()
        k = rng.choice([0, 1, -1, 2, 3, N - 1, N, N + 1, -N, p, rng.randrange(N), -rng.randrange(N), rng.getrandbits(16), bigints(rng, N), rng.getrandbits(N.bit_length() + 70)])
        op = rng.choice(['add', 'sub', 'add', 'sub', 'mul', 'mul', 'mul', 'neg', 'set', 'cmp', 'str', 'affine', 'setup', 'affpt', 'point', 'point', 'isneutral', 'move', 'last', 'mixed', 'ends'])
        if op in ('add', 'sub'): L.append('%s %s %s %s' % (op, d, a, b))
        elif op == 'mul': L.append('mul %s %s %s' % (d, a, I(k)))
        elif op in ('neg', 'set'): L.append('%s %s %s' % (op, d, a))
        elif op == 'cmp': L.append('cmp %s %s' % (a, rng.choice([b, b, 'p8'])))
        elif op == 'str': L.append('%s %s' % (rng.choice(['str', 'strfull', 'compressed', 'uncompressed']), a))
        elif op in ('affine', 'isneutral'): L.append('%s %s' % (op, a))
        elif op == 'setup': L.append('setup ' + a)
        elif op == 'affpt':
            x, y = rng.choice([G(c), rand_on(rng, c), rand_on(rng, c), (rng.randrange(p), rng.randrange(p)), (0, 0), (0, 1), rand_on(rng, o)])
            if r < .3: x += rng.choice([p, -p, p << 70]); y -= rng.choice([0, p, 2 * p])
            L.append('affpt %s %s %s %s' % (d, rng.choice(['c0', 'c1']), I(x), I(y)))
        elif op == 'point':
            P = rng.choice([None] * (neutral(c) is None) + [G(c), rand_on(rng, c)])
            enc = enc_bytes(c, P, rng.random() < .5)
            q = rng.random()
            if q < .35: L.append('point %s c0 %s' % (d, Bt(enc) if rng.random() < .5 else T(enc.hex().upper() if rng.random() < .5 else enc.hex())))
            elif q < .6: L.append('point z c0 ' + Bt(rng.choice(mutations(rng, c, rand_on(rng, c)) + [b''])))
            else:
                s = enc.hex(); j = rng.randrange(len(s))
                L.append('point z c0 ' + T(rng.choice([s[:-1], s + '0', s + '00', ' ' + s, s + ' ', '0x' + s, s[:j] + 'g' + s[j + 1:], s[:j] + '\0' + s[j + 1:], s + '\0', s + '\0' + s, '', '-' + s[1:], s[:j] + '\u00e9' + s[j + 1:], 'zz', '0', s[:j] + ' ' + s[j + 1:]])))
        elif op == 'move':      # the receiver was on another curve, with or without tables
            L += [point_at('q0', 'c2', rand_on(rng, o))] + ['setup q0'] * (r < .5) + [rng.choice(['add q0 %s %s' % (a, b), 'sub q0 %s %s' % (a, b), 'mul q0 %s %s' % (a, I(k)), 'neg q0 ' + a, 'set q0 ' + a]), 'compressed q0', 'add q1 q0 ' + a]
        elif op == 'last':
            L += [gcurve('t0', c, rng), gcurve('t1', c, rng), point_at('q2', 't0', rand_on(rng, c)), point_at('q3', 't1', rng.choice([rand_on(rng, c), neutral(c)])), 'last gen q4 t0', 'del t1', 'gc']
            L += ['setup q2'] * (r < .3) + ['last ' + rng.choice(LASTP(k))]
            L += ['gc'] + ['affine q5', 'mul q6 q5 ' + I(k), 'compressed q5', 'add q7 q5 q5'][:rng.randrange(5)]
        elif op == 'mixed': L.append('%s %s %s' % (rng.choice(['add p6', 'sub p6', 'cmp', 'encrypt z', 'pair z']), *rng.sample([a, 'p8'], 2)))
        else: L += ['gen p5 c1', 'prand p6 c0', 'gc', 'add p5 p5 p6', 'sub p6 p6 p0']
        if rng.random() < .1: L.append('gc')
    return Block(name, L + ['reset'], weight=len(L) * (4 if p.bit_length() < 300 else 14))

def scheme_block(rng, c, o, n, name):
    N = c['n']
    ws = (N.bit_length() + 7) // 8
    hs = rng.choice([h for h in HSZ if h])
    L = [gcurve('c0', c), gcurve('c1', c, rng), gcurve('c2', o), point_at('p0', 'c0', G(c)), point_at('p8', 'c2', rand_on(rng, o)), 'scheme s0 c0 H:%d' % hs, 'scheme s1 c1 H:%d' % rng.choice(HSZ[2:])]
    for _ in range(n):
        r = rng.random()
        m = rng.choice([b'', b'', bytes(rng.randrange(1, 40)), rng.randbytes(rng.randrange(1, 90)), rng.randbytes(3), rng.randbytes(1)])
        d = rng.choice([1, 2, N - 1, rng.randrange(1, N), rng.randrange(1, N), -1, -rng.randrange(1, N), N + 1, (N << 1500) + rng.randrange(1, N), -(N << 40) - 1])
        if d % N == 0: continue
        if r < .7:
            L += ['mul p1 p0 ' + I(d), last(rng, 'sign g0 s0 %s %s' % (I(d), Bt(m))) if r < .05 else 'sign g0 s0 %s %s' % (I(d), Bt(m))]
            if L[-1].startswith('last'): L += ['verify g0 p1 ' + Bt(m), 'gc', 'asbytes g0', gcurve('t0', c), 'last scheme s0 t0 H:%d' % hs]; continue
            L += ['verify g0 p1 ' + Bt(m), 'verify g0 %s %s' % (rng.choice(['p0', 'p8', 'p1']), Bt(m + b'\0' if rng.random() < .5 else m[:-1])), 'asbytes g0']
            if r < .2: L += ['scheme s2 c0 H:%d' % hs, 'sign g2 s2 %s %s' % (I(d), Bt(m)), 'del s2', 'gc', 'verify g2 p1 ' + Bt(m), 'set p2 p1', rng.choice(['last asbytes g2', 'last verify g2 p2 ' + Bt(m)])]
        else:
            rr, s = rng.choice([(1, 1), (N - 1, N - 1), (rng.randrange(1, N), rng.randrange(1, N)), (0, 1), (1, 0), (N, 1), (1, N), (256 ** ws - 1, 5)])
            b = sigb(N, rr, s)
            L.append('import g1 s0 ' + Bt(rng.choice([b, b, b, b[:-1], b + b'\0', b'\0' + b, b'', b[:ws], b * 2])))
            L += ['scheme s2 c1 H:%d' % hs, 'last import g2 s2 ' + Bt(sigb(N, rng.randrange(1, N), rng.randrange(1, N))), 'gc', 'verify g2 p0 ' + Bt(m), 'verify g2 p0 b:-']
    return Block(name, L + ['reset'], weight=len(L) * (6 if c['p'].bit_length() < 300 else 20))

def elgamal_block(rng, c, o, n, name):
    N = c['n']
    L = [gcurve('c0', c), gcurve('c1', c, rng), gcurve('c2', o), point_at('p0', 'c0', G(c)), point_at('p9', 'c2', G(o))]
    if N == c['p']: return Block(name, L + ['reset'])
    for _ in range(n):
        d = rng.choice([0, 1, N - 1, rng.randrange(N), rng.randrange(N), -rng.randrange(N), -1, (N << 1200) + 5])
        M = rng.choice([G(c), rand_on(rng, c), rng.choice(torsion(rng, c)), neutral(c)])
        L += [gcurve('t1', c, rng), 'mul p1 p0 ' + I(d), point_at('p2', rng.choice(['c0', 'c1', 't1']), M), 'encrypt e0 p1 p2 i:%x' % (d % N), 'del t1', 'gc', 'decrypt p3 e0 ' + I(d)]
        L += rng.choice([['part p4 e0 C', 'part p5 e0 D', 'pair e1 p4 p5', 'del p4', 'del p5', 'gc', 'decrypt p6 e1 ' + I(d)], ['last decrypt p6 e0 ' + I(d), 'gc', 'add p6 p6 p0'], ['last part p6 e0 ' + rng.choice('CD'), 'gc', 'compressed p6', 'add p7 p6 p2', 'add p7 p2 p6'],
                         ['part p4 e0 C', 'part p5 e0 D', 'add p5 p5 p2', 'pair e1 p4 p5', 'decrypt p6 e1 ' + I(d), 'part p6 e1 D', 'decrypt p7 e0 ' + I(d)], ['set p7 p1', 'last encrypt e2 p7 p2', 'part p6 e2 D', 'decrypt p6 e2 ' + I(d)]])
        if rng.random() < .4: L.append(rng.choice(['encrypt z p1 p9', 'encrypt z p9 p1', 'pair z p1 p9', 'pair z p9 p2']))
    return Block(name, L + ['reset'], weight=len(L) * (6 if c['p'].bit_length() < 300 else 20))

def concrete18(rng, hist, cs):
    """a history of Ownership.tla in terms of the Go package"""
    hs = rng.choice([20, 32, 1])
    K = lambda t: cs[int(t[1:]) - 1]
    L, cur = [], {}        # name -> index of its curve
    B = lambda: Bt(rng.randbytes(rng.randrange(0, 30)))
    for h in hist:
        op, a = h[0], h[1:]
        x = a[0] if a else ''
        n0 = len(L)
        if op == 'fe': L.append('fe %s i:%x i:%x' % (x, rng.randrange(1, K(a[1])['n']), K(a[1])['n'])); cur[x] = a[1]
        elif op in ('neg', 'inv'): L.append('%s %s %s' % (op, x, a[1]))
        elif op == 'named': L.append(gcurve(x, K(a[1]))); cur[x] = a[1]
        elif op == 'curve': L.append(gcurve(x, {k: v for k, v in K(a[1]).items() if k != 'name'})); cur[x] = a[1]
        elif op in ('point', 'affpt', 'decode', 'text', 'gen', 'prand'):
            k = K(a[2]); P = rand_on(rng, k)
            e = enc_bytes(k, P, rng.random() < .5)
            L.append({'point': 'point %s %s', 'gen': 'gen %s %s', 'prand': 'prand %s %s', 'affpt': 'affpt %%s %%s i:%x i:%x' % P, 'decode': 'point %s %s ' + Bt(e), 'text': 'point %s %s ' + T(e.hex())}[op] % (x, a[1])); cur[x] = a[2]
        elif op == 'mulz' or op in ('mul', 'mulr') and a[1][0] == 'p': L.append('mul %s %s i:%s' % (x, a[1], hx(rng.choice([0, 1, 2, -1, rng.getrandbits(70), -rng.getrandbits(20)]))))
        elif op in ('add', 'sub', 'mul'):
            if a[1][0] == a[2][0]: L.append('%s %s %s %s' % (op, x, a[1], a[2]))
        elif op == 'scheme': L.append('scheme %s %s H:%d' % (x, a[1], hs)); cur[x] = cur.get(a[1], 'K1')
        elif op in ('sign', 'signi'): L.append('sign %s %s i:%s %s' % (x, a[1], hx(rng.randrange(1, min(k['n'] for k in cs)) * rng.choice([1, -1])), B()))
        elif op in ('import', 'importt'):
            n = K(a[2])['n']; L.append('import %s %s %s' % (x, a[1], Bt(sigb(n, rng.randrange(1, n), rng.randrange(1, n)))))
        elif op in ('decrypti', 'decrypt'): L.append('decrypt %s %s i:%s' % (x, a[1], hx(rng.getrandbits(64) * rng.choice([1, -1]))))
        elif op == 'verify': L.append('verify %s %s %s' % (x, a[1], B()))
        elif op == 'badpoint': L.append('point z %s %s' % (a[1], rng.choice(['b:00ff', 'b:-', 'b:0203'])))
        elif op == 'badtext': L.append('point z %s %s' % (a[1], rng.choice(['t:30', 't:-', 't:7a7a', 't:c3a9', 't:3000'])))
        elif op == 'badpair': L.append('affpt z %s i:0 i:3' % a[1])
        elif op == 'badsig': L.append('import z %s %s' % (a[1], rng.choice(['b:00', 'b:-'])))
        elif op in ('affine', 'compressed', 'uncompressed', 'str', 'asbytes', 'setup') and x[0] in 'pg': 
            if not (op == 'str' and x[0] == 'g'): L.append('%s %s' % (op, x))
        elif op in ('eq', 'ne'): L.append('cmp %s %s' % (a[0], a[1]))
        elif op == 'attr': L.append('attr %s %s' % (x, rng.choice(ATTR)))
        elif op in ('encrypt', 'pair', 'part', 'del', 'gc'): L.append(' '.join([op] + a))
        elif op == 'repr' and x[0] == 'p': L.append('set %s %s' % (x, a[1]))
    return L

NOREP = {'del', 'gc', 'reset', 'rep', 'setup', 'names', 'last'}
SLOW = {'sign', 'encrypt', 'prand', 'scheme'}
def repeated(rng, b, share, k=3):
    L = []
    for l in b.lines:
        op = l.split()[0]
        if op not in NOREP and rng.random() < share * (.3 if op in SLOW else 1): L.append('rep %d %s' % (k, l))
        if op == 'names': L.append('rep 3 names')
        L.append(l)
    return Block(b.name, L, b.weight)

def blocks18(c):
    rng, nm, t = c.rng, named(), c.thorough
    mods = [2, 3, 5, 7, 13, 251, 257, 65537, (1 << 31) - 1, prevprime(1 << 32), (1 << 61) - 1, prevprime(1 << 64), nextprime(1 << 64), (1 << 127) - 1, prevprime(1 << 128), prevprime(1 << 256), (1 << 521) - 1, prevprime(1 << 1024), nextprime(1 << 1000)]
    mods += [nm[k][x] for k in rng.sample(list(nm), 6) for x in 'pn']
    bl = []
    for m in mods:
        for _ in range(6 if t else 2): bl.append(fe_block(rng, m, rng.choice([q for q in mods if q != m]), 150 if t else 60, 'elements mod %x' % m))
    for a, o in pairs(rng, nm, 46 if t else 12): bl.append(cv_block(rng, a, o, 120 if t else 40, 'curve ' + a.get('name', a['t'])))
    for a, o in pairs(rng, nm, 46 if t else 16): bl.append(pt_block(rng, a, o, 120 if t else 50, 'points ' + a.get('name', a['t'])))
    for f in FORMS if t else [rng.choice(FORMS)]:      # (its order is not known)
        k = big_curve(rng, f, rng.choice([1024, 1023, 900]))
        b = pt_block(rng, k, rng.choice([x for x in nm.values() if x['bits'] < 260]), 30, 'points of a large curve')
        P = rand_on(rng, k)
        b.lines[4:4] = ['point p5 c0 ' + Bt(enc_bytes(k, P, False)), 'point p5 c0 ' + T(enc_bytes(k, P, False).hex()), 'uncompressed p5', 'compressed p5']
        b.lines = [('gen p6 c0' if l.startswith('prand') else l) for l in b.lines if not l.startswith(('last encrypt', 'encrypt'))]
        bl.append(b)
    for a, o in pairs(rng, nm, 46 if t else 10): bl.append(scheme_block(rng, a, o, 40 if t else 10, 'ecdsa ' + a.get('name', a['t'])))
    for a, o in pairs(rng, nm, 46 if t else 8): bl.append(elgamal_block(rng, a, o, 20 if t else 5, 'elgamal ' + a.get('name', a['t'])))
    return bl

ASANENV = dict(ASAN_OPTIONS='detect_leaks=1:exitcode=99:abort_on_error=0')
def c18(c):
    rng, nm, t = c.rng, named(), c.thorough
    c.model('Ownership', 'OwnershipMC', overrides=False, minstates=1000)
    small = [x for x, _ in small_curves(rng, [61, 127, 251]) if x['n'] >= 13 and x['n'] != x['p']]
    big = [x for x in nm.values() if x['p'].bit_length() <= 260]
    def pair():
        a = rng.choice(small + big); b = rng.choice([x for x in small + big if x['n'] != a['n'] and x['n'] != a['p']])
        return [a, b]
    hs = histories17(c, 300 if t else 40, 120 if t else 90, c.seed * 100 + 18)
    hist = wrap17([Block('history %d' % i, concrete18(rng, h, pair()), weight=len(h)) for i, h in enumerate(hs)])
    c.stats['ops_histories'] = len(hist)
    bl = blocks18(c)
    packs = 32 if t else 8
    perturb = dict(MALLOC_PERTURB_='165')
    each = build_go(c, 'goe', env=dict(GODRV='each', **perturb))
    c.run_blocks(each, bl + hist, module='GoBinding', label='each', packs=packs)
    during = build_go(c, 'god', cflags=['-finstrument-functions'], env=dict(GODRV='during', **perturb))
    ps = list(pairs(rng, nm, 46 if t else 6))
    k = 40 if t else 20
    pool = [fe_block(rng, 97, 101, 2 * k, 'elements')] + [cv_block(rng, a, o, k, 'curve') for a, o in ps[::2]] + [pt_block(rng, a, o, k, 'points') for a, o in ps] + [scheme_block(rng, a, o, k // 4, 'ecdsa') for a, o in ps[1::2]] + [elgamal_block(rng, a, o, 3, 'elgamal') for a, o in ps[::2]]
    c.run_blocks(during, pool + [last_block(rng, a, 'last operands') for a, o in ps[:3]] + hist[:None if t else 12], module='GoBinding', label='during', packs=packs)
    cnt = build_go(c, 'goc', env=dict(GODRV='count'), preload=count_so(c))
    c.run_blocks(cnt, [repeated(rng, b, .7 if t else .4) for b in pool[:None if t else 16] + hist[:60 if t else 8]], module='GoBinding', label='count', packs=packs, alarm=120)
    if t:
        asan = build_go(c, 'goa', cflags=['-fsanitize=address'], env=dict(GODRV='each', **ASANENV), goargs=['-asan'])
        c.run_blocks(asan, bl[::3] + hist, module='GoBinding', label='asan', packs=packs)
    c.extra['histories'] = len(hs)
