"""C12: operations change their destination and nothing else, in every history, with every aliasing pattern."""
import json, re
from vlib import Block, MachineryError
from nums import *
from gen_point import G, set_pt, rand_on, ndef, lift, enc_bytes, mutations, small_curves, FORMS, pool_points, torsion
from gen_scheme import sigb, HSZ, dig, dint

def histories(c, num, length, seed):
    r = c.tlc('Histories', 'Histories', workers=1, timeout=600, overrides=False,
              args=['-simulate', 'num=%d' % num, '-depth', str(length + 5), '-seed', str(seed)], env=dict(HISTLEN=str(length)))
    out, seen = [], set()
    for l in r['out'].splitlines():
        if l.startswith('"[[') and l.endswith(']]"'):
            h = json.loads(json.loads(l))
            k = json.dumps(h[:-1])
            if k not in seen:
                seen.add(k); out.append(h)
    if len(out) < num // 2 or 'is violated' in r['out'] or 'Error' in r['out']:
        raise MachineryError('history generation failed:\n' + r['out'][-3000:])
    return out

def words(rng):
    return rng.choice([0, 1, 2, 3, 7, 8, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1, rng.getrandbits(64), rng.getrandbits(16)])
def ints(rng, m):
    return rng.choice([0, 1, -1, m - 1, m, m + 1, -m, 2 * m + 3, rng.randrange(m), rng.randrange(m), rng.randrange(m), rng.getrandbits(2 * m.bit_length() + 3), -rng.getrandbits(m.bit_length()), m // 2])
def point(rng, c):
    r = rng.random()
    if r < .1: return G(c)
    if r < .2:
        T = [t for t in torsion(rng, c) if t is not None] if c['h'] > 1 else []
        if T: return rng.choice(T)
    return rand_on(rng, c)
def badenc(rng, c):
    w = (c['p'].bit_length() + 7) // 8
    P = rand_on(rng, c)
    b = bytearray(enc_bytes(c, P, rng.random() < .5))
    r = rng.random()
    if r < .3: return bytes(b[:-1])
    if r < .5: return bytes(b) + b'\0'
    if r < .7: b[0] = 5; return bytes(b)
    b = bytearray(enc_bytes(c, P, False)); b[-1] ^= 1
    return bytes(b)          # x, y+-1: not on the curve except for tiny fields (the specification decides)

def concrete(rng, hist, curves, off=0):
    """curves: [K1, K2, K3]; abstract history -> driver commands (handles from `off` on)"""
    T = 'f%d' % (10 + off)
    if off: hist = [[h[0]] + [a if not re.fullmatch(r'[fcpsge]\d+', a) else a[0] + str(int(a[1:]) + off) for a in h[1:]] for h in hist]
    n = len(curves)
    fld = [k['p'] for k in curves] + [k['n'] for k in curves]
    F = lambda t: fld[int(t[1:]) - 1]
    K = lambda t: curves[int(t[1:]) - 1]
    L, live, hs = [], [], {}
    for h in hist:
        op, a = h[0], list(h[1:])
        if op in ('finit', 'finitfp'): L.append('%s %s %x' % (op, a[0], F(a[1])))
        elif op in ('fsetz', 'fsetzfp'): L.append('%s %s %x %s' % (op, a[0], F(a[1]), hx(ints(rng, F(a[1])))))
        elif op == 'fsetui': L.append('fsetui %s %x %x' % (a[0], F(a[1]), words(rng)))
        elif op == 'fpow': L.append('fpow %s %s %s' % (a[0], a[1], hx(rng.choice([0, 1, 2, 3, rng.getrandbits(70), rng.getrandbits(300)]))))
        elif op in ('faddui', 'fsubui', 'fmului', 'fpowui'): L.append('%s %s %s %x' % (op, a[0], a[1], words(rng)))
        elif op in ('fcswap', 'pcswap'): L.append('%s %s %s %d' % (op, a[0], a[1], rng.choice([0, 1, 1, 2, 255, -1 & 0x7fffffff])))
        elif op == 'cdef': L.append(ndef(a[0], K(a[1])) if rng.random() < .5 else cdef(a[0], K(a[1]), rng.choice('zxd')))
        elif op == 'cdefbad':
            k = dict(K(a[1])); k.pop('name', None)
            while on_curve(k, (k['gx'], k['gy'])): k['gy'] = (k['gy'] + 1) % k['p']
            L.append(cdef(a[0], k, rng.choice('zxd')))
        elif op == 'psetz': L.append(set_pt(a[0], point(rng, K(a[1])), a[2]))
        elif op == 'pneut': L.append('pneut %s %s' % (a[0], a[2]))
        elif op in ('pdec', 'pdecs'):
            b = enc_bytes(K(a[1]), point(rng, K(a[1])), rng.random() < .5)
            L.append('%s %s %s %s' % (op, a[0], b.hex() if op == 'pdec' else b.hex().encode().hex(), a[2]))
        elif op == 'pdecbad': L.append('pdec %s %s %s' % (a[0], badenc(rng, K(a[1])).hex(), a[2]))
        elif op == 'psetf':
            k = K(a[3]); x, y = rand_on(rng, k)
            if rng.random() < .5: L += ['fsetz %s %x %x' % (a[1], k['p'], x), 'finit %s %x' % (T, k['p']), 'fsetz %s %x %x' % (T, k['p'], y), 'psetf %s %s %s %s' % (a[0], a[1], T, a[2])]
            else: L += ['fsetz %s %x %x' % (a[1], k['p'], y), 'finit %s %x' % (T, k['p']), 'fsetz %s %x %x' % (T, k['p'], x), 'psetf %s %s %s %s' % (a[0], T, a[1], a[2])]
            L.append('fclear ' + T)
        elif op in ('pmulz', 'pbmulz'):
            m = rng.choice(fld)
            L.append('%s %s %s %s' % (op, a[0], a[1], hx(ints(rng, m) if rng.random() < .7 else rng.randrange(20))))
        elif op == 'penc': L.append('penc %s %d %s' % (a[0], rng.randrange(2), rng.choice(['bin', 'str'])))
        elif op == 'encbad': L.append('enc ' + ' '.join(a))
        elif op == 'sch': hs[a[0]] = rng.choice(HSZ); L.append('sch %s %s %d' % (a[0], a[1], hs[a[0]]))
        elif op == 'sign':      # (a digest of zero cannot be signed with a key of zero)
            n = K(a[3])['n']
            m = next(m for m in rng.sample(MSG, len(MSG)) + [bytes([i]) for i in range(1, 256)] if dint(n, dig(m, hs[a[1]])) % n)
            L.append('sign %s %s %s %s' % (a[0], a[1], a[2], m.hex()))
        elif op == 'verify': L.append('verify %s %s %s' % (a[0], a[1], rng.choice(MSG).hex()))
        elif op == 'simp':
            k = K(a[2]); L.append('simp %s %s %s' % (a[0], a[1], sigb(k['n'], rng.randrange(1, k['n']), rng.randrange(1, k['n'])).hex()))
        elif op == 'simpbad': L.append('simp %s %s %s' % (a[0], a[1], rng.choice(['00', 'ff' * 200, '01' * 33, '00' * 64])))
        elif op == 'signbad':
            L.append('sign %s %s %s %s' % (a[0], a[1], a[2], '-' if F(a[3]) == K(a[4])['n'] or rng.random() < .5 else MSG[0].hex()))
        else: L.append(' '.join([op] + a))
        if op in ('finit', 'finitfp', 'cinit', 'pinit', 'sch', 'sign', 'simp', 'enc', 'dec'): live.append(a[0])
        elif op in ('fclear', 'cclear', 'pclear', 'schclear', 'sigclear', 'ctclear'): live.remove(a[0])
    cl = dict(f='fclear', c='cclear', p='pclear', s='schclear', g='sigclear', e='ctclear')
    rng.shuffle(live)
    for k in 'egspfc':
        L += ['%s %s' % (cl[k], h) for h in live if h[0] == k]
    return L
MSG = [b'message', b'\0', b'\xff\xff', b'another message, longer than most digests are, so that it does not get repeated at all ......']

def curve_triples(rng, nm, num):
    """triples of curves: named curves of every form and size, equal fields with different curves, small ones, nearly equal ones"""
    names = list(nm)
    small = [k for k in (find_or_none(rng, t, p) for t in FORMS for p in (61, 89, 127)) if k]
    samep = {}
    for k in names: samep.setdefault(nm[k]['p'], []).append(k)
    same = [v for v in samep.values() if len(v) > 1]
    rest = rng.sample(names, len(names))
    i = 0
    for j in range(num):
        def fresh():
            nonlocal i
            i += 1
            return nm[rest[i % len(rest)]]
        r = j % 6
        if r == 0: yield [fresh(), fresh(), fresh()]
        elif r == 1:
            v = rng.choice(same); x, y = rng.sample(v, 2); yield [nm[x], nm[y], fresh()]
        elif r == 2: yield [fresh(), rng.choice(small), fresh()]
        elif r == 3:        # same curve, one parameter different: other generator
            k = fresh(); d = dict(k); d.pop('name')
            P = mul(k, 2, G(k)); d['gx'], d['gy'] = P
            yield [k, d, fresh()]
        elif r == 4: yield rng.sample(small, 3)
        else:
            k = fresh(); d = dict(k); d.pop('name'); d['h'] = k['h'] * 2
            yield [k, d, rng.choice(small)]
def find_or_none(rng, t, p):
    for _ in range(60):      # large enough for every key and digest to have usable nonces
        try: k = find_small(rng, t, p)[0]
        except ValueError: return None
        if k['n'] >= 13: return k

# ---- systematic part: every operation, every aliasing pattern, every kind of stale destination
def stale_point(rng, old, new, name):
    """the destination is an object which held a point of `old` (with tables or not); operands on `new`"""
    L = ['cinit c0', ndef('c0', old), 'cinit c1', ndef('c1', new), 'cinit c2', ndef('c2', new), 'pinit p0 c0', 'pinit p1 c1', 'pinit p2 c2', 'pinit p3 c1',
         'finit f0 %x' % new['n'], 'fsetz f0 %x %x' % (new['n'], rng.randrange(new['n']))]
    P, Q = rand_on(rng, new), rand_on(rng, new)
    w = (old['p'].bit_length() + 7) // 8
    ops = ['pset p0 p1', 'padd p0 p1 p2', 'padd p0 p2 p1', 'psub p0 p1 p2', 'psub p0 p2 p1', 'pdbl p0 p1', 'pneg p0 p1', 'pmul p0 p1 f0', 'pbmul p0 p1 f0',
           'pmulz p0 p1 5', 'pbmulz p0 p1 -7', 'pneut p0 c1', set_pt('p0', Q, 'c1'), 'pdec p0 %s c1' % enc_bytes(new, P, True).hex(), 'pdec p0 %s c1' % enc_bytes(new, P, False).hex(),
           'padd p0 p3 p1', 'psub p0 p1 p3', 'pdec p0 ff c1', 'pdec p0 05%s c1' % ('00' * 2 * w), 'prand p0 c1']
    rng.shuffle(ops)
    for o in ops:
        L += [set_pt('p0', rand_on(rng, old), 'c0')]
        r = rng.random()
        if r < .3: L += ['pbset p0']
        elif r < .5: L += ['padd p0 p0 p0']
        L += [set_pt('p1', P, 'c1'), set_pt('p2', Q, 'c2'), 'pneut p3 c1', o]
        # still usable in every way afterwards
        L += rng.choice([['pdbl p0 p0'], ['pneg p0 p0'], ['padd p0 p0 p0'], ['pbmulz p0 p0 3'], ['pgetz p0'], ['penc p0 1 bin'], ['pcmp p0 p1'], ['pset p1 p0']])
    return Block(name, L + ['pclear p%d' % i for i in range(4)] + ['fclear f0', 'cclear c0', 'cclear c1', 'cclear c2'])
def alias_point(rng, c, name):
    """all aliasing patterns of all operations, and use of prepared tables after the point changed"""
    n = c['n']
    L = ['cinit c0', ndef('c0', c), 'cinit c1', cdef('c1', c), 'pinit p0 c0', 'pinit p1 c1', 'pinit p2 c0', 'finit f0 %x' % n, 'fsetz f0 %x %x' % (n, rng.randrange(n))]
    pats = ['p0 p0 p0', 'p0 p0 p1', 'p0 p1 p0', 'p0 p1 p1', 'p2 p0 p0', 'p2 p1 p0', 'p1 p0 p0', 'p1 p0 p1']
    ops = [o + ' ' + q for o in ('padd', 'psub') for q in pats]
    ops += ['%s %s' % (o, q) for o in ('pdbl', 'pneg', 'pset') for q in ('p0 p0', 'p0 p1', 'p2 p0', 'p1 p0')]
    ops += ['%s %s f0' % (o, q) for o in ('pmul', 'pbmul') for q in ('p0 p0', 'p0 p1', 'p2 p0', 'p1 p0')]
    ops += ['%s %s %x' % (o, q, rng.randrange(n)) for o in ('pmulz', 'pbmulz') for q in ('p0 p0', 'p0 p1', 'p2 p0')]
    ops += ['pswap p0 p1', 'pswap p0 p2', 'pneut p0 c1', 'prand p0 c0', set_pt('p0', rand_on(rng, c), 'c1'), 'pdec p0 %s c1' % enc_bytes(c, rand_on(rng, c), True).hex(), 'pdec p0 %s c0' % badenc(rng, c).hex()]
    rng.shuffle(ops)
    for o in ops:
        L += [set_pt('p0', rand_on(rng, c), rng.choice(['c0', 'c1'])), set_pt('p1', point(rng, c), rng.choice(['c0', 'c1']))]
        if rng.random() < .15: L.append('pneut p1 c0')
        if rng.random() < .15: L.append(rng.choice(['pset p1 p0', 'pneg p1 p0', 'pdbl p1 p0']))
        t = rng.random()
        if t < .5: L.append(rng.choice(['pbset p0', 'pbset p0', 'pbmulz p2 p0 2', 'pbset p1']))
        if t < .1: L.append('pbset p1')
        L.append(o)
        L += rng.choice([['pbmulz p2 p0 %x' % rng.randrange(n)], ['pbmul p2 p1 f0'], ['pmul p2 p0 f0'], ['pbset p0', 'pbmulz p0 p0 3'], []])
    # operands which are equal, opposite, neutral or unrelated, and prepared or not; they stay as they are
    for o in ('padd', 'psub'):
        for rel in ('equal', 'opposite', 'neutral', 'other'):
            for prep in rng.sample(((), ('p0',), ('p1',), ('p0', 'p1')), 4):
                P = rand_on(rng, c)
                L += [set_pt('p1', P, 'c1'), 'pneut p0 c0' if rel == 'neutral' else set_pt('p0', rand_on(rng, c) if rel == 'other' else P, 'c0')]
                if rel == 'opposite': L.append('pneg p0 p0')
                L += ['pbset ' + q for q in prep] + [o + rng.choice([' p2 p1 p0', ' p2 p0 p1'])]
                if not prep: L += [rng.choice([o + ' p0 p1 p0', o + ' p1 p1 p0'])]
    # swapping by condition: tables are not allowed here
    L += ['pclear p0', 'pclear p1', 'pinit p0 c0', 'pinit p1 c1']
    for w in (0, 1, 1, 0, 1):
        L += [set_pt('p0', rand_on(rng, c), 'c0'), set_pt('p1', rand_on(rng, c), 'c1'), rng.choice(['pdbl p0 p0', 'pneut p1 c1', 'pneg p1 p1', 'padd p1 p1 p0']), 'pcswap p0 p1 %d' % w, 'padd p0 p0 p1']
    return Block(name, L + ['pclear p0', 'pclear p1', 'pclear p2', 'fclear f0', 'cclear c0', 'cclear c1'])
def stale_field(rng, mods, n, name):
    """destinations which held elements of fields of any other size; all aliasing patterns"""
    L = ['finit f%d %x' % (i, rng.choice(mods)) for i in range(4)]
    for _ in range(n):
        m, o = rng.choice(mods), rng.choice(mods)
        va, vb = (rng.choice([0, 1, m - 1, rng.randrange(m), rng.randrange(m)]) for _ in '12')
        L += ['fsetz f0 %x %x' % (m, va), 'fsetz f1 %x %x' % (m, vb), 'fsetz f2 %x %x' % (o, rng.randrange(o)), 'fsetz f3 %x %x' % (o, rng.randrange(o))]
        op = rng.choice(['fadd', 'fsub', 'fmul'] * 2 + ['fset', 'fsqr', 'fneg', 'finv', 'fsqrt'] + ['faddui', 'fsubui', 'fmului', 'fpowui', 'fpow'] + ['fswap', 'fcswap', 'fsetz', 'fsetui', 'frand'])
        d = rng.choice(['f0', 'f1', 'f2', 'f2'])
        if op in ('fadd', 'fsub', 'fmul'): L.append('%s %s %s %s' % (op, d, rng.choice(['f0', 'f1']), rng.choice(['f0', 'f1'])))
        elif op in ('fset', 'fsqr', 'fneg', 'finv', 'fsqrt'): L.append('%s %s f0' % (op, d))
        elif op in ('faddui', 'fsubui', 'fmului', 'fpowui', 'fpow'): L.append('%s %s f0 %x' % (op, d, words(rng)))
        elif op == 'fswap': L.append('fswap f0 f1')
        elif op == 'fcswap': L.append('fcswap f0 f1 %d' % rng.randrange(2))
        elif op == 'fsetui': L.append('fsetui f2 %x %x' % (m, words(rng)))
        elif op == 'frand': L.append('frand f2 %x' % m)
        else: L.append('fsetz f2 %x %s' % (m, hx(ints(rng, m))))
        if op not in ('finv', 'fsqrt') or d not in ('f0',): L += rng.choice([['fget f0 5'], ['fadd f0 f0 f0'], []])
    return Block(name, L + ['fclear f%d' % i for i in range(4)])

def c12(c):
    rng, exe, nm = c.rng, c.build_driver(), named()
    bl = []
    num, length = (1200, 160) if c.thorough else (64, 120)
    hs = histories(c, num, length, rng.randrange(1 << 30))
    for i, (h, ks) in enumerate(zip(hs, curve_triples(rng, nm, len(hs)))):
        bl.append(Block('history %d' % i, concrete(rng, h, ks)))
    byform = {}
    for k in nm.values(): byform.setdefault(k['t'], []).append(k)
    for k, _ in small_curves(rng, [61, 127]): byform.setdefault(k['t'], []).append(k)
    for t in byform:
        for u in byform:
            for _ in range(6 if c.thorough else 1):
                a, b = rng.choice(byform[t]), rng.choice(byform[u])
                bl.append(stale_point(rng, a, b, 'stale %s -> %s' % (a.get('name', t), b.get('name', u))))
        for k in (byform[t] if c.thorough else rng.sample(byform[t], min(3, len(byform[t])))):
            bl.append(alias_point(rng, k, 'alias ' + k.get('name', t)))
    mods = sorted({k[x] for k in nm.values() for x in 'pn'} | {3, 5, 17, 65537, (1 << 61) - 1, 0xffffffffffffffc5, nextprime(1 << 64), nextprime(1 << 127), prevprime(1 << 128)})
    for i in range(40 if c.thorough else 8): bl.append(stale_field(rng, mods, 150, 'fields %d' % i))
    c.run_blocks(exe, bl)
    c.extra['histories'] = len(hs)
    c.extra['history_operations'] = sum(map(len, hs))
