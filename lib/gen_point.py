"""C04-C08: curves, points, scalar multiplication, encodings."""
from vlib import Block
from nums import *

FORMS = ('ws', 'ed', 'mo', 'te')
SMALLP_FOR = {'quick': [5, 7, 11, 13, 17, 19], 'thorough': [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]}
_cache = {}

def pt(P): return 'inf inf' if P is None else '%x %x' % P
def set_pt(h, P, ch):      # P in affine coordinates or None for infinity
    return 'pneut %s %s' % (h, ch) if P is None else 'psetz %s %x %x %s' % (h, P[0], P[1], ch)
def rand_on(rng, c):
    """a random finite point of the curve"""
    while True:
        P = lift(c, rng.randrange(c['p']))
        if P: return P if rng.random() < .5 else neg_y(c, P)
def neg_y(c, P): return (P[0], -P[1] % c['p'])
def lift(c, x):
    p, a, b = c['p'], c['a'], c['b']
    x2 = x * x
    if c['t'] == 'ws': v = x2 * x + a * x + b
    elif c['t'] == 'mo':
        if a % p == 0: return None
        v = (x2 * x + b * x2 + x) * inv(a, p)
    elif c['t'] == 'ed':
        d = (1 - a * a * b * x2) % p
        if d == 0: return None
        v = (a * a - x2) * inv(d, p)
    else:
        d = (1 - b * x2) % p
        if d == 0: return None
        v = (1 - a * x2) * inv(d, p)
    y = sqrt_mod(v, p)
    return None if y is None else (x, y)
def torsion(rng, c):
    """the points of order dividing h (cofactor subgroup), computed from random points"""
    key = c.get('name')
    if key in _cache: return _cache[key]
    out = [neutral(c)]
    if c['h'] > 1:
        for _ in range(4):
            T = mul(c, c['n'], rand_on(rng, c))
            Q = T
            while Q not in out: out.append(Q); Q = add(c, Q, T)
    if key: _cache[key] = out
    return out
def G(c): return (c['gx'] % c['p'], c['gy'] % c['p'])
def small_curves(rng, tier_ps, per=1, forms=FORMS, want=None):
    for t in forms:
        for p in tier_ps:
            for _ in range(per):
                try: yield find_small(rng, t, p, want)
                except ValueError: pass
def ndef(h, c): return cnamed(h, c['name']) if 'name' in c else cdef(h, c)

# ---------------------------------------------------------------- C04
def valid_gen(rng, t, p, a, b):
    c = dict(t=t, p=p, a=a, b=b)
    pts = [(x, y) for x in range(p) for y in range(p) if on_curve(c, (x, y))]
    return rng.choice(pts) if pts else None
def any_small(rng, p=None, t=None):
    """a small curve definition (not necessarily of prime order): what the definition and comparison calls accept"""
    while True:
        t0, p0 = t or rng.choice(FORMS), p or rng.choice([5, 7, 11, 13])
        a, b = rng.randrange(p0), rng.randrange(p0)
        if t0 == 'mo' and a == 0: continue
        c = dict(t=t0, p=p0, a=a, b=b)
        if not complete(c): continue
        g = valid_gen(rng, t0, p0, a, b)
        if g is None: continue
        c.update(n=rng.choice([5, 7, 11, 13]), h=rng.choice([1, 2, 4, 8, 1 << 64, 1 << 31]), gx=g[0], gy=g[1], bits=p0.bit_length())
        return c
def vary_one(rng, c):
    """the same definition with exactly one parameter changed, still a valid definition"""
    for _ in range(300):
        d = dict(c)
        k = rng.choice(['p', 'a', 'b', 'n', 'h', 'gx', 'gy', 't'])
        if k == 'p': d['p'] = rng.choice([q for q in (5, 7, 11, 13, 17, 19) if q != c['p'] and q > max(c['a'], c['b'], c['gx'], c['gy'])] or [c['p']]); d['bits'] = d['p'].bit_length()
        elif k == 't': d['t'] = rng.choice(FORMS)
        elif k in ('n', 'h'): d[k] = rng.choice([1, 2, 3, 4, 5, 7, 8, c[k] + (1 << 32), c[k] + (1 << 64), c[k] + (1 << 200)])
        else: d[k] = rng.randrange(c['p'])
        if d[k] != c[k] and complete(d) and on_curve(d, (d['gx'], d['gy'])): return d
    return dict(c)
def cmp_block(rng, n, name):
    L = ['cinit c0', 'cinit c1', 'cinit c2']
    for _ in range(n):
        c = any_small(rng)
        d = vary_one(rng, c) if rng.random() < .85 else (dict(c) if rng.random() < .6 else any_small(rng))
        L += [cdef('c0', c, rng.choice('zxd')), cdef('c1', d, rng.choice('zxd')), 'ccmp c0 c1', 'ccmp c1 c0']
        r = rng.random()
        if r < .25: L += ['cset c2 c0', 'ccmp c2 c1', 'ccmp c2 c0', 'ccmp c0 c0']
        elif r < .35: L += ['cset c0 c1', 'ccmp c0 c1']
        elif r < .4: L += ['cset c0 c0', 'ccmp c0 c1']
    return Block(name, L + ['cclear c0', 'cclear c1', 'cclear c2'])
def def_block(rng, base, n, name):
    """valid and invalid definitions of one curve; redefinition of the same object; point checks"""
    L = ['cinit c0', 'cinit c1', 'cinit c2']
    p = base['p']
    L += [cdef('c1', base)]
    ok0 = False
    for _ in range(n):
        c = dict(base)
        r = rng.random()
        if r < .25: pass
        elif r < .4: c['gy'] = -base['gy'] % p
        elif r < .5: c['gx'] = (base['gx'] + rng.choice([1, -1, 1 << rng.randrange(p.bit_length())])) % p
        elif r < .6: c['gy'] = (base['gy'] + rng.choice([1, -1, 1 << rng.randrange(p.bit_length())])) % p
        elif r < .66: c['gx'], c['gy'] = c['gy'], c['gx']
        elif r < .72: c['a'], c['b'] = c['b'], c['a']
        elif r < .8: k = rng.choice('ab'); c[k] = (c[k] + rng.choice([1, -1, 1 << rng.randrange(p.bit_length())])) % p
        elif r < .86: k = rng.choice('ab'); c[k] += rng.choice([p, -p, 3 * p, -p * p])
        elif r < .9:
            P = rand_on(rng, c); c['gx'], c['gy'] = P
        elif r < .93: c['n'], c['h'] = rng.getrandbits(p.bit_length()) | 1, rng.choice([1, 2, 8, 12345, 1 << 70])
        elif r < .96: c = any_small(rng)
        else: c['t'] = rng.choice(FORMS)
        if c['t'] == 'mo' and c['a'] % c['p'] == 0: continue
        if c['t'] != base['t'] and not complete_big(c): continue
        L.append(cdef('c0', c, rng.choice('zxd')))
        good = on_curve(c, (c['gx'], c['gy']))
        if not good and not ok0 and rng.random() < .5: continue
        if good:
            L += ['ccmp c0 c1', 'ccmp c1 c0']
            for _ in range(2): L.append(check_cmd(rng, 'c0', c))
            if rng.random() < .4:
                L += ['cset c2 c0', check_cmd(rng, 'c2', c), 'ccmp c2 c1', 'ccmp c2 c0']
                # the copy must work on its own: source redefined, then arithmetic on the copy
                L += [cdef('c0', any_small(rng), 'z')]
                Q = rand_on(rng, c)
                L += ['pinit p0 c2', set_pt('p0', Q, 'c2'), 'padd p0 p0 p0', 'pneg p0 p0', 'penc p0 1 bin', 'padd p0 p0 p0', 'pclear p0']
    return Block(name, L + ['cclear c0', 'cclear c1', 'cclear c2'])
def complete_big(c):
    try: return complete(c)
    except Exception: return False
def check_cmd(rng, h, c):
    p = c['p']
    P = rand_on(rng, c)
    r = rng.random()
    if r < .35: pass
    elif r < .45: P = neg_y(c, P)
    elif r < .55: P = (P[0], P[1] ^ 1)
    elif r < .63: P = (P[0] ^ 1, P[1])
    elif r < .7: P = (P[1], P[0])
    elif r < .78: P = (P[0] + p, P[1])
    elif r < .84: P = (P[0], P[1] - p)
    elif r < .9: P = (rng.randrange(p), rng.randrange(p))
    elif r < .95: P = (0, rng.choice([0, 1, c['a'] % p, -c['a'] % p]))
    else: P = (P[0] ^ (1 << rng.randrange(p.bit_length())), P[1])
    return 'ccheck %s %s %s' % (h, hx(P[0]), hx(P[1]))
def check_table(rng, c):
    """the point check over the whole plane of a small field"""
    p = c['p']
    return Block('ccheck table', ['cinit c0', cdef('c0', c)] + ['ccheck c0 %x %x' % (x, y) for x in range(p + 1) for y in range(p + 1)] + ['cclear c0'])
def c04(c):
    rng, exe = c.rng, c.build_driver()
    bl = [cmp_block(rng, 120 if c.thorough else 30, 'ccmp %d' % i) for i in range(40 if c.thorough else 16)]
    nm = list(named().values())
    for k in nm: bl.append(def_block(rng, k, 60 if c.thorough else 14, 'cdef ' + k['name']))
    for k, _ in small_curves(rng, [5, 7, 11, 13, 31, 61] if c.thorough else [7, 13]):
        bl.append(def_block(rng, k, 60 if c.thorough else 20, 'cdef small %s/%d' % (k['t'], k['p'])))
    for k, _ in small_curves(rng, [5, 7, 11, 13] if c.thorough else [7]): bl.append(check_table(rng, k))
    c.run_blocks(exe, bl)

# ---------------------------------------------------------------- C05
def c05(c):
    rng, exe = c.rng, c.build_driver()
    nm = named()
    bl = [Block('list', ['clist', 'clist'])]
    bad = ['', ' ', 'P-256', 'p256', 'P25', 'P2566', 'unknown', 'secp256', 'E-5211', 'x' * 300, 'Curve', 'M-', 'Ed25519\x01', '\xff\xfe', 'P256 ', ' P256', 'secp256k1,']
    for k in nm: bad += [k[:-1], k + '1', k.upper() if k.upper() not in nm else k + '_', k.lower() if k.lower() not in nm else '_' + k, k[1:], k + '\n']
    bad = [b for b in dict.fromkeys(bad) if b not in nm]
    names = list(nm)
    for j, k in enumerate(names):
        kc = nm[k]
        L = ['cinit c0', 'cinit c1', cnamed('c0', k), cdef('c1', kc, 'x'), 'ccmp c0 c1']
        for b in bad[j::len(names)]: L += [cn(b, 'c0'), 'ccmp c0 c1']
        L += ['cset c1 c0', cnamed('c1', rng.choice(names)), cnamed('c1', k), 'ccmp c0 c1']
        # the generator has the listed order in the code's own arithmetic
        L += ['pinit p0 c0', 'pinit p1 c0', 'psetz p0 %x %x c0' % G(kc), 'pmulz p1 p0 %x' % (kc['n'] - 1), 'padd p1 p1 p0', 'pclear p0', 'pclear p1']
        bl.append(Block('named ' + k, L + ['cclear c0', 'cclear c1']))
    L = ['cinit c0']
    for b in bad[:40]: L.append(cn(b, 'c0'))      # refused on an object which holds no curve yet
    bl.append(Block('unknown on fresh', L + ['cclear c0']))
    L = ['cinit c0', 'cinit c1']                  # every transition between forms when redefining
    for _ in range(200 if c.thorough else 60):
        k = rng.choice(names)
        L += [cnamed(rng.choice(['c0', 'c1']), k)]
        if rng.random() < .3: L.append(cn(rng.choice(bad), 'c0'))
    bl.append(Block('redefine', ['cinit c0', 'cinit c1', cnamed('c0', 'P256'), cnamed('c1', 'M-221')] + L[2:] + ['ccmp c0 c1', 'cclear c0', 'cclear c1']))
    c.run_blocks(exe, bl)
    c.model('MCNamed')
    c.extra['named'] = len(nm)
def cn(name, h): return 'cnamed %s %s' % (h, name.encode('latin1').hex() or '-')

# ---------------------------------------------------------------- C06
def load(h, c, pts): return 'tload %s %s' % (h, ' '.join(pt(P) for P in pts))
def table_block(rng, c, pts, kinds, name):
    L = ['cinit c0', cdef('c0', c), load('c0', c, pts)]
    L += kinds + ['tfree', 'cclear c0']
    return Block(name, L, weight=len(pts) ** 2 * len(kinds))
ADDK = ['tadd %s %d %d %d' % (o, r1, r2, al) for o in ('add', 'sub') for r1 in (0, 1) for r2 in (0, 1) for al in (0, 1, 2)]
UNK = ['tun %s %d %d' % (o, r, al) for o in ('dbl', 'neg') for r in (0, 1) for al in (0, 1)]
SELFK = ['tself %s %d' % (o, al) for o in ('add', 'sub') for al in (0, 1)]
CMPK = ['tcmp %d %d' % (a, b) for a in (0, 1) for b in (0, 1)]

def pool_points(rng, c, n=6):
    """points likely to collide: small multiples of a few bases shifted by torsion"""
    T = torsion(rng, c)
    B = G(c) if rng.random() < .5 else rand_on(rng, c)
    m = [add(c, mul(c, k, B), rng.choice(T)) for k in (1, 2, 3)]
    out = m + [neg(c, m[0]), neg(c, m[1]), neutral(c), T[-1], rng.choice(T), add(c, m[0], rng.choice(T)), add(c, neg(c, m[0]), rng.choice(T))]
    # points with a zero or tiny coordinate
    for x in (0, 1, c['p'] - 1):
        P = lift(c, x)
        if P: out.append(P)
    rng.shuffle(out)
    return out
def hist_block(rng, c, n, name, muls=0):
    L = ['cinit c0', ndef('c0', c), 'cinit c1', cdef('c1', c)] + ['pinit p%d c0' % i for i in range(5)]
    pool = pool_points(rng, c)
    live = set()
    H = ['p%d' % i for i in range(5)]
    def setp(h):
        L.append(set_pt(h, rng.choice(pool), rng.choice(['c0', 'c0', 'c1'])) if rng.random() < .9 else 'pneut %s c0' % h)
        live.add(h)
    for h in H[:3]: setp(h)
    for i in range(n):
        if i % 40 == 39: pool[:] = pool_points(rng, c)
        r = rng.random()
        if r < .28: setp(rng.choice(H)); continue
        a, b = rng.choice(sorted(live)), rng.choice(sorted(live))
        d = rng.choice([a, b] + H)
        if r < .52: L.append('padd %s %s %s' % (d, a, b))
        elif r < .68: L.append('psub %s %s %s' % (d, a, b))
        elif r < .76: L.append('pdbl %s %s' % (d, a))
        elif r < .82: L.append('pneg %s %s' % (d, a))
        elif r < .9: L.append('pcmp %s %s' % (a, b)); continue
        elif r < .93: L.append('pgetz %s' % a); continue
        elif r < .95: L.append('pset %s %s' % (d, a))
        elif r < .97 and a != b: L.append('pswap %s %s' % (a, b)); continue
        elif r < .985 and a != b: L.append('pcswap %s %s %d' % (a, b, rng.choice([0, 1, 2, -1]))); continue
        else: L.append('pgetf %s %x' % (a, rng.choice([c['p'], c['n'], 7]))); continue
        live.add(d)
        if rng.random() < .3: L.append('pcmp %s %s' % (d, rng.choice(sorted(live))))
    return Block(name, L + ['pclear %s' % h for h in H] + ['cclear c0', 'cclear c1'])
def cross_cmp_block(rng, cs, name):
    """equality across curves and curve objects"""
    L = ['cinit c0', 'cinit c1', 'pinit p0 c0', 'pinit p1 c1'][:2]
    k = cs[0]
    L += [ndef('c0', k), ndef('c1', k), 'pinit p0 c0', 'pinit p1 c1']
    for d in cs:
        P = G(d)
        L += ['pclear p1', ndef('c1', d), 'pinit p1 c1', set_pt('p1', P, 'c1'), set_pt('p0', G(k), 'c0'), 'pcmp p0 p1', 'pcmp p1 p0',
              'padd p0 p0 p0', 'padd p1 p1 p1', 'pcmp p0 p1', 'psub p0 p0 p0', 'psub p1 p1 p1', 'pcmp p0 p1', 'pneut p0 c0', 'pcmp p0 p1', 'pcmp p1 p0',
              set_pt('p0', G(k), 'c0'), 'pcmp p0 p1']
    return Block(name, L + ['pclear p0', 'pclear p1', 'cclear c0', 'cclear c1'])
def c06(c):
    c.model('MCGroup', 'MCGroup' + ('Deep' if c.thorough else ''))
    rng, exe = c.rng, c.build_driver()
    bl = []
    ps = [5, 7, 11, 13, 17, 19, 23, 29, 31] if c.thorough else [5, 7, 11, 13]
    for k, pts in small_curves(rng, ps, per=6 if c.thorough else 2):
        bl.append(table_block(rng, k, pts, ADDK + UNK + SELFK + CMPK, 'tables %s p=%d a=%d b=%d' % (k['t'], k['p'], k['a'], k['b'])))
    if c.thorough:
        for k, pts in small_curves(rng, [61, 67, 127]):
            bl.append(table_block(rng, k, pts, ['tadd add 1 1 0', 'tadd sub 0 1 2', 'tadd add 1 0 1'] + UNK + SELFK + CMPK[1:2], 'tables %s p=%d' % (k['t'], k['p'])))
    # special coefficients of the short Weierstrass formulas, and Montgomery B other than one
    for want, t in ((lambda k: k['a'] == 0, 'ws'), (lambda k: k['a'] == k['p'] - 3, 'ws'), (lambda k: k['b'] == 0, 'ws'), (lambda k: k['b'] == 0, 'mo'), (lambda k: k['a'] not in (0, 1), 'mo'),
                    (lambda k: k['a'] not in (0, 1, k['p'] - 1), 'ed'), (lambda k: k['a'] not in (0, 1), 'te')):
        for p in ([7, 11, 13, 19, 23] if c.thorough else [7, 13]):
            try: k, pts = find_small(rng, t, p, want)
            except ValueError: continue
            bl.append(table_block(rng, k, pts, ADDK + UNK + SELFK + CMPK, 'tables special %s p=%d a=%d b=%d' % (k['t'], k['p'], k['a'], k['b'])))
    c.run_blocks(exe, bl, label='tab')
    nm = named()
    bl = []
    for k in nm.values(): bl.append(hist_block(rng, k, 600 if c.thorough else 90, 'history ' + k['name']))
    for k, _ in small_curves(rng, [17, 31, 61, 127, 251] if c.thorough else [31, 127]): bl.append(hist_block(rng, k, 500 if c.thorough else 120, 'history small %s/%d' % (k['t'], k['p'])))
    for b in ([63, 64, 65, 127, 129, 191, 250, 320, 400, 512, 600, 800, 1000, 1023, 1024] if c.thorough else [64, 65, 129, 320, 640, 1023]):
        for t in FORMS: bl.append(hist_block(rng, big_curve(rng, t, b), 200 if c.thorough else 40, 'history random %s %d bits' % (t, b)))
    ks = list(nm.values())
    for i in range(4): bl.append(cross_cmp_block(rng, [ks[0] if i == 0 else rng.choice(ks)] + [rng.choice(ks) for _ in range(8)], 'cross compare %d' % i))
    bl.append(cross_cmp_block(rng, [nm['secp192r1'], nm['P192'], nm['secp192r1'], nm['secp192k1'], nm['M-221']], 'cross compare aliases'))
    c.run_blocks(exe, bl, label='hist')
def big_curve(rng, t, bits):
    """a random complete curve of unknown group order over a random prime; n is only a bound for scalars"""
    p = randprime(rng, bits)
    while True:
        c = dict(t=t, p=p, a=rng.randrange(1, p), b=rng.randrange(1, p))
        if t in ('te',): c['a'] = c['a'] ** 2 % p
        if not complete(c): continue
        P = rand_on(rng, c)
        c.update(n=prevprime(p), h=1, gx=P[0], gy=P[1], bits=p.bit_length())
        return c

# ---------------------------------------------------------------- C07
def scalars(rng, n, thorough=False):
    nb = n.bit_length()
    s = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, n - 1, n - 2, n - 3, (n - 1) // 2, (n + 1) // 2, 1 << (nb - 1), (1 << (nb - 1)) - 1, n >> 1]
    for k in (8, 16, 31, 32, 63, 64, 65, 127, 128, 192, 255, 256): s += [1 << k, (1 << k) - 1]
    for _ in range(40 if thorough else 6): s.append(rng.randrange(n))
    for _ in range(20 if thorough else 4):                     # sparse nibbles
        x = 0
        for i in range(0, nb, 4): x |= rng.choice([0, 0, 0, 15, 8, 1, rng.randrange(16)]) << i
        s.append(x)
    for _ in range(20 if thorough else 3): s.append(rng.randrange(1, 16) << rng.randrange(nb))
    return [k % n for k in s]
def zs(rng, n): return [0, -1, 1, n, -n, n + 1, n - 1, -n - 1, 2 * n, 2 * n - 1, n * n, -n * n + 5, 1 << (n.bit_length() + 3), -(1 << 64), (1 << 1200) + 7, -(1 << 1200) - 7, rng.getrandbits(2 * n.bit_length()), -rng.getrandbits(n.bit_length() + 64), n + rng.randrange(n)]
def mul_block(rng, c, m, name, thorough=False):
    """m multiplications of assorted points, plain and through tables"""
    n = c['n']
    L = ['cinit c0', ndef('c0', c)] + ['pinit p%d c0' % i for i in range(4)] + ['finit f0 %x' % n, 'finit f1 %x' % n]
    T = torsion(rng, c) if c['p'].bit_length() > 16 else [neutral(c)]
    def setp(h):
        r = rng.random()
        if r < .3: P = G(c)
        elif r < .5: P = add(c, mul(c, rng.randrange(1, 50), G(c)), rng.choice(T))
        elif r < .6: P = rng.choice(T)
        elif r < .66: P = neutral(c)
        else: P = rand_on(rng, c)
        L.append(set_pt(h, P, 'c0'))
        if rng.random() < .3: L.append('pdbl %s %s' % (h, h))
    for h in ('p0', 'p1', 'p2', 'p3'): setp(h)
    ss, zz = scalars(rng, n, thorough), zs(rng, n)
    rng.shuffle(ss)
    for i in range(m):
        r = rng.random()
        if r < .25: setp(rng.choice(['p0', 'p1']))       # a point that may have tables changes
        elif r < .3: L.append(rng.choice(['padd p0 p0 p1', 'pset p0 p1', 'pset p1 p0', 'pneg p0 p0', 'pdbl p1 p1', 'pgetz p0', 'pneut p1 c0', 'pset p0 p2', 'pswap p0 p1', 'pset p0 p0', 'psub p1 p0 p1']))
        elif r < .4: L.append('pbset %s' % rng.choice(['p0', 'p1', 'p0', 'p2']))
        s = rng.choice(['p0', 'p0', 'p1', 'p2', 'p3'])
        d = rng.choice(['p2', 'p3', 'p3', s])
        if rng.random() < .5:
            L.append('fsetz f0 %x %x' % (n, ss[i % len(ss)]))
            L.append('%s %s %s f0' % (rng.choice(['pmul', 'pbmul']), d, s))
        else:
            z = rng.choice(zz) if rng.random() < .6 else rng.choice(ss)
            L.append('%s %s %s %s' % (rng.choice(['pmulz', 'pbmulz']), d, s, hx(z)))
        if rng.random() < .25 and d != s: L.append('%s p2 %s %s' % (rng.choice(['pbmulz', 'pmulz']), s, hx(rng.choice(zz)))); L.append('pcmp p2 %s' % d)
    return Block(name, L + ['pclear p%d' % i for i in range(4)] + ['fclear f0', 'fclear f1', 'cclear c0'], weight=m * c['p'].bit_length() ** 2 // 10000 + m)
def table_life_block(rng, c, name):
    """every way a point with tables can change, followed by multiplication through tables"""
    n = c['n']
    L = ['cinit c0', ndef('c0', c), 'cinit c1', cdef('c1', c)] + ['pinit p%d c0' % i for i in range(4)] + ['finit f0 %x' % n]
    A, B = mul(c, 5 % (n - 1) + 1, G(c)), mul(c, 11 % (n - 1) + 1, G(c))
    enc = bytes([4]) + A[0].to_bytes((c['bits'] + 7) // 8, 'big') + A[1].to_bytes((c['bits'] + 7) // 8, 'big')
    changes = ['psetz p0 %x %x c0' % A, 'psetz p0 %x %x c1' % B, 'pset p0 p1', 'padd p0 p0 p1', 'padd p0 p1 p0', 'psub p0 p0 p1', 'pdbl p0 p0', 'pneg p0 p0', 'pswap p0 p1', 'pdec p0 %s c0' % enc.hex(),
               'pdecs p0 %s c0' % enc.hex().encode().hex(), 'pneut p0 c0', 'pmulz p0 p0 9', 'pbmulz p0 p0 7', 'pbmulz p0 p1 7', 'pset p0 p0', 'pdec p0 00 c0', 'pset p1 p0', 'pgetz p0', 'penc p0 1 bin', 'prand p0 c0']
    for ch in changes:
        L += ['psetz p0 %x %x c0' % G(c), 'psetz p1 %x %x c0' % B]
        if rng.random() < .5: L.append('pdbl p1 p1')
        if rng.random() < .5: L.append('pbset p1')
        L += ['pbset p0', 'pbmulz p2 p0 %x' % rng.randrange(n), ch]
        k = rng.randrange(n)
        L += ['fsetz f0 %x %x' % (n, k), 'pbmul p2 p0 f0', 'pmul p3 p0 f0', 'pcmp p2 p3', 'pbmulz p3 p1 %x' % rng.randrange(n), 'pbset p0', 'pbmulz p3 p0 %x' % k, 'pcmp p2 p3']
    return Block(name, L + ['pclear p%d' % i for i in range(4)] + ['fclear f0', 'cclear c0', 'cclear c1'], weight=300 * c['p'].bit_length() ** 2 // 10000)
def nibble_block(rng, c, positions, name):
    """every digit value at the given window positions, plain and through tables"""
    n = c['n']
    L = ['cinit c0', ndef('c0', c), 'pinit p0 c0', 'pinit p1 c0', set_pt('p0', G(c), 'c0'), 'pbset p0']
    for i in positions:
        for v in range(1, 16):
            z = (v << i)
            if z < n: L += ['pbmulz p1 p0 %x' % z] + (['pmulz p1 p0 %x' % z] if rng.random() < .4 else [])
    return Block(name, L + ['pclear p0', 'pclear p1', 'cclear c0'], weight=len(L) * c['p'].bit_length() ** 2 // 20000)
def long_order(rng, t, p):
    """a small curve whose order has more bits than the field"""
    k = None
    for _ in range(3000):
        try: k, pts = find_small(rng, t, p, tries=200)
        except ValueError: return None
        if k['n'].bit_length() > p.bit_length(): return k, pts
    return None
def c07(c):
    rng, exe = c.rng, c.build_driver()
    MK = ['tmul %s %d %d' % (h, r, al) for h in 'mzbc' for r in (0, 1) for al in (0, 1)]
    bl = []
    for k, pts in small_curves(rng, [5, 7, 11, 13, 17, 19, 23, 29, 31, 43, 61] if c.thorough else [5, 7, 13, 19], per=4 if c.thorough else 1):
        bl.append(Block('tmul %s p=%d n=%d' % (k['t'], k['p'], k['n']), ['cinit c0', cdef('c0', k), load('c0', k, pts)] + MK + ['tfree', 'cclear c0'], weight=len(pts) * k['n'] * 16))
    for t, p in (('ws', 7), ('ws', 13), ('ws', 31)):
        r = long_order(rng, t, p)
        if r: k, pts = r; bl.append(Block('tmul long order p=%d n=%d' % (k['p'], k['n']), ['cinit c0', cdef('c0', k), load('c0', k, pts)] + MK + ['tfree', 'cclear c0'], weight=len(pts) * k['n'] * 16))
    c.run_blocks(exe, bl, label='tab')
    bl = []
    nm = named()
    for k in nm.values():
        if not c.thorough and k['p'].bit_length() > 300 and rng.random() < .4: m = 8
        else: m = 120 if c.thorough else 16
        bl.append(mul_block(rng, k, m, 'scalars ' + k['name'], c.thorough))
    for k in ([nm[x] for x in ('secp160k1', 'P256', 'secp521r1', 'E-222', 'M-221', 'Ed25519', 'secp112r2', 'Curve41417', 'M-511')] if c.thorough else [nm['secp160k1'], nm['M-221'], nm['Ed25519'], nm['E-222']]):
        bl.append(table_life_block(rng, k, 'tables ' + k['name']))
    for k, _ in small_curves(rng, [61, 127] if c.thorough else [61]):
        bl.append(table_life_block(rng, k, 'tables small %s' % k['t']))
        bl.append(mul_block(rng, k, 60, 'scalars small %s' % k['t']))
    for name in ('P256', 'secp112r1', 'Ed25519', 'M-221', 'E-222', 'secp521r1'):
        nb = nm[name]['n'].bit_length()
        pos = list(range(0, nb, 4)) if c.thorough else rng.sample(range(0, nb, 4), 3) + [(nb - 1) // 4 * 4]
        for i in range(0, len(pos), 16): bl.append(nibble_block(rng, nm[name], pos[i:i + 16], 'windows %s %d' % (name, i)))
    c.run_blocks(exe, bl, label='mul')

# ---------------------------------------------------------------- C08
def enc_bytes(c, P, comp):
    w = (c['bits'] + 7) // 8
    if P is None: return bytes(1 + w if comp else 1 + 2 * w)
    if comp: return bytes([2 + (P[1] & 1)]) + P[0].to_bytes(w, 'big')
    return b'\x04' + P[0].to_bytes(w, 'big') + P[1].to_bytes(w, 'big')
def mutations(rng, c, P):
    """(bytes) strings around the encodings of P"""
    w, p = (c['bits'] + 7) // 8, c['p']
    u, z = enc_bytes(c, P, False), enc_bytes(c, P, True)
    out = [u, z, b'', b'\0', b'\4', b'\2', u[:-1], u + b'\0', z[:-1], z + b'\0', u[:1 + w], b'\3' + u[1:], b'\2' + u[1:], b'\4' + z[1:], bytes(1 + w), bytes(1 + 2 * w), bytes(w), bytes(2 * w), bytes(2 + w), bytes(2 + 2 * w)]
    for h in (0, 1, 3, 5, 6, 7, 0x84, 0xff, 2): out += [bytes([h]) + u[1:], bytes([h]) + z[1:]]
    out += [bytes([z[0] ^ 1]) + z[1:]]
    if P is not None:
        x, y = P
        lim = 256 ** w
        def U(a, b): return b'\4' + a.to_bytes(w, 'big') + b.to_bytes(w, 'big') if 0 <= a < lim and 0 <= b < lim else u
        def Z(h, a): return bytes([h]) + a.to_bytes(w, 'big') if 0 <= a < lim else z
        out += [U(x, (-y) % p), U(y, x), U(x, y ^ 1), U(x ^ 1, y), U(x + p, y), U(x, y + p), U(x, p), U(p, y), U(0, 0), U(lim - 1, lim - 1), U(x ^ (1 << rng.randrange(8 * w)), y), U(x, y ^ (1 << rng.randrange(8 * w)))]
        for h in (2, 3): out += [Z(h, x + p), Z(h, p), Z(h, p + 1), Z(h, p - 1), Z(h, 0), Z(h, 1), Z(h, 2), Z(h, lim - 1), Z(h, rng.randrange(p)), Z(h, rng.randrange(p)), Z(h, x ^ (1 << rng.randrange(8 * w)))]
        # a nonzero coordinate in the all-zero form
        out += [bytes(1) + z[1:], bytes(1 + 2 * w - 1) + b'\1', b'\1' + bytes(w)]
    return out
def text_mut(rng, b):
    """text forms of the byte string, good and bad"""
    t = b.hex()
    r = rng.random()
    if r < .3: return t.upper()
    if r < .5: return t
    if r < .6: return ''.join(ch.upper() if rng.random() < .5 else ch for ch in t)
    i = rng.randrange(len(t)) if t else 0
    bad = rng.choice([' ', 'g', 'G', 'x', '-', '+', '@', '`', '/', ':', '\t', '\n', '\x7f', '\xff'])
    if r < .75: return t[:i] + bad + t[i + 1:]
    if r < .8: return t[:-1]
    if r < .84: return t + '0'
    if r < .88: return '0x' + t
    if r < .9: return '0x' + t[2:]
    if r < .93: return ' ' + t
    if r < .96: return t + ' '
    return t[:max(0, len(t) - 2)] + rng.choice([' f', '+f', '-1', '0x'])
def codec_block(rng, c, npts, name):
    L = ['cinit c0', ndef('c0', c), 'cinit c1', cdef('c1', c), 'pinit p0 c0', 'pinit p1 c0', 'pinit p2 c0']
    T = torsion(rng, c) if c['p'].bit_length() > 16 else [neutral(c)]
    for i in range(npts):
        r = rng.random()
        if i == 0: P = neutral(c)
        elif r < .2: P = rng.choice(T)
        elif r < .4: P = near_zero(rng, c)
        elif r < .5: P = lift(c, rng.choice([0, 1, 2, 3, c['p'] - 1])) or G(c)
        else: P = rand_on(rng, c)
        L.append(set_pt('p0', P, 'c0'))
        if rng.random() < .5: L += [set_pt('p1', G(c), 'c0'), 'padd p0 p0 p1', 'psub p0 p0 p1']       # projective representation
        for comp in (0, 1):
            for how in ('bin', 'str'):
                L.append('penc p0 %d %s' % (comp, how))
                b = enc_bytes(c, P, comp)
                if rng.random() < .2: L.append('pbset p2') if i else None
                L.append('pdec p2 %s %s' % (b.hex(), rng.choice(['c0', 'c1'])) if how == 'bin' else 'pdecs p2 %s c0' % (b.hex().upper() if rng.random() < .5 else b.hex()).encode().hex())
        ms = mutations(rng, c, P)
        rng.shuffle(ms)
        for b in ms[:14]:
            if rng.random() < .65: L.append('pdec p2 %s %s' % (b.hex() or '-', rng.choice(['c0', 'c0', 'c1'])))
            else: L.append('pdecs p2 %s c0' % (text_mut(rng, b).encode('latin1').hex() or '-'))
    return Block(name, [x for x in L if x] + ['pclear p0', 'pclear p1', 'pclear p2', 'cclear c0', 'cclear c1'])
def near_zero(rng, c):
    """a point whose x has leading zero bytes"""
    nb = c['p'].bit_length()
    for k in range(200):
        P = lift(c, rng.getrandbits(max(3, nb - rng.choice([8, 9, 16, 17, 24, 64]))) % c['p'])
        if P: return P if rng.random() < .5 else neg_y(c, P)
    return G(c)
def c08(c):
    c.model('MCGroup', 'MCGroup' + ('Deep' if c.thorough else ''))
    rng, exe = c.rng, c.build_driver()
    bl = []
    for k, pts in small_curves(rng, [5, 7, 11, 13, 17, 19, 23, 61, 127, 251] if c.thorough else [5, 7, 13, 31, 251]):
        if len(pts) > 300: continue
        heads = '0 1 2 3 4 5 6 7 82 83 84 ff'
        L = ['cinit c0', cdef('c0', k), load('c0', k, pts)] + ['tenc %d %d' % (a, b) for a in (0, 1) for b in (0, 1)]
        L += ['tdec 1 ' + heads, 'tdec 2 ' + heads, 'tdec 3 0 1 2 3 4 5 6 7'] + (['tdec 4 0 2 4'] if c.thorough and k['p'] < 30 else [])
        bl.append(Block('codec tables %s p=%d' % (k['t'], k['p']), L + ['tfree', 'cclear c0'], weight=3000))
    for k, pts in small_curves(rng, [257, 263] if c.thorough else [257]):       # two-byte coordinates
        bl.append(Block('codec tables %s p=%d' % (k['t'], k['p']), ['cinit c0', cdef('c0', k), load('c0', k, pts[:380]), 'tenc 0 1', 'tenc 1 1', 'tenc 1 0', 'tfree', 'cclear c0'], weight=3000))
        bl.append(codec_block(rng, k, 40, 'codec %s p=%d' % (k['t'], k['p'])))
    c.run_blocks(exe, bl, label='tab')
    bl = []
    for k in named().values(): bl.append(codec_block(rng, k, 60 if c.thorough else 7, 'codec ' + k['name']))
    for b in ([63, 64, 65, 72, 127, 129, 191, 250, 320, 400, 512, 600, 800, 1000, 1023, 1024] if c.thorough else [65, 129, 640, 1023]):
        for t in FORMS: bl.append(codec_block(rng, big_curve(rng, t, b), 20 if c.thorough else 4, 'codec random %s %d bits' % (t, b)))
    c.run_blocks(exe, bl, label='codec')
