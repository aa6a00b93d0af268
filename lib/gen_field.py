"""C01-C03: field element histories."""
from vlib import Block
from nums import *

P224 = 2 ** 224 - 2 ** 96 + 1
BELOW = [59, 159, 237, 189, 197, 317, 203, 569, 789, 305, 245, 825, 143, 213, 167, 105]     # 2^(64k) - d is the largest prime below 2^(64k)
ABOVE = [13, 51, 133, 297, 27, 231, 211, 75, 243, 115, 327, 183, 637, 993, 1465]     # 2^(64k) + d the smallest above
def boundary_primes(rng, thorough):
    return [(1 << (64 * (k + 1))) - d for k, d in enumerate(BELOW)] + [(1 << (64 * (k + 1))) + d for k, d in enumerate(ABOVE)]
def named_primes():
    s = []
    for c in named().values():
        for v in (c['p'], c['n']):
            if v not in s: s.append(v)
    return s
def values(rng, p):
    nb = p.bit_length()
    v = [0, 1, 2, 3, p - 1, p - 2, p - 3, (p - 1) // 2, (p + 1) // 2]
    for k in range(64, nb, 64):
        v += [1 << k, (1 << k) - 1, (1 << k) + 1, p - (1 << k), p - (1 << k) - 1]
    v += [(1 << (nb - 1)), (1 << (nb - 1)) - 1]
    for _ in range(6): v.append(rng.randrange(p))
    for _ in range(4): v.append(rng.getrandbits(rng.randrange(1, nb + 1)))
    # sparse limbs
    for _ in range(4):
        x = 0
        for k in range(0, nb, 64):
            x |= rng.choice([0, 0, (1 << 64) - 1, 1, rng.getrandbits(64)]) << k
        v.append(x)
    return [x % p for x in v]
UI = [0, 1, 2, 3, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2]
def uis(rng, p):
    u = UI + [rng.getrandbits(64), rng.getrandbits(rng.randrange(1, 65))]
    for d in (-1, 0, 1):
        for m in (1, 2, 3):
            if 0 <= p * m + d < 1 << 64: u.append(p * m + d)
    lo = p & ((1 << 64) - 1)
    u += [lo, (lo - 1) % (1 << 64), (lo + 1) % (1 << 64)]
    return u

BIN = ['fadd', 'fsub', 'fmul']
UIO = ['faddui', 'fsubui', 'fmului']
def arith_block(rng, p, q, n, name):
    """random operations over a pool of 4 elements of F_p plus destinations of F_q"""
    L = ['finit f0 %x' % p, 'finitfp f1 %x' % p, 'finit f2 %x' % p, 'finit f3 %x' % q, 'finit f4 %x' % q, 'finit f5 %x' % p]
    vals, us = values(rng, p), uis(rng, p)
    def setv(h): L.append('fsetz %s %x %x' % (h, p, rng.choice(vals)))
    for h in ('f0', 'f1', 'f2'): setv(h)
    inp = {'f0', 'f1', 'f2'}
    L.append('fsetz f3 %x %x' % (q, rng.randrange(q)))
    for _ in range(n):
        if rng.random() < .5: setv(rng.choice(['f0', 'f1', 'f2']))
        if rng.random() < .08: L.append('fsetz f3 %x %x' % (q, rng.randrange(q))); inp.discard('f3')
        a, b = rng.choice(sorted(inp)), rng.choice(sorted(inp))
        d = rng.choice([a, b, 'f0', 'f1', 'f2', 'f3', 'f4', 'f5'])
        r = rng.random()
        if r < .45:
            if rng.random() < .3:     # related operands: sums/differences at exactly p or limb boundaries
                x = rng.choice(vals)
                L.append('fsetz %s %x %x' % (a, p, x))
                if a != b: L.append('fsetz %s %x %s' % (b, p, hx(rng.choice([p - x, p - x - 1, p - x + 1, x, x - 1, x + 1, (1 << (64 * ((p.bit_length() + 63) // 64))) - x]))))
            L.append('%s %s %s %s' % (rng.choice(BIN), d, a, b))
        elif r < .7: L.append('%s %s %s %x' % (rng.choice(UIO), d, a, rng.choice(us)))
        elif r < .85: L.append('%s %s %s' % (rng.choice(['fsqr', 'fneg', 'fset']), d, a))
        elif r < .93: L.append('fpowui %s %s %x' % (d, a, rng.choice(us)))
        else:
            e = rng.choice([0, 1, 2, p - 1, p - 2, p, rng.getrandbits(rng.randrange(1, 2 * p.bit_length() + 2))])
            L.append('fpow %s %s %x' % (d, a, e))
        inp.add(d)
    L += ['fclear f%d' % i for i in range(6)]
    return Block(name, L)

def confusable(rng, nl):
    """primes of nl words which agree in length and in all words but some"""
    top, M = (1 << (64 * nl)) - 1, (1 << 64) - 1
    while True:
        p = randprime(rng, 64 * nl - rng.choice([0, 0, 0, 1, 7, 32]))
        if p > M >> 8: break
    out, b = [p], p.bit_length()
    def grow(step, lim=4000):      # the next prime p + k * step of the same length
        q = p
        for _ in range(lim):
            q += step
            if q.bit_length() != b: return
            if is_prime(q): out.append(q); return
    grow(2)                                    # same high words
    if nl > 1:
        for k in range(1, nl): grow(1 << (64 * k))      # same low words
        grow((1 << (64 * (nl - 1))) + 2)       # other middle
    if nl == 1: grow(1 << 32)                  # same low half word
    q = p & ((1 << (64 * max(1, nl - 1))) - 1)
    if q > 3 and is_prime(q): out.append(q)
    return list(dict.fromkeys(out))
def confusable_block(rng, ps, n, name):
    """elements of several fields with similar moduli used side by side"""
    L = ['%s f%d %x' % (rng.choice(['finit', 'finitfp']), i, rng.choice(ps)) for i in range(6)]
    cur = [None] * 6
    for _ in range(n):
        p = rng.choice(ps)
        i, j, k = rng.randrange(6), rng.randrange(6), rng.randrange(6)
        a = rng.choice([0, 1, p - 1, p - 2, rng.randrange(p), rng.randrange(p)])
        b = rng.choice([1, p - a, p - a - 1, p - 1, rng.randrange(p)]) % p
        L += ['fsetz f%d %x %x' % (i, p, a), 'fsetz f%d %x %x' % (j, p, b), 'fsame f%d %x' % (i, rng.choice(ps))]
        L.append(rng.choice(['fadd f%d f%d f%d' % (k, i, j), 'fsub f%d f%d f%d' % (k, i, j), 'fmul f%d f%d f%d' % (k, i, j), 'fneg f%d f%d' % (k, i), 'fsqr f%d f%d' % (k, j), 'faddui f%d f%d %x' % (k, i, rng.choice(UI))]))
    return Block(name, L + ['fclear f%d' % i for i in range(6)])

def word_block(rng, p):
    """a field of one word with machine words around all kinds of multiples of the prime"""
    m = ((1 << 64) - 1) // p
    ks = sorted({k for k in (0, 1, 2, 3, m // 2, m - 1, m, rng.randrange(m + 1)) if k >= 0})
    us = sorted({u for k in ks for u in (k * p - 1, k * p, k * p + 1, k * p + p // 2, k * p + p - 2) if 0 <= u < 1 << 64} | {(1 << 64) - 1, 1 << 63, (1 << 63) - 1, 1 << 32})
    L = ['finit f0 %x' % p, 'finit f1 %x' % p]
    for a in (0, 1, p - 1, p - 2, rng.randrange(p)):
        L.append('fsetz f0 %x %x' % (p, a))
        for u in us:
            for op in UIO:
                if op == 'fmului' and rng.random() < .6: continue
                L.append('%s f1 f0 %x' % (op, u))
    return Block('words p=%x' % p, L + ['fclear f0', 'fclear f1'])

def neg_exp_block(rng, p):
    L = ['finit f0 %x' % p, 'finit f1 %x' % p]
    for _ in range(4):
        L += ['fsetz f0 %x %x' % (p, rng.randrange(1, p)), 'fpow f1 f0 -%x' % rng.choice([1, 2, p - 2, rng.getrandbits(70) + 1]), 'fpow f0 f0 -1']
    return Block('negexp', L + ['fclear f0', 'fclear f1'])

def c01(c):
    c.model('MCBigInt', 'MCBigInt' + ('Deep' if c.thorough else ''))
    rng = c.rng
    exe = c.build_driver()
    ps = boundary_primes(rng, c.thorough) + named_primes()
    for b in ([3, 5, 8, 16, 31, 32, 33, 62, 63, 64, 65, 96, 127, 128, 129, 191, 192, 255, 257, 320, 383, 511, 513, 640, 767, 1000, 1023, 1024]):
        ps.append(randprime(rng, b) if b > 3 else rng.choice([5, 7]))
    ps += [3, 5, 7, 251, 257]
    n = 400 if c.thorough else 60
    blocks = []
    for rep in range(3 if c.thorough else 1):
        for p in ps:
            q = rng.choice(ps)
            blocks.append(arith_block(rng, p, q, n, 'arith p=%x q=%x' % (p, q)))
            blocks.append(neg_exp_block(rng, p))
    for i in range(30 if c.thorough else 10):
        f = confusable(rng, rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 8, 9]))
        blocks.append(confusable_block(rng, f, 150 if c.thorough else 60, 'confusable %d p=%x' % (i, f[0])))
    for b in [3, 8, 31, 32, 33, rng.randrange(34, 61), 61, 62, 63, 64]:
        hi, lo = (1 << b) - 1, (1 << (b - 1)) + 1
        while not is_prime(hi): hi -= 2
        while not is_prime(lo): lo += 2
        blocks += [word_block(rng, hi), word_block(rng, lo)]
    c.run_blocks(exe, blocks)
    tabs = []
    for p in ([3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 61, 127] if c.thorough else [3, 5, 7, 13, 31]):
        for op in ('add', 'sub', 'mul', 'addui', 'subui', 'mului', 'powui', 'sqr', 'neg'):
            for al in ((0, 1, 2) if op in ('add', 'sub', 'mul') else (0, 1)):
                tabs.append(Block('tab p=%d %s alias %d' % (p, op, al), ['ttab %x %s %d' % (p, op, al)], weight=p * p))
    c.run_blocks(exe, tabs, label='tab')
    c.extra['primes'] = len(set(ps))

def invsqrt_block(rng, p, n, name):
    L = ['finit f0 %x' % p, 'finit f1 %x' % p, 'finit f2 101']
    vals = values(rng, p)
    for _ in range(n):
        x = rng.choice(vals)
        k = rng.random()
        if k < .35: x = x * x % p
        elif k < .5: x = pow(x, 1 << rng.randrange(1, 70), p)
        L.append('fsetz f0 %x %x' % (p, x))
        d = rng.choice(['f1', 'f2', 'f0', 'f1'])
        L.append('%s %s f0' % (rng.choice(['finv', 'fsqrt', 'fsqrt']), d))
    return Block(name, L + ['fclear f0', 'fclear f1', 'fclear f2'])

def root_of_unity_block(rng, p, name):
    """elements of every 2-power order: each drives a different number of rounds of the root search"""
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    g = pow(z, q, p)
    L = ['finit f0 %x' % p, 'finit f1 %x' % p]
    for i in range(s + 1):
        y = pow(g, 1 << i, p)
        for m in (1, rng.randrange(2, p)):
            x = y * pow(m, 1 << s, p) % p
            L += ['fsetz f0 %x %x' % (p, x), 'fsqrt f1 f0', 'fsqrt f0 f0']
    return Block(name, L + ['fclear f0', 'fclear f1'])

def c02(c):
    rng = c.rng
    exe = c.build_driver()
    blocks = []
    n = 150 if c.thorough else 30
    ps = boundary_primes(rng, c.thorough) + named_primes() + [2, 2, 3, 5, 7, 13, 17, 97, 193, 257, 65537, P224]
    for b in (16, 33, 64, 65, 128, 129, 200, 256, 300, 384, 521, 640, 1023, 1024): ps.append(randprime(rng, b))
    for p in ps: blocks.append(invsqrt_block(rng, p, n, 'inv/sqrt p=%x' % p))
    adic = [(64, 2), (64, 3), (64, 31), (64, 32), (65, 33), (80, 34), (96, 48), (100, 62), (100, 63), (128, 64), (128, 65), (160, 96), (224, 96), (256, 128), (300, 130), (521, 200), (1024, 40)]
    if c.thorough: adic += [(b, s) for b in (128, 256, 512) for s in (2, 5, 30, 33, 61, 66, 100)]
    for b, s in adic:
        p = prime_2adic(rng, b, s)
        blocks.append(root_of_unity_block(rng, p, '2-adicity %d p=%x' % (s, p)))
        blocks.append(invsqrt_block(rng, p, n, 'inv/sqrt 2-adicity %d p=%x' % (s, p)))
    blocks.append(root_of_unity_block(rng, P224, 'P-224 prime'))
    c.run_blocks(exe, blocks, alarm=20)
    tabs = []
    sm = [2] + [q for q in SMALLP if 2 < q < (400 if c.thorough else 130)] + [257, 193]
    for p in sm:
        for op in ('inv', 'sqrt'):
            for al in (0, 1): tabs.append(Block('tab %s p=%d' % (op, p), ['ttab %x %s %d' % (p, op, al)], weight=p))
    c.run_blocks(exe, tabs, label='tab', alarm=20)
    c.extra['primes'] = len(set(ps)) + len(adic) + len(sm)

def conv_block(rng, p, q, n, name):
    L = ['finit f0 %x' % p, 'finitfp f1 %x' % p, 'finit f2 %x' % q, 'finit f3 %x' % p]
    vals, us = values(rng, p), uis(rng, p)
    ints = vals + [-v for v in vals] + [p, -p, 2 * p, -2 * p, p * p, -p * p, p + 1, -p - 1, 1 << 64, -(1 << 64), 1 << 2100, -(1 << 2100) - 1]
    ints += [rng.getrandbits(rng.randrange(1, 2200)) * rng.choice([1, -1]) for _ in range(6)]
    for h in ('f0', 'f1', 'f3'): L.append('fsetz %s %x %s' % (h, p, hx(rng.choice(ints))))
    cur = {'f0', 'f1', 'f3'}
    L.append('fsetz f2 %x %s' % (q, hx(rng.choice(ints))))
    for _ in range(n):
        k = rng.random()
        h = rng.choice(['f0', 'f1', 'f2', 'f3'])
        if k < .3:
            how = rng.choice(['fsetz', 'fsetzfp'])
            f = rng.choice([p, p, p, q])
            L.append('%s %s %x %s' % (how, h, f, hx(rng.choice(ints))))
            (cur.add if f == p else cur.discard)(h)
            if p == q: cur.add(h)
        elif k < .45:
            f = rng.choice([p, p, p, q])
            L.append('%s %s %x %x' % (rng.choice(['fsetui', 'fsetuifp']), h, f, rng.choice(us)))
            (cur.add if f == p else cur.discard)(h)
            if p == q: cur.add(h)
        elif k < .5:
            g = rng.choice(['f0', 'f1', 'f2', 'f3'])
            L.append('fset %s %s' % (h, g))
            (cur.add if g in cur else cur.discard)(h)
        elif k < .58: L.append('fget %s %s' % (h, hx(rng.choice(ints))))
        elif k < .63: L.append('ftst %s %d' % (h, rng.choice([0, 1, 62, 63, 64, 65, 127, 128, p.bit_length() - 1, p.bit_length(), rng.randrange(p.bit_length() + 100)])))
        elif k < .7: L.append('fcmpui %s %x' % (h, rng.choice(us)))
        elif k < .74: L.append('fsame %s %x' % (h, rng.choice([p, q])))
        elif k < .8:
            v = rng.choice(vals)
            L.append('fsetz %s %x %x' % (h, p, v)); cur.add(h)
            L.append('fcmpz %s %s' % (h, hx(rng.choice([v, -v, v + p, v + 1, v + (1 << 64), v ^ (1 << rng.randrange(p.bit_length() + 64))]))))
            if v < 1 << 64: L.append('fcmpui %s %x' % (h, v))
            L.append('fcmpui %s %x' % (h, v & ((1 << 64) - 1)))
        elif len(cur) >= 2:
            a, b = rng.sample(sorted(cur), 2)
            if k < .9:
                if rng.random() < .5:
                    v = rng.choice(vals)
                    L.append('fsetz %s %x %x' % (a, p, v))
                    L.append('fsetz %s %x %x' % (b, p, rng.choice([v, v ^ 1, v ^ (1 << rng.randrange(p.bit_length()))])))
                L.append('fcmp %s %s' % (a, b))
            elif k < .93: L.append('fcmp %s %s' % (a, a))
            elif k < .96: L.append('fswap %s %s' % (a, rng.choice([a, b, b])))
            else: L.append('fcswap %s %s %d' % (a, rng.choice([a, b, b]), rng.choice([0, 1, 1, 2, -1, 256, 65536])))
    return Block(name, L + ['fclear f%d' % i for i in range(4)])

def limb_cmp_block(rng, p, rounds, name):
    """comparisons of elements and integers which agree in all words but one, or in a prefix of the words"""
    L = ['finit f0 %x' % p, 'finit f1 %x' % p]
    nl = (p.bit_length() + 63) // 64
    M = (1 << 64) - 1
    for i in range(rounds):
        for k in range(nl):
            v = rng.randrange(p)
            r = rng.random()
            if r < .4: v = (rng.choice([1, 1, rng.getrandbits(64)]) << (64 * k)) + rng.choice([0, 5, M, rng.getrandbits(64)])   # one word set besides the lowest
            elif r < .6: v = sum(rng.choice([0, 0, 1, M]) << (64 * j) for j in range(nl))
            v %= p
            L.append('fsetz f0 %x %x' % (p, v))
            o = [v & ((1 << (64 * k)) - 1), v & ~(M << (64 * k)), v ^ (1 << (64 * k + rng.randrange(64))), v >> 64, v + (1 << (64 * nl)), v & M, v]
            L += ['fcmpz f0 %x' % w for w in o] + ['fcmpui f0 %x' % (v & M), 'fcmpui f0 0', 'fcmpz f0 0']
            for w in rng.sample(o, 3):
                if w < p: L += ['fsetz f1 %x %x' % (p, w), 'fcmp f0 f1', 'fcmp f1 f0']
    return Block(name, L + ['fclear f0', 'fclear f1'])

def c03(c):
    rng = c.rng
    exe = c.build_driver()
    ps = boundary_primes(rng, c.thorough) + named_primes() + [3, 5, 7, 251, 257]
    for b in (8, 31, 33, 63, 65, 100, 127, 129, 200, 257, 400, 513, 700, 1023, 1024): ps.append(randprime(rng, b))
    # 1-bit neighbours and equal-length fields: easily confused moduli
    n = 300 if c.thorough else 70
    blocks = []
    for rep in range(3 if c.thorough else 1):
        for i, p in enumerate(ps):
            q = rng.choice([rng.choice(ps), nextprime(p) if p.bit_length() < 1024 else ps[0]])
            blocks.append(conv_block(rng, p, q, n, 'conv p=%x q=%x' % (p, q)))
            blocks.append(limb_cmp_block(rng, p, 4 if c.thorough else 1, 'limbs p=%x' % p))
    for i in range(12 if c.thorough else 4):
        f = confusable(rng, rng.choice([1, 2, 3, 4, 5, 6, 9]))
        for j in range(len(f)): blocks.append(conv_block(rng, f[j], f[j - 1], 25, 'confusable p=%x q=%x' % (f[j], f[j - 1])))
    c.run_blocks(exe, blocks)
    c.run_blocks(exe, [Block('tab cmp %d' % p, ['ttab %x cmp 0' % p], weight=p * p) for p in ([3, 5, 7, 31, 61, 127] if c.thorough else [3, 7, 31])], label='tab')
    c.extra['primes'] = len(set(ps))
