"""Number theory and tiny-curve enumeration used to CHOOSE test inputs (never to judge results)."""
import random, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMALLP = [q for q in range(3, 400, 2) if all(q % d for d in range(3, int(q ** .5) + 1, 2))]

def is_prime(n):
    if n < 2: return False
    for q in [2] + SMALLP:
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)[:6 if n.bit_length() > 300 else 12]:
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def prevprime(n):
    n -= 1
    if n % 2 == 0: n -= 1
    while not is_prime(n): n -= 2
    return n
def nextprime(n):
    n += 1
    if n % 2 == 0: n += 1
    while not is_prime(n): n += 2
    return n
def randprime(rng, bits):
    while True:
        n = rng.getrandbits(bits) | 1 | (1 << (bits - 1))
        if is_prime(n): return n
def prime_2adic(rng, bits, s):
    """a prime of about `bits` bits with p-1 divisible by 2^s exactly"""
    while True:
        k = rng.getrandbits(max(bits - s, 2)) | 1 | (1 << (max(bits - s, 2) - 1))
        n = (k << s) + 1
        if is_prime(n): return n

def sqrt_mod(a, p):
    a %= p
    if a == 0: return 0
    if p == 2: return a
    if pow(a, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1: u = u * u % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r

def inv(a, p): return pow(a, -1, p)

# ---- curves: dict t p a b n h gx gy bits --------------------------------------
def on_curve(c, P):
    if P is None: return c['t'] in ('ws', 'mo')
    p, a, b = c['p'], c['a'], c['b']
    x, y = P
    if c['t'] == 'ws': return (y * y - (x * x * x + a * x + b)) % p == 0
    if c['t'] == 'mo': return (a * y * y - (x * x * x + b * x * x + x)) % p == 0
    if c['t'] == 'ed': return (x * x + y * y - a * a * (1 + b * x * x * y * y)) % p == 0
    return (a * x * x + y * y - 1 - b * x * x * y * y) % p == 0
def neutral(c):
    return None if c['t'] in ('ws', 'mo') else ((0, c['a'] % c['p']) if c['t'] == 'ed' else (0, 1))
def neg(c, P):
    if P is None: return None
    x, y = P
    return (x, -y % c['p']) if c['t'] in ('ws', 'mo') else (-x % c['p'], y)
def add(c, P, Q):
    p, a, b = c['p'], c['a'], c['b']
    if c['t'] in ('ws', 'mo'):
        if P is None: return Q
        if Q is None: return P
        (x1, y1), (x2, y2) = P, Q
        if x1 == x2 and (y1 + y2) % p == 0: return None
        if c['t'] == 'ws':
            l = (3 * x1 * x1 + a) * inv(2 * y1, p) if x1 == x2 else (y2 - y1) * inv(x2 - x1, p)
            x = (l * l - x1 - x2) % p
        else:
            l = (3 * x1 * x1 + 2 * b * x1 + 1) * inv(2 * a * y1, p) if x1 == x2 else (y2 - y1) * inv(x2 - x1, p)
            x = (a * l * l - b - x1 - x2) % p
        return (x, (l * (x1 - x) - y1) % p)
    (x1, y1), (x2, y2) = P, Q
    e = b * x1 * x2 * y1 * y2
    if c['t'] == 'ed':
        return ((x1 * y2 + x2 * y1) * inv(a * (1 + e), p) % p, (y1 * y2 - x1 * x2) * inv(a * (1 - e), p) % p)
    return ((x1 * y2 + x2 * y1) * inv(1 + e, p) % p, (y1 * y2 - a * x1 * x2) * inv(1 - e, p) % p)
def mul(c, k, P):
    R = neutral(c)
    while k:
        if k & 1: R = add(c, R, P)
        P = add(c, P, P); k >>= 1
    return R
def points(c):
    p = c['p']
    pts = [(x, y) for x in range(p) for y in range(p) if on_curve(c, (x, y))]
    return ([None] if c['t'] in ('ws', 'mo') else []) + pts
def complete(c):
    p, a, b = c['p'], c['a'] % c['p'], c['b'] % c['p']
    leg = lambda v: pow(v % p, (p - 1) // 2, p)
    if c['t'] == 'ws': return (4 * a ** 3 + 27 * b * b) % p != 0
    if c['t'] == 'mo': return a != 0 and (b * b - 4) % p != 0
    if c['t'] == 'ed': return a != 0 and b != 0 and (1 - b * a ** 4) % p != 0 and leg(b) == p - 1
    return a != 0 and b != 0 and a != b and leg(a) == 1 and leg(b) == p - 1
def order_of(c, P):
    n, Q, O = 1, P, neutral(c)
    while Q != O: Q = add(c, Q, P); n += 1
    return n
def find_small(rng, t, p, want=None, tries=4000):
    """a random complete curve of form t over F_p whose group has a prime-order generator, with all its points"""
    for _ in range(tries):
        c = dict(t=t, p=p, a=rng.randrange(p), b=rng.randrange(p))
        if want and not want(c): continue
        if not complete(c): continue
        pts = points(c)
        N = len(pts)
        cand = pts[:]
        rng.shuffle(cand)
        best = None
        for G in cand:
            if G is None: continue
            n = order_of(c, G)
            if n > 2 and is_prime(n) and (best is None or n > best[0]): best = (n, G)
            if best and best[0] * best[0] > N: break
        if best is None: continue
        c.update(n=best[0], h=N // best[0], gx=best[1][0], gy=best[1][1], bits=p.bit_length(), N=N)
        return c, pts
    raise ValueError('no curve found')

def named():
    """published parameters from the specification's table"""
    s = open(V + '/spec/Named.tla').read()
    out = {}
    for m in re.finditer(r'<<"([^"]+)", "(\w\w)",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)",\s*"(\w+)", "(\w+)",\s*"(\w+)",\s*"(\w+)", (\d+)>>', s):
        p, a, b, n, h, gx, gy = [int(v, 16) for v in m.groups()[2:9]]
        out[m[1]] = dict(name=m[1], t=m[2], p=p, a=a, b=b, n=n, h=h, gx=gx, gy=gy, bits=int(m[10]))
    return out
def hx(v): return '-%x' % -v if v < 0 else '%x' % v
def cdef(h, c, how='z'):
    return 'cdef %s %s %s %s %s %s %s %s %s %s %d' % (h, how, c['t'], hx(c['p']), hx(c['a']), hx(c['b']), hx(c['n']), hx(c['h']), hx(c['gx']), hx(c['gy']), c['bits'])
def cnamed(h, name): return 'cnamed %s %s' % (h, name.encode().hex())
