"""C09-C11: ECDSA and ElGamal."""
from vlib import Block
from nums import *
from gen_point import G, small_curves, set_pt, rand_on, torsion, load, ndef, lift, enc_bytes, any_small, neg_y
HSZ = [1, 2, 3, 4, 8, 16, 20, 21, 28, 32, 48, 64, 66, 72]

def near_hsz(n):
    w = (n.bit_length() + 7) // 8
    c = sorted(HSZ, key=lambda h: abs(h - w))
    return c[:4] + [1, 72]
def dig(msg, hsz): return bytes(msg[i % len(msg)] for i in range(hsz))
def dint(n, d):
    e = int.from_bytes(d, 'big'); x = 8 * len(d) - n.bit_length()
    return e >> x if x > 0 else e
def msgs(rng, n, hsz):
    w = (n.bit_length() + 7) // 8
    m = [b'\0', b'\xff', b'\0\1', b'\x80', rng.randbytes(hsz), rng.randbytes(rng.randrange(1, 100)), b'\xff' * 40]
    # digest equal to / around the order, and around multiples that reduce to 0 and 1
    for d in (0, 1, -1):
        v = (n + d) << (8 * w - n.bit_length())
        if hsz >= w and v < 256 ** w: m.append(v.to_bytes(w, 'big') + bytes(hsz - w))
    if hsz >= 2: m.append(b'\0' * (hsz - 1) + b'\1')
    return m
def sigb(n, r, s):
    w = (n.bit_length() + 7) // 8
    return r.to_bytes(w, 'big') + s.to_bytes(w, 'big')

def ecdsa_block(rng, c, rounds, name, others):
    n = c['n']
    hs = rng.choice(near_hsz(n)); hs2 = rng.choice([h for h in near_hsz(n) if h != hs])
    L = ['cinit c0', ndef('c0', c), 'cinit c1', cdef('c1', c), 'cinit c2', ndef('c2', rng.choice(others)), 'sch s0 c0 %d' % hs, 'sch s1 c1 %d' % hs2,
         'finit f0 %x' % n, 'finit f1 %x' % n, 'finit f2 11', 'pinit p0 c0', 'pinit p1 c0', 'pinit p2 c0', 'pinit p3 c2', 'psetz p0 %x %x c0' % G(c)]
    o = next(k for k in others if k['n'] != n)
    L += ['cclear c2', 'cinit c2', ndef('c2', o), 'psetz p3 %x %x c2' % G(o), 'fsetz f2 %x 5' % o['n']]
    for i in range(rounds):
        d = rng.choice([1, 2, n - 1, n - 2, rng.randrange(1, n), rng.randrange(1, n), rng.randrange(1, n)]) % n
        if rng.random() < .04: d = 0
        L += ['fsetz f0 %x %x' % (n, d), rng.choice(['pmul p1 p0 f0', 'pbmul p1 p0 f0'])]
        sc, h, hother = rng.choice([('s0', hs, hs2), ('s1', hs2, hs)])
        m = rng.choice(msgs(rng, n, h))
        M = m.hex()
        if n < 300 and not can_sign(c, d, dint(n, dig(m, h))): continue
        if d == 0 and dint(n, dig(m, h)) % n == 0: continue         # no nonce at all
        L += ['sign g0 %s f0 %s' % (sc, M), 'verify g0 p1 %s' % M, 'sexp g0', 'sexps g0']
        # other messages: with the same digest, with one bit changed inside / outside of the used bits
        L.append('verify g0 p1 %s' % (m * 2).hex())
        dg = bytearray(dig(m, h)); bit = rng.randrange(8 * h); dg[bit // 8] ^= 128 >> (bit % 8)
        L.append('verify g0 p1 %s' % dg.hex())
        if n.bit_length() - 2 < 8 * h:
            for bit in (n.bit_length() - 1, n.bit_length()):
                if 0 <= bit < 8 * h: dg = bytearray(dig(m, h)); dg[bit // 8] ^= 128 >> (bit % 8); L.append('verify g0 p1 %s' % dg.hex())
        # other keys
        r = rng.random()
        if r < .3: L += ['pneg p2 p1', 'verify g0 p2 %s' % M]
        elif r < .6: L += ['padd p2 p1 p0', 'verify g0 p2 %s' % M]
        elif r < .7: L += ['pneut p2 c0', 'verify g0 p2 %s' % M]
        elif r < .8: L += ['psetz p2 %x %x c1' % G(c), 'verify g0 p2 %s' % M]
        elif r < .9: L += [set_pt('p2', rng.choice(torsion(rng, c)) if c['p'] > 65536 else G(c), 'c0'), 'padd p2 p2 p1', 'verify g0 p2 %s' % M]
        else: L += ['verify g0 p3 %s' % M, 'verify g0 p1 -', 'sign g1 %s f2 %s' % (sc, M), 'sign g1 %s f0 -' % sc]
        # signatures made outside: valid ones for known nonces and near misses
        k = rng.choice([1, 2, n - 1, rng.randrange(1, n)])
        R = mul(c, k, G(c))
        e = dint(n, dig(m, h))
        if R is not None and R[0] % n:
            rr = R[0] % n
            s = inv(k, n) * (e + rr * d) % n
            cand = [(rr, s), (rr, (n - s) % n), (s, rr), ((rr + 1) % n, s), (rr, (s + 1) % n), (1, 1), (n - 1, n - 1), (n - rr, s), (rr, 1), (rr ^ 1, s)]
            for (a, b) in cand[:1] + rng.sample(cand[1:], 4):
                if 0 < a < n and 0 < b < n: L += ['simp g2 %s %s' % (sc, sigb(n, a, b).hex()), 'verify g2 p1 %s' % M, 'sigclear g2']
        # u1*G + u2*Q is the neutral element
        if e % n:
            u1 = rng.randrange(1, n)
            X = mul(c, u1, G(c))
            rs = [rng.randrange(1, n), 1]
            if X is not None: rs += [X[0] % n, X[0] % n, X[1] % n]
            if c['t'] == 'mo': rs += [(-c['b'] * inv(3, c['p'])) % c['p'] % n] * 2
            if c['t'] == 'ed': rs.append(c['a'] % n)
            r0 = rng.choice(rs)
            if r0 % n:
                d0 = -e * inv(r0, n) % n
                s0 = e * inv(u1, n) % n
                if d0 and s0: L += ['fsetz f1 %x %x' % (n, d0), 'pmul p2 p0 f1', 'simp g2 %s %s' % (sc, sigb(n, r0, s0).hex()), 'verify g2 p2 %s' % M, 'sigclear g2']
        L.append('sigclear g0')
    return Block(name, L + ['schclear s0', 'schclear s1'] + ['pclear p%d' % i for i in range(4)] + ['fclear f%d' % i for i in range(3)] + ['cclear c%d' % i for i in range(3)],
                 weight=rounds * (60 + c['p'].bit_length() ** 2 // 1500))
def small_sign_block(rng, c, name, rounds=1):
    """every key of a small group; small orders make r = 0 and s = 0 retries common"""
    n = c['n']
    L = ['cinit c0', cdef('c0', c), 'sch s0 c0 %d' % rng.choice([1, 2, 3]), 'finit f0 %x' % n, 'pinit p0 c0', 'pinit p1 c0', 'psetz p0 %x %x c0' % G(c)]
    for _ in range(rounds):
        for d in range(n if n < 40 else 12):
            if n >= 40: d = rng.randrange(n)
            m = rng.randbytes(rng.randrange(1, 5))
            if not signable(c, d): continue
            L += ['fsetz f0 %x %x' % (n, d), 'pmul p1 p0 f0']
            L += ['sign g0 s0 f0 %s' % m.hex(), 'verify g0 p1 %s' % m.hex(), 'sexp g0', 'sigclear g0']
    return Block(name, L + ['schclear s0', 'pclear p0', 'pclear p1', 'fclear f0', 'cclear c0'])
def can_sign(c, d, e):
    """some nonce gives nonzero r and s"""
    for k in range(1, c['n']):
        R = mul(c, k, G(c))
        if R is not None and R[0] % c['n'] and (e + R[0] % c['n'] * d) % c['n']: return True
    return False
def signable(c, d):
    """some nonce gives nonzero r and s whatever the digest: two nonces with different r*d... (tiny groups may have none)"""
    n = c['n']
    seen = set()
    for k in range(1, n):
        R = mul(c, k, G(c))
        if R is not None and R[0] % n: seen.add(R[0] % n * d % n)
    return len(seen) >= 2
def c09(c):
    c.model('MCSchemes', 'MCSchemes' + ('Deep' if c.thorough else ''))
    rng, exe = c.rng, c.build_driver()
    bl = []
    for k, pts in small_curves(rng, [5, 7, 11, 13, 17, 19, 23] if c.thorough else [7, 11, 13], per=3 if c.thorough else 1):
        if k['n'] > 40: continue
        L = ['cinit c0', cdef('c0', k), load('c0', k, pts)]
        for _ in range(4 if c.thorough else 2):
            h = rng.choice([1, 1, 2, 4]); L.append('tver %d %s' % (h, rng.randbytes(h).hex()))
        L.append('tver 1 00')
        bl.append(Block('all signatures %s p=%d n=%d' % (k['t'], k['p'], k['n']), L + ['tfree', 'cclear c0'], weight=len(pts) * k['n'] ** 2))
    for k, pts in small_curves(rng, [7, 11, 13, 31, 61, 127, 251] if c.thorough else [11, 31, 127], per=2):
        bl.append(small_sign_block(rng, k, 'small sign %s p=%d n=%d' % (k['t'], k['p'], k['n']), 4 if c.thorough else 1))
    c.run_blocks(exe, bl, label='tab')
    nm = list(named().values())
    bl = []
    for k in nm: bl.append(ecdsa_block(rng, k, 16 if c.thorough else (3 if k['p'].bit_length() < 300 else 2), 'ecdsa ' + k['name'], nm))
    for k, _ in small_curves(rng, [251] if not c.thorough else [127, 241, 251], per=2):
        if signable(k, 1) and k['n'] > 6: bl.append(ecdsa_block(rng, k, 20, 'ecdsa small %s n=%d' % (k['t'], k['n']), nm))
    c.run_blocks(exe, bl, label='sig')

# ---------------------------------------------------------------- C10
def import_block(rng, c, m, name):
    n = c['n']; w = (n.bit_length() + 7) // 8; lim = 256 ** w
    L = ['cinit c0', ndef('c0', c), 'sch s0 c0 32']
    edge = [0, 1, 2, n - 1, n, n + 1, n - 2, lim - 1, lim - 2, n >> 1, 1 << (n.bit_length() - 1), 255, 256, lim >> 1, (lim >> 8), (lim >> 8) - 1, n ^ (1 << 7)]
    def val(): return rng.choice(edge) % lim if rng.random() < .6 else (rng.randrange(n) if rng.random() < .7 else rng.getrandbits(rng.randrange(1, 8 * w + 1)))
    for i in range(m):
        r, s = val(), val()
        b = r.to_bytes(w, 'big') + s.to_bytes(w, 'big')
        x = rng.random()
        if x < .12: b = rng.choice([b[:-1], b + b'\0', b'\0' + b, b[1:], b[:w], b'', b * 2, b[:-2], b + b'\0\0'])
        if rng.random() < .5: L.append('simp g0 s0 %s' % (b.hex() or '-'))
        else:
            t = b.hex()
            y = rng.random()
            if y < .3: t = t.upper()
            elif y < .4: t = ''.join(ch.upper() if rng.random() < .5 else ch for ch in t)
            elif y < .7 and t:
                i = rng.randrange(len(t)); t = t[:i] + rng.choice(' gGx-+@`/:\t\n.') + t[i + 1:]
            elif y < .75: t = t[:-1]
            elif y < .8: t = t + '0'
            elif y < .85: t = '0x' + t[2:]
            L.append('simps g0 s0 %s' % (t.encode().hex() or '-'))
            ok = all(ch in '0123456789abcdefABCDEF' for ch in t) and len(t) == 4 * w
            if not ok: continue
            b = bytes.fromhex(t)
        if len(b) == 2 * w and 0 < int.from_bytes(b[:w], 'big') < n and 0 < int.from_bytes(b[w:], 'big') < n:
            L += ['sexp g0', 'sexps g0', 'sigclear g0']
    return Block(name, L + ['schclear s0', 'cclear c0'])
def round_block(rng, c, m, name):
    n = c['n']
    L = ['cinit c0', ndef('c0', c), 'sch s0 c0 20', 'finit f0 %x' % n]
    for _ in range(m):
        L += ['fsetz f0 %x %x' % (n, rng.randrange(1, n)), 'sign g0 s0 f0 %s' % rng.randbytes(5).hex(), 'sexp g0', 'sexps g0', 'sigclear g0']
    return Block(name, L + ['fclear f0', 'schclear s0', 'cclear c0'])
def c10(c):
    rng, exe = c.rng, c.build_driver()
    bl = []
    for k, pts in small_curves(rng, [5, 7, 13, 19, 31, 61, 127, 251] if c.thorough else [7, 13, 127]):
        if len(pts) > 390: continue
        L = ['cinit c0', cdef('c0', k), load('c0', k, pts[:2]), 'timp 0', 'timp 1', 'timp 2'] + (['timp 3'] if c.thorough else [])
        bl.append(Block('all imports %s n=%d' % (k['t'], k['n']), L + ['tfree', 'cclear c0'], weight=1000))
    nm = list(named().values())
    for k in nm:
        bl.append(import_block(rng, k, 400 if c.thorough else 60, 'imports ' + k['name']))
        bl.append(round_block(rng, k, 12 if c.thorough else 2, 'signed exports ' + k['name']))
    # orders of every length modulo eight bits
    for b in (range(60, 140) if c.thorough else range(61, 78)):
        P = randprime(rng, 140)
        k = dict(nm[0]); k.pop('name'); k['n'] = randprime(rng, b)
        bl.append(import_block(rng, k, 60 if c.thorough else 20, 'imports order of %d bits' % b))
    c.run_blocks(exe, bl)

# ---------------------------------------------------------------- C11
def elgamal_block(rng, c, rounds, name, others):
    n = c['n']
    o = next(k for k in rng.sample(others, len(others)) if k['n'] != n)
    L = ['cinit c0', ndef('c0', c), 'cinit c1', cdef('c1', c), 'cinit c2', ndef('c2', o), 'finit f0 %x' % n, 'finit f1 %x' % o['n'], 'fsetz f1 %x %x' % (o['n'], rng.randrange(o['n']))]
    L += ['pinit p0 c0', 'psetz p0 %x %x c0' % G(c), 'pinit p1 c0', 'pinit p2 c0', 'pinit p3 c2', 'psetz p3 %x %x c2' % G(o)]
    T = torsion(rng, c) if c['p'] > 65536 else [neutral(c)]
    for i in range(rounds):
        d = rng.choice([1, n - 1, rng.randrange(n), rng.randrange(n), 0 if rng.random() < .2 else 1])
        L += ['fsetz f0 %x %x' % (n, d), 'pmul p1 p0 f0']
        M = rng.choice([neutral(c), G(c), rng.choice(T), rand_on(rng, c), rand_on(rng, c), mul(c, d, G(c)), neg(c, mul(c, d, G(c)))])
        ch = rng.choice(['c0', 'c0', 'c1'])
        L.append(set_pt('p2', M, ch))
        if rng.random() < .3: L += ['padd p2 p2 p0', 'psub p2 p2 p0'] if ch == 'c0' else []
        L += ['enc e0 p1 p2 f0', 'dec p5 f0 e0', 'pcmp p5 p2', 'pclear p5']
        r = rng.random()
        if r < .3: L += ['enc e1 p1 p3', 'enc e1 p3 p1', 'dec p5 f1 e0']
        elif r < .5: L += ['enc e1 p2 p2', 'ctclear e1'] if M != neutral(c) else []
        elif r < .9:      # decryption of arbitrary pairs
            A, B = rng.choice([rand_on(rng, c), rng.choice(T), neutral(c), G(c)]), rng.choice([rand_on(rng, c), rng.choice(T), neutral(c)])
            if rng.random() < .3: B = mul(c, d, A)
            L += [set_pt('p2', A, rng.choice(['c0', 'c1'])), 'pinit p4 c0', set_pt('p4', B, rng.choice(['c0', 'c1'])), 'ctmake e1 p2 p4', 'dec p5 f0 e1', 'pclear p5', 'dec p5 f1 e1', 'pclear p4', 'ctclear e1']
            if rng.random() < .5: L += ['ctmake e1 p2 p3', 'dec p5 f0 e1', 'ctclear e1', 'ctmake e1 p3 p2', 'dec p5 f0 e1', 'dec p5 f1 e1', 'ctclear e1']
        L.append('ctclear e0')
    return Block(name, L + ['pclear p%d' % i for i in range(4)] + ['fclear f0', 'fclear f1'] + ['cclear c%d' % i for i in range(3)], weight=rounds * (20 + c['p'].bit_length() ** 2 // 2000))
def c11(c):
    c.model('MCSchemes', 'MCSchemes' + ('Deep' if c.thorough else ''))
    rng, exe = c.rng, c.build_driver()
    nm = list(named().values())
    bl = []
    for k in nm: bl.append(elgamal_block(rng, k, 24 if c.thorough else (5 if k['p'].bit_length() < 300 else 3), 'elgamal ' + k['name'], nm))
    for k, _ in small_curves(rng, [5, 7, 11, 13, 17, 31, 61, 127, 251] if c.thorough else [7, 13, 31, 251], per=2):
        if k['n'] > 2: bl.append(elgamal_block(rng, k, 40 if c.thorough else 15, 'elgamal small %s p=%d n=%d' % (k['t'], k['p'], k['n']), nm))
    c.run_blocks(exe, bl)
