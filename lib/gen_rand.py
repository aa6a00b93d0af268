"""C13: randomness, under a controlled source."""
from vlib import Block
from nums import *
from gen_point import G, small_curves, set_pt, rand_on, ndef
RFLAGS = ['-DWITH_RND', '-U_FORTIFY_SOURCE', '-I/verif/driver']

def bounds(rng, b):
    """bounds of b bits: low, middle, just under and at powers of two"""
    lo = 1 << (b - 1)
    out = [lo + (lo >> 1), lo, 2 * lo - 1, lo + 1, rng.randrange(lo, lo + (lo >> 1)) if b > 2 else lo, rng.randrange(lo, 2 * lo)]
    return [n for n in dict.fromkeys(out) if n >= 1]

def stat_blocks(rng, thorough):
    bl = []
    seed = lambda: rng.randrange(1, 1 << 48)
    # all bit lengths: range, consumption, both halves reached, all bytes of the stream used
    lens = list(range(1, 530)) + [536, 544, 575, 576, 577, 600, 639, 640, 641, 704, 767, 768, 769, 800, 896, 1000, 1023, 1024, 1025, 1500, 2048]
    L = []
    for b in lens:
        ns = bounds(rng, b)
        for n in ns if thorough or b < 20 else [ns[0], rng.choice(ns)]:
            L.append('zstat z %x 64 %x' % (n, seed()))
            if rng.random() < (1 if thorough else .3): L.append('zflip %x %x %d' % (n, seed(), 0))
            if rng.random() < .05: L.append('zflip %x %x %d' % (n, seed(), rng.choice([1, 3, 7, 16])))
    rng.shuffle(L)
    k = 16
    for i in range(k): bl.append(Block('bit lengths %d' % i, L[i::k], weight=len(L[i::k]) * 10))
    # distribution: many draws for few bounds
    big = 1500
    for b in ([13, 16, 17, 24, 32, 33, 40, 48, 63, 64, 65, 72, 96, 112, 128, 129, 160, 192, 224, 225, 255, 256, 257, 320, 384, 448, 511, 512, 521, 768, 1024] if thorough
              else rng.sample([13, 16, 17, 24, 32, 33, 63, 64, 65, 72], 4) + rng.sample([96, 112, 128, 129, 160, 192, 225], 3) + rng.sample([255, 256, 257, 320, 384, 521], 3)):
        lo = 1 << (b - 1)
        for n in [lo + (lo >> 1) + 1, lo + (lo >> 2) + rng.randrange(lo >> 3)][:2 if thorough or b < 100 else 1]:
            bl.append(Block('distribution below %d bits' % b, ['zstat z %x %d %x' % (n, big, seed())], weight=300 + b * 6))
    for p in [rprime(rng, b) for b in (20, 61, 127, 192)]:
        bl.append(Block('field elements', ['zstat f %x %d %x' % (p, big, seed())], weight=900))
    for p in [3, 5, 7, 11, 13, 31, 61]:
        bl.append(Block('small field', ['zstat f %x %d %x' % (p, 3000, seed()), 'zstat z %x %d %x' % (p, 3000, seed()), 'zstat z %x 3000 %x' % (p + 1, seed())], weight=100))
    # exhaustive over the first two bytes of the stream
    for n in [2, 3, 5, 6, 7, 10, 13, 16, 48, 64, 100, 129, 160, 192, 200, 251, 255, 256] + ([257, 300, 384, 500] if thorough else []):
        bl.append(Block('all two-byte streams below %d' % n, ['zhist %x 2' % n, 'zhist %x 1' % n if n < 1 else 'zstat z %x 64 1' % n], weight=100))
    return bl

def rprime(rng, b):
    while True:
        n = rng.randrange(1 << (b - 1), (1 << (b - 1)) + (1 << (b - 2))) | 1
        if is_prime(n): return n

def fault_block(rng, thorough):
    L = []
    big = (1 << 255) + rng.randrange(1 << 254)
    what = [('z', '%x' % big), ('f', '%x' % rprime(rng, 192)), ('p', 'secp192r1'), ('s', 'secp192r1'), ('e', 'secp192r1'), ('p', 'curve25519'), ('s', 'brainpoolP160r1'), ('e', 'E-222'), ('z', '5')]
    names = named()
    for w, a in what:
        if w in 'pse' and a not in names: continue
        bits = {'z': big.bit_length(), 'f': 192}.get(w, 192)
        if a == '5': bits = 3
        L.append('zfault ok 0 %s %s 3' % (w, a))
        L.append('zfault missing 0 %s %s 2' % (w, a))
        by = (bits + 7) // 8
        for k in sorted(set([0, 1, 2, by // 2, by - 1, 2 * by - 1, 2 * by, 3 * by])):
            if not thorough and k not in (0, 1, by - 1) and rng.random() < .5: continue
            L.append('zfault %s %d %s %s 3' % (rng.choice(['eof', 'err']) if not thorough else 'eof', k, w, a))
            if thorough: L.append('zfault err %d %s %s 3' % (k, w, a))
        for k in (1, 5): L.append('zfault chunk %d %s %s 2' % (k, w, a))
    return Block('failing source', L, weight=4000)

def fork_block(rng):
    L = []
    for n in (1 << 256, rprime(rng, 192), (1 << 64) - 59):
        for before in (0, 1, 5): L.append('zfork %x %d 8' % (n, before))
    L.append('rsrc real')
    return Block('parent and child processes', L, weight=50)

def nonce_small(rng, c, N, name):
    n = c['n']
    L = ['cinit c0', cdef('c0', c), 'sch s0 c0 2', 'finit f0 %x' % n, 'pinit p0 c0', 'pinit p1 c0', 'psetz p0 %x %x c0' % G(c)]
    L += ['rsrc prng %x' % rng.randrange(1, 1 << 40), 'nrand c0 %d' % N]
    for _ in range(2):
        d = rng.randrange(1, n)
        L += ['fsetz f0 %x %x' % (n, d), 'pmul p1 p0 f0', 'nenc p1 p0 %d' % N]
        m = rng.randbytes(2)
        if can_sign(c, d, m): L.append('nsign s0 f0 %s %d' % (m.hex(), N))
    return Block(name, L + ['schclear s0', 'pclear p0', 'pclear p1', 'fclear f0', 'cclear c0'], weight=N)
def can_sign(c, d, m):
    n = c['n']; e = int.from_bytes(m, 'big'); x = 16 - n.bit_length(); e = e >> x if x > 0 else e
    return sum(1 for k in range(1, n) for R in [mul(c, k, G(c))] if R is not None and R[0] % n and (e + R[0] % n * d) % n) >= n // 2

def nonce_big(rng, c, N, name):
    n = c['n']; h = rng.choice([20, 32, 48, 64])
    L = ['cinit c0', ndef('c0', c), 'sch s0 c0 %d' % h, 'finit f0 %x' % n, 'fsetz f0 %x %x' % (n, rng.randrange(1, n)), 'pinit p0 c0', 'pinit p1 c0', 'pinit p2 c0', 'psetz p0 %x %x c0' % G(c), 'pmul p1 p0 f0',
         'rsrc prng %x' % rng.randrange(1, 1 << 40)]
    m = rng.randbytes(9).hex()
    L += ['nsign s0 f0 %s %d' % (m, N), 'nenc p1 p0 20', 'nrand c0 20', 'nsign s0 f0 %s 20' % rng.randbytes(5).hex(), 'nenc p0 p1 10']
    # interleaved with other operations, same and other messages
    for i in range(6):
        L += rng.choice([['sign g0 s0 f0 %s' % m, 'sigclear g0'], ['enc e0 p1 p0', 'ctclear e0'], ['prand p2 c0']])
        if rng.random() < .5: L.append('pbset p0')
        if rng.random() < .3: L.append('zrand %x' % n)
    return Block(name, L + ['schclear s0', 'pclear p0', 'pclear p1', 'pclear p2', 'fclear f0', 'cclear c0'], weight=N * 2 + 3000)

def nonce_zero(rng, c, name, small):
    """streams that start with something that reduces to zero, to one, to n-1, and constant streams"""
    n = c['n']; w = (n.bit_length() + 7) // 8
    L = ['cinit c0', cdef('c0', c) if small else ndef('c0', c), 'sch s0 c0 4', 'finit f0 %x' % n, 'fsetz f0 %x %x' % (n, rng.randrange(1, n)), 'pinit p0 c0', 'pinit p1 c0', 'pinit p2 c0', 'psetz p0 %x %x c0' % G(c), 'pmul p1 p0 f0']
    starts = [bytes(2 * w), bytes(4 * w), bytes(w), n.to_bytes(2 * w, 'big'), n.to_bytes(w, 'big'), (n * rng.randrange(1, 1 << (8 * w))).to_bytes(2 * w, 'big'),
              n.to_bytes(w, 'big') * 2, (1).to_bytes(2 * w, 'big'), b'\xff' * (4 * w), n.to_bytes(w, 'little') + bytes(w), bytes(6 * w), (n * 3).to_bytes(2 * w, 'big') * 2]
    for s in starts:
        sd = rng.randrange(1, 1 << 40)
        if can_sign(c, 1, b'\0\1') if small else True:
            L += ['rsrc hex %x %s' % (sd, s.hex()), 'sign g0 s0 f0 %s' % rng.randbytes(4).hex(), 'sigclear g0']
        L += ['rsrc hex %x %s' % (sd, s.hex()), 'enc e0 p1 p0 f0', 'ctclear e0', 'rsrc hex %x %s' % (sd, s.hex()), 'prand p2 c0',
              'rsrc hex %x %s' % (sd, s.hex()), 'zrand %x' % n, 'zrand %x' % n, 'frand f0 %x' % n]
        if small: L.append('fsetz f0 %x %x' % (n, rng.randrange(1, n)))
        else: L += ['fsetz f0 %x %x' % (n, rng.randrange(1, n))]
        L.append('pmul p1 p0 f0')
    return Block(name, L + ['rsrc real', 'schclear s0', 'pclear p0', 'pclear p1', 'pclear p2', 'fclear f0', 'cclear c0'], weight=4000 if not small else 800)

def c13(c):
    rng = c.rng
    exe = c.build_driver('drvr', RFLAGS, sources=c.lib_sources() + ['/verif/driver/rnd.c'], libs=['-ldl'])
    bl = stat_blocks(rng, c.thorough) + [fault_block(rng, c.thorough), fork_block(rng)]
    sc = [k for k, pts in small_curves(rng, [11, 13, 17, 19, 23, 29, 31, 37, 41, 43], per=2) if 7 <= k['n'] <= 47]
    byform = {}
    for k in sc: byform.setdefault(k['t'], []).append(k)
    for t, ks in byform.items():
        for k in rng.sample(ks, min(len(ks), 6 if c.thorough else 2)):
            bl.append(nonce_small(rng, k, 4000 if c.thorough else 1200, 'nonces %s n=%d' % (t, k['n'])))
            bl.append(nonce_zero(rng, k, 'zero nonces %s n=%d' % (t, k['n']), True))
    nm = [dict(k, name=x) for x, k in named().items()]
    # orders in the lower three quarters between powers of two show a reduction without margin
    gap = [x for x in nm if x['n'] * 4 < 3 << x['n'].bit_length()]
    for x in (gap if c.thorough else rng.sample(gap, 3)): bl.append(nonce_big(rng, x, 1000, 'nonces %s' % x['name']))
    for x in (nm if c.thorough else rng.sample(nm, 6)): bl.append(nonce_big(rng, x, 64, 'nonces %s' % x['name']))
    for x in (nm if c.thorough else rng.sample(nm, 6)): bl.append(nonce_zero(rng, x, 'zero nonces %s' % x['name'], False))
    c.run_blocks(exe, bl, module='Random', packs=24 if c.thorough else 8)
