"""C14, C15: what the library does with memory, over the call histories of all other generators."""
import random, re
from vlib import Block, V
from nums import *
import gen_field, gen_point, gen_scheme, gen_hist, gen_rand
from gen_point import set_pt, rand_on, ndef, any_small, enc_bytes, mutations
from gen_scheme import HSZ

class Collector:
    """stands in for a Check while another generator runs: keeps its blocks"""
    def __init__(self, c, name):
        self.rng = random.Random('%s/%s/%d' % (c.prop, name, c.seed))
        self.thorough, self.real, self.extra, self.blocks = c.thorough, c, {}, []
        self.out = c.out
    def build_driver(self, *a, **k): return None
    def run_blocks(self, exe, blocks, **k): self.blocks += blocks
    def model(self, *a, **k): pass
    def probe_known(self, *a, **k): pass
    def lib_sources(self): return []
    def tlc(self, *a, **k): return self.real.tlc(*a, **k)

def collect(c, names):
    gens = dict(C01=gen_field.c01, C02=gen_field.c02, C03=gen_field.c03, C04=gen_point.c04, C05=gen_point.c05, C06=gen_point.c06,
                C07=gen_point.c07, C08=gen_point.c08, C09=gen_scheme.c09, C10=gen_scheme.c10, C11=gen_scheme.c11, C12=gen_hist.c12, C13=gen_rand.c13)
    out = []
    for n in names:
        k = Collector(c, n)
        gens[n](k)
        for b in k.blocks:
            if n == 'C13' and not any(l.split()[0] in ('nsign', 'nenc', 'nrand') for l in b.lines) : continue
            if any(l.split()[0] in ('zfault', 'zfork', 'zflip', 'zhist') for l in b.lines): continue
            b.name = n + ' ' + b.name
            out.append(b)
    return out

def shrink(rng, b, most):
    """at most `most` lines of a block of unrelated calls (prefix)"""
    if len(b.lines) <= most: return b
    return Block(b.name, b.lines[:most])
def once(b): return Block(b.name, b.lines + ['sweep'])

def twice(b, i):
    L = b.lines + ['sweep', 'mark %d' % i]
    return Block(b.name, L + L)

# ---- blocks written for secrets: every way a scalar travels through the library
def secret_block(rng, c, name):
    n, p = c['n'], c['p']
    w = (p.bit_length() + 7) // 8
    def sec(): return rng.randrange(n >> 8, n - (n >> 8)) if n > 1 << 64 else rng.randrange(1, n)
    big = n.bit_length() > 72
    L = ['cinit c0', ndef('c0', c), 'pinit p0 c0', 'pinit p1 c0', set_pt('p0', rand_on(rng, c), 'c0'), 'pset p1 p0', 'sch s0 c0 %d' % rng.choice(HSZ)]
    def hide(h): return ['hide ' + h] if big else []
    for _ in range(3):
        L += ['finit f0 %x' % n, 'fsetz f0 %x %x' % (n, sec())] + hide('f0') + ['finit f1 %x' % n, 'frand f1 %x' % n] + hide('f1')
        steps = [['pmul p1 p0 f0'], ['pbset p0', 'pbmul p1 p0 f0'], ['pmul p0 p0 f1'], ['fadd f1 f0 f1', 'fmul f1 f1 f0'], ['finv f1 f0'], ['fneg f0 f0'],
                 ['fsqr f1 f0'], ['fpow f1 f0 %x' % sec()], ['fsqrt f1 f1'], ['fsub f1 f1 f0'], ['fset f1 f0'], ['fcmp f0 f1'], ['fcswap f0 f1 1'], ['fswap f0 f1'],
                 ['sign g0 s0 f0 %s' % rng.randbytes(20).hex(), 'sexp g0', 'sigclear g0'], ['sign g0 s0 f0 -', 'sign g0 s0 f0 01', 'verify g0 p0 00', 'sigclear g0'],
                 ['enc e0 p0 p1', 'dec p2 f0 e0', 'pclear p2', 'ctclear e0'], ['enc e0 p0 p1 f1', 'dec p2 f1 e0', 'pclear p2', 'ctclear e0'],
                 ['faddui f0 f0 5', 'fmului f0 f0 3', 'fpowui f1 f0 7', 'fsubui f1 f1 ffff']]
        for z in (sec(), -sec(), sec() + n, sec() << 70):
            steps.append((['hidez %x' % abs(z)] if big else []) + ['%s p1 p0 %s' % (rng.choice(['pmulz', 'pbmulz']), hx(z))])
        if big:
            v = sec(); steps.append(['hidez %x' % v, 'fsetz f1 %x %x' % (n, v)])
            v = sec(); steps.append(['hidez %x' % v, 'fsetz f1 %x %s' % (n, hx(-v))])
        rng.shuffle(steps)
        # f1 may be undefined after fsqrt/finv: give it a value again
        for s in steps: L += s + ['frand f1 %x' % n]
        # elements of other fields as destinations: their storage grows and shrinks
        for _ in range(6):
            q = rng.choice(MODS); L += ['fsetz f1 %x %x' % (q, rng.randrange(q))]
            L += rng.choice([['fset f1 f0'], ['fmul f1 f0 f0'], ['fsqr f1 f0'], ['fset f0 f1', 'fsetz f0 %x %x' % (n, sec())], ['fadd f1 f0 f0']])
        L += ['fclear f0', 'fclear f1']
    L += ['schclear s0', 'pclear p0', 'pclear p1', 'cclear c0']
    return Block(name, L)
MODS = [3, 17, 65537, (1 << 61) - 1, nextprime(1 << 64), prevprime(1 << 128), prevprime(1 << 192), prevprime(1 << 256), prevprime(1 << 384), prevprime(1 << 521), prevprime(1 << 1024)]

def scr_block(rng, thorough):
    """one block of the big-number allocator through sizes up and down; exhaustive for short sequences"""
    sizes = [8, 16, 24, 32, 40, 64, 72, 128, 136, 1024, 4096, 4104, 70000]
    L = ['scr %d' % a for a in sizes] + ['scr %d %d' % (a, b) for a in sizes for b in sizes]
    L += ['scr %d %d %d' % (a, b, d) for a in sizes[:8] for b in sizes[:8] for d in sizes[:8]]
    for _ in range(3000 if thorough else 300): L.append('scr ' + ' '.join(str(rng.choice(sizes + [rng.randrange(8, 3000) for _ in range(5)])) for _ in range(rng.randrange(3, 12))))
    return Block('allocator block histories', L)

MEMF = ['-DWITH_MEM', '-DWITH_RND', '-U_FORTIFY_SOURCE', '-I%s/driver' % V]
def mem_driver(c):
    return c.build_driver('drvm', MEMF, sources=c.lib_sources() + [V + '/driver/mem.c', V + '/driver/rnd.c'], libs=['-ldl'])

def run_mem(c, exe, bl, clean, label, packs=8):
    env = dict(DRV_BRIEF='1', CLEAN='1' if clean else '0')
    if clean: env['DRV_SAFECLEAN'] = '1'
    c.run_blocks(exe, bl, module='Memory', env=env, tlc_env=dict(CLEAN=env['CLEAN']), label=label, packs=packs, alarm=120)

def secrets(c):
    rng = c.rng
    nm = named()
    return [secret_block(rng, k, 'secrets ' + k['name']) for k in nm.values() for _ in range(4 if c.thorough else 1)]
def small_curves_all(rng): return [x for x in gen_point.small_curves(rng, [61, 127, 251], per=1) if x[0]['n'] >= 13]

def c14(c):
    rng = c.rng
    exe = mem_driver(c)
    bl = secrets(c)
    pool = collect(c, ['C03', 'C04', 'C08', 'C09', 'C10', 'C11', 'C12'])
    if not c.thorough: pool = [shrink(rng, b, 400) for b in rng.sample(pool, min(len(pool), 250))]
    run_mem(c, exe, bl + [once(b) for b in pool] + [scr_block(rng, c.thorough)], True, 'clean', packs=32 if c.thorough else 8)
    c.extra['secret_blocks'] = len(bl)

ASANF = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-include', V + '/driver/asan_mpn.h', '-O1']
ASANENV = dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')

def edge_block(rng, c, name):
    """error paths and reuse: what fails must leave nothing behind"""
    n, p = c['n'], c['p']
    L = ['cinit c0', ndef('c0', c), 'cinit c1', 'pinit p0 c0', 'pinit p1 c0', 'sch s0 c0 %d' % rng.choice(HSZ), 'finit f0 %x' % n, 'fsetz f0 %x %x' % (n, rng.randrange(1, n))]
    for _ in range(8):
        k = rng.choice(ERRC)
        L += rng.choice([['cnamed c1 ' + b'no-such-curve'.hex()], [cdef('c1', dict(c, gy=(c['gy'] + 1) % p), rng.choice('zxd'))], [cdef('c1', k, rng.choice('zxd'))],
                         ['cset c1 c0'], ['cset c0 c0'], ['cinit c5', cdef('c5', k), 'pinit p5 c5', 'pclear p5', 'cclear c5']])
        b = enc_bytes(c, rand_on(rng, c), rng.random() < .5)
        L += ['pdec p0 %s c0' % m.hex() for m in rng.sample(mutations(rng, c, rand_on(rng, c)), 2) if m]
        L += ['pdecs p0 %s c0' % b.hex()[:rng.randrange(1, 2 * len(b))].encode().hex()] if rng.random() < .5 else ['pdecs p0 %s c0' % (b.hex() + 'zz').encode().hex()]
        L += [set_pt('p0', rand_on(rng, c), 'c0'), 'pbset p0', 'pbset p0', 'pset p1 p0', 'padd p0 p0 p0', 'pneut p1 c0']
        L += ['simp g1 s0 %s' % rng.choice(['00', 'ff' * (2 * ((n.bit_length() + 7) // 8)), '01' * 3, '00' * (2 * ((n.bit_length() + 7) // 8))]), 'simps g1 s0 %s' % rng.choice([b'xyz', b'00', b'0', b'f' * 9]).hex(),
              'sign g2 s0 f0 -', 'finit f1 7', 'fsetz f1 7 3', 'sign g2 s0 f1 00', 'fclear f1']
    return Block(name, L)

def valgrind_driver(c):
    """the program run by record(): valgrind over a plain build; a wrong access or a decision on
    uninitialised memory ends it with a status of its own"""
    exe = c.build_driver('drvv', ['-O1'])
    sh = c.out + '/drvv.sh'
    open(sh, 'w').write('#!/bin/sh\nexec valgrind -q --error-exitcode=99 --exit-on-first-error=yes --leak-check=no --track-origins=no --vgdb=no %s "$@"\n' % exe)
    import os; os.chmod(sh, 0o755)
    return sh

def c15(c):
    rng = c.rng
    global ERRC
    ERRC = list(named().values())
    ks = ERRC + [k for k, _ in small_curves_all(rng)]
    edges = [edge_block(rng, k, 'edges ' + k.get('name', 'small')) for k in (ks if c.thorough else rng.sample(ks, 16)) for _ in range(3 if c.thorough else 1)]
    pool = secrets(c) + collect(c, ['C%02d' % i for i in range(1, 14)])
    small = [b for b in pool if b.name[:3] in ('C01', 'C02', 'C03')]
    rest = [b for b in pool if b not in small]
    if not c.thorough:
        small = [shrink(rng, b, 120) for b in rng.sample(small, min(len(small), 250))]
        rest = [shrink(rng, b, 250) for b in rest]
    exe = mem_driver(c)
    bl = edges + small + rest
    run_mem(c, exe, [twice(b, i) for i, b in enumerate(rng.sample(bl, len(bl) if c.thorough else min(len(bl), 500)))], False, 'plain', packs=64 if c.thorough else 8)
    run_mem(c, exe, [twice(b, i) for i, b in enumerate(rng.sample(bl, min(len(bl), 3000 if c.thorough else 150)))], True, 'clean', packs=64 if c.thorough else 8)
    # sanitizers
    nornd = [once(b) for b in bl if not any(l.split()[0] in MEMOPS for l in b.lines)]
    env = dict(ASANENV, DRV_BRIEF='1', CLEAN='0')
    exa = c.build_driver('drva', ASANF)
    c.run_blocks(exa, nornd if c.thorough else rng.sample(nornd, min(len(nornd), 350)), module='Memory', env=env, tlc_env=dict(CLEAN='0'), label='asan', packs=64 if c.thorough else 8, alarm=300)
    vg = valgrind_driver(c)
    c.run_blocks(vg, [once(shrink(rng, b, 400 if c.thorough else 25)) for b in rng.sample(nornd, min(len(nornd), 400 if c.thorough else 64))], module='Memory', env=dict(DRV_BRIEF='1'), tlc_env=dict(CLEAN='0'),
                 label='valgrind', packs=8, alarm=600)
MEMOPS = {'hide', 'hidez', 'scr', 'rsrc', 'nsign', 'nenc', 'nrand', 'zstat'}
