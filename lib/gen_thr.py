"""C20: threads which use different objects: every interleaving gives what the calls give one after the other."""
import glob, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import Block, MachineryError, V, REPO, CFLAGS, NPROC
from nums import *
from gen_point import G, set_pt, rand_on, ndef, enc_bytes, FORMS
from gen_scheme import sigb, dig, dint, HSZ
from gen_hist import histories, concrete, curve_triples, MSG

LOCKS = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock',
         'mtx_lock', 'mtx_unlock', 'pthread_spin_lock', 'pthread_spin_unlock', 'sched_yield']
PER, MAIN = 24, 96           # as in driver/thr.c

def build(c):
    """the library with a call before each access to memory and each call it makes, and the driver which provides these"""
    o = c.out + '/thr'
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    def one(s):
        ob = '%s/%s.o' % (o, os.path.basename(s))
        c.must(['gcc'] + [f for f in CFLAGS if f != '-O2'] + ['-O1', '-fPIC', '-fsanitize=thread', '-c', s, '-o', ob])
        return ob
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, c.lib_sources()))
    und, dfd = set(), set()
    for l in subprocess.run(['nm'] + objs, capture_output=True, text=True, check=True).stdout.splitlines():
        w = l.split()
        if len(w) == 2 and w[0] == 'U': und.add(w[1])
        elif len(w) == 3: dfd.add(w[2])
    keep = ('stderr', 'stdout', 'stdin', '__assert_fail', 'exit', 'abort', '_exit', 'environ', '__errno_location', '_setjmp', 'setjmp', 'longjmp', 'vfork', '__tls_get_addr')
    ext = sorted(x for x in und - dfd if not x.startswith(('__tsan', '_GLOBAL_OFF', '__cxa', '__stack_chk', '__gmp_bits', '__gmp_version')) and x not in keep and x not in LOCKS and '@' not in x)
    # data of other libraries cannot be called
    lds = subprocess.run('nm -D --defined-only $(ldconfig -p | awk \'/libgmp.so|libc.so.6/ {print $NF}\')', shell=True, capture_output=True, text=True).stdout
    data = {w[2].split('@')[0] for w in (l.split() for l in lds.splitlines()) if len(w) == 3 and w[1] in 'DBRdbrV'}
    ext = [x for x in ext if x not in data]
    regs = 'rax rdi rsi rdx rcx r8 r9'.split()
    asm = '.section .note.GNU-stack,"",@progbits\n.text\n'
    for x in ext:
        asm += '.globl __wrap_%s\n__wrap_%s:\n' % (x, x) + ''.join(' push %%%s\n' % r for r in regs) + ' call thr_call@PLT\n' + \
               ''.join(' pop %%%s\n' % r for r in regs[::-1]) + ' jmp __real_%s@PLT\n' % x
    open(o + '/tramp.S', 'w').write(asm)
    c.must(['gcc', '-shared', '-o', o + '/libeccthr.so'] + objs + [o + '/tramp.S'] + ['-Wl,--wrap=' + x for x in ext + LOCKS] + ['-lgmp'])
    c.must(['gcc'] + CFLAGS + ['-Wno-unused', '-DTHREADED', '-rdynamic', V + '/driver/thr.c', V + '/driver/rnd.c', '-o', o + '/thr', '-L' + o, '-leccthr', '-lgmp', '-lpthread', '-Wl,-rpath,$ORIGIN'])
    return o + '/thr'

def runs(c, exe, sc, sched, tag):
    """execute the scenario under each schedule: [(schedule, hash, accesses)], directory of the distinct recordings"""
    d = '%s/rec-%s' % (c.out, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    inp = '@setup\n' + '\n'.join(sc['setup']) + '\n' + ''.join('@thread\n' + '\n'.join(t) + '\n' for t in sc['threads']) + '@final\n' + '\n'.join(sc['final']) + '\n' + '\n'.join(sched) + '\n'
    try:
        p = subprocess.run([exe, d], input=inp, capture_output=True, text=True, timeout=800)
    except subprocess.TimeoutExpired:
        raise MachineryError('schedules of %s take too long' % tag)
    sc['err'] = p.stderr[-300:]
    out = [l.split() for l in p.stdout.splitlines()]
    if p.returncode != 0 or len(out) != len(sched):
        raise MachineryError('thread driver failed (%s): %d of %d schedules\n%s' % (p.returncode, len(out), len(sched), p.stderr[-2000:]))
    return [(s, h, int(n), int(k)) for s, (_, h, n, k) in zip(sched, out)], d

def judge(c, sc, rs, d, limit=8):
    """every distinct recording must be a behaviour of the sequential specification"""
    first, cnt = {}, {}
    for s, h, n, k in rs:
        first.setdefault(h, s)
        cnt[h] = cnt.get(h, 0) + 1
    c.extra['schedules'] = c.extra.get('schedules', 0) + len(rs)
    c.extra['distinct_recordings'] = c.extra.get('distinct_recordings', 0) + len(first)
    c.extra.setdefault('schedules_by_scenario', {}).setdefault(sc['name'], 0)
    c.extra['schedules_by_scenario'][sc['name']] += len(rs)
    # abnormal ends and rare ones first
    def key(h):
        return (b'"op":"CRASH"' not in open('%s/%s.ndjson' % (d, h), 'rb').read(), cnt[h])
    for h in sorted(first, key=key)[:limit]:
        tr = '%s/%s.ndjson' % (d, h)
        c._count(tr)
        ok, at, o = c.validate(tr)
        if not ok:
            ok, at, o = c.validate(tr)
        if not ok:
            lines = ['@setup'] + sc['setup'] + [l for t in sc['threads'] for l in ['@thread'] + t] + ['@final'] + sc['final'] + [first[h]]
            c.violation('threads %s under schedule "%s" (%d of %d schedules)' % (sc['name'], first[h], cnt[h], len(rs)), tr, at, o, lines)
            return False
    shutil.rmtree(d)
    return True

# ---- scenarios
def off(t, i): return t * PER + i
def fields(rng, mods, nth):
    """the same and different moduli for the first time in several threads; afterwards elements of one modulus are used together"""
    ths, by = [], {}
    for t in range(nth):
        L, k = [], off(t, 0)
        for m in (rng.sample(mods, len(mods)) if rng.random() < .5 else mods):
            h = 'f%d' % k; k += 1
            L += ['finit %s %x' % (h, m), 'fsetz %s %x %x' % (h, m, rng.randrange(m))] if rng.random() < .5 else ['finit %s %x' % (h, m), 'fsetui %s %x %x' % (h, m, rng.getrandbits(20))]
            L.append('fmul %s %s %s' % (h, h, h))
            by.setdefault(m, []).append(h)
        ths.append(L)
    fin, k = [], MAIN
    for m, hs in by.items():
        d = 'f%d' % k; k += 1
        fin += ['finit %s %x' % (d, m), 'fset %s %s' % (d, hs[0])]
        for h in hs: fin += ['fadd %s %s %s' % (d, d, h), 'fsame %s %x' % (h, m)]
    return dict(setup=[], threads=ths, final=fin)

def arith(rng, nm, nth):
    """field arithmetic of every kind, in fields of equal and of different size"""
    p = nm[rng.choice(list(nm))]['p']
    ths = []
    for t in range(nth):
        m = p if rng.random() < .6 else rng.choice([nm[k]['n'] for k in nm] + [17, (1 << 61) - 1, (1 << 127) - 1])
        f = ['f%d' % off(t, i) for i in range(4)]
        L = ['finit %s %x' % (h, m) for h in f] + ['fsetz %s %x %s' % (h, m, hx(rng.getrandbits(2 * m.bit_length()) - (1 << m.bit_length()))) for h in f]
        ops = ['fadd {d} {a} {b}', 'fsub {d} {a} {b}', 'fmul {d} {a} {b}', 'fsqr {d} {a}', 'fneg {d} {a}', 'finv {x} {a}', 'fsqrt {x} {a}', 'fpow {d} {a} %s' % hx(rng.getrandbits(40)),
               'fpow {x} {a} -%x' % rng.getrandbits(20), 'fpowui {d} {a} %x' % rng.getrandbits(30), 'faddui {d} {a} %x' % rng.getrandbits(64), 'fsubui {d} {a} %x' % rng.getrandbits(64),
               'fmului {d} {a} %x' % rng.getrandbits(64), 'fcmp {a} {b}', 'fswap {a} {b}', 'fcswap {a} {b} 1', 'fget {a} -7', 'fset {d} {a}', 'fcmpz {a} %x' % rng.getrandbits(90), 'fcmpui {a} %x' % rng.getrandbits(9), 'ftst {a} 3']
        rng.shuffle(ops)
        L += ['finit f%d %x' % (off(t, 9), m)]       # (receives what need not exist)
        for o in ops:
            a, b, d = rng.choice(f), rng.choice(f), rng.choice(f)
            if a == b and ('swap' in o): b = f[(f.index(a) + 1) % 4]
            L.append(o.format(a=a, b=b, d=d, x='f%d' % off(t, 9)))
        ths.append(L)
    return dict(setup=[], threads=ths, final=[])

def randoms(rng, nm, nth):
    """the first random numbers of several threads"""
    ths = []
    for t in range(nth):
        m = nm[rng.choice(list(nm))]['n']
        L = ['zrand %x' % m, 'finit f%d %x' % (off(t, 0), m), 'frand f%d %x' % (off(t, 0), m), 'zrand %x' % (1 << rng.randrange(1, 200))]
        ths.append(L)
    return dict(setup=[], threads=ths, final=['zrand %x' % m, 'held 0'])

def curves(rng, k, nth, shared):
    """the same named curve set up by every thread, or one which all of them use; arithmetic, tables, encodings"""
    ths, fin = [], []
    cm = 'c%d' % MAIN
    for t in range(nth):
        P, Q = rand_on(rng, k), rand_on(rng, k)
        cv = cm if shared else 'c%d' % off(t, 0)
        p = ['p%d' % off(t, i) for i in range(4)]
        L = [] if shared else ['cinit ' + cv, ndef(cv, k)]
        L += ['pinit %s %s' % (h, cv) for h in p] + [set_pt(p[0], P, cv), 'pdec %s %s %s' % (p[1], enc_bytes(k, Q, True).hex(), cv)]
        w = rng.getrandbits(12) + 2
        o = [['padd %s %s %s' % (p[2], p[0], p[1])], ['psub %s %s %s' % (p[3], p[0], p[1])], ['pmulz %s %s %x' % (p[2], p[0], w), 'penc %s 1 bin' % p[2]],
             ['pbset ' + p[0], 'pbmulz %s %s %x' % (p[3], p[0], rng.randrange(k['n']))], ['pdbl %s %s' % (p[1], p[1])], ['pneg %s %s' % (p[1], p[1])], ['penc %s 0 str' % p[0]],
             ['pcmp %s %s' % (p[0], p[1])], ['ccheck %s %x %x' % (cv, P[0], P[1])], ['pgetz ' + p[1]]]
        if k['p'].bit_length() > 200: o = [x for x in o if not x[0].startswith('pbset')]
        rng.shuffle(o)
        ths.append(L + [x for y in o for x in y])
        if t: fin += ['pcmp p%d p%d' % (off(t, 0), off(0, 0))]
    return dict(setup=['cinit ' + cm, ndef(cm, k)] if shared else [], threads=ths, final=fin)

def schemes(rng, k, nth):
    """signatures and ciphertexts by several threads which share the curve and the scheme"""
    cm, sm = 'c%d' % MAIN, 's%d' % MAIN
    hs = rng.choice([20, 32])
    ths = []
    for t in range(nth):
        f, p, q, m, g, g2, e = 'f%d' % off(t, 0), 'p%d' % off(t, 0), 'p%d' % off(t, 1), 'p%d' % off(t, 2), 'g%d' % off(t, 0), 'g%d' % off(t, 1), 'e%d' % off(t, 0)
        d = rng.randrange(1, k['n'])
        msg = rng.choice(MSG[2:]).hex()
        L = ['finit %s %x' % (f, k['n']), 'fsetz %s %x %x' % (f, k['n'], d), 'pinit %s %s' % (p, cm), set_pt(p, mul(k, d, G(k)), cm)]
        S = ['sign %s %s %s %s' % (g, sm, f, msg), 'verify %s %s %s' % (g, p, msg), 'verify %s %s %s' % (g, p, '00' + msg), 'sexp ' + g]
        E = ['pinit %s %s' % (m, cm), set_pt(m, rand_on(rng, k), cm), 'enc %s %s %s' % (e, p, m), 'dec %s %s %s' % (q, f, e), 'pcmp %s %s' % (q, m)]
        ths.append(L + (S if t % 2 == 0 else E + S[:2] if rng.random() < .5 else E))
    return dict(setup=['cinit ' + cm, ndef(cm, k), 'sch %s %s %d' % (sm, cm, hs)], threads=ths, final=[])

def codecs(rng, k, nth):
    """every encoding and decoding, of points and of signatures, by all threads at the same time"""
    cm, sm = 'c%d' % MAIN, 's%d' % MAIN
    ths = []
    for t in range(nth):
        f, g = 'f%d' % off(t, 0), ['g%d' % off(t, i) for i in range(4)]
        p = ['p%d' % off(t, i) for i in range(4)]
        d = rng.randrange(1, k['n'])
        w = (k['p'].bit_length() + 7) // 8
        sz = (k['n'].bit_length() + 7) // 8
        imp = [rng.randrange(1, k['n']).to_bytes(sz, 'big').hex() + rng.randrange(1, k['n']).to_bytes(sz, 'big').hex() for _ in range(2)]
        st = lambda b: b.hex().encode().hex()         # a text
        L = ['pinit %s %s' % (h, cm) for h in p] + ['finit %s %x' % (f, k['n']), 'fsetz %s %x %x' % (f, k['n'], d)]
        o = ['pdecs %s %s %s' % (p[0], st(enc_bytes(k, rand_on(rng, k), True)), cm), 'pdecs %s %s %s' % (p[1], st(enc_bytes(k, rand_on(rng, k), False)), cm),
             'pdec %s %s %s' % (p[2], enc_bytes(k, rand_on(rng, k), True).hex(), cm)]
        e = ['penc %s %d %s' % (x, rng.randrange(2), y) for x in p[:3] for y in ('str', 'bin')]
        i = ['simp %s %s %s' % (g[0], sm, imp[0]), 'simps %s %s %s' % (g[1], sm, imp[1].encode().hex())]
        x = ['sexp ' + g[0], 'sexps ' + g[0], 'sexp ' + g[1], 'sexps ' + g[1]]
        if t == 0 or rng.random() < .5:
            rng.shuffle(e); rng.shuffle(x)
        ths.append(L + o + e + i + x + ['sign %s %s %s %s' % (g[2], sm, f, '68616c6c6f'), 'sexps ' + g[2], 'verify %s %s %s' % (g[2], p[0], '68616c6c6f')])
    return dict(setup=['cinit ' + cm, ndef(cm, k), 'sch %s %s 32' % (sm, cm)], threads=ths, final=[])

def hist(rng, hs, tr):
    """a history of its own in each thread"""
    return dict(setup=[], threads=[concrete(rng, h, ks, t * PER) for t, (h, ks) in enumerate(zip(hs, tr))], final=[])

def rnds(rng, n, pts, calls):
    """random schedules with some 2 .. 1000 switches"""
    out = []
    for _ in range(n):
        e = rng.choice([2, 5, 20, 100, 300, 1000])
        a, b = rng.choice([(1, 1), (1, 0), (0, 1), (1, .2), (.2, 1)])
        out.append('@rnd %d %d %d' % (rng.randrange(1 << 48), min(40000, a * e * 65536 // max(pts, 1)), min(40000, b * e * 65536 // max(calls, 1))))
    return out

def c20(c):
    rng, nm = c.rng, named()
    c.model('Registry', minstates=10000)
    for inv in ('NothingHalfMade', 'OneField', 'NothingLost'):      # negative control: the library without the lock
        r = c.tlc('Registry', 'Registry_' + inv, workers=2, timeout=300, overrides=False)
        if 'Invariant %s is violated' % inv not in r['out']:
            raise MachineryError('Registry without lock satisfies %s?\n%s' % (inv, r['out'][-2000:]))
    exe = build(c)
    T = c.thorough
    small = [k for k in (smallish(rng, t) for t in FORMS) if k]
    lo = [nm[x] for x in nm if nm[x]['p'].bit_length() <= 260]
    S = []
    def add(name, sc, enum, nrnd, cap=2500):        # cap: so many schedules are enumerated; of more, a sample is taken
        sc['name'] = name
        S.append((sc, enum, nrnd, 8 * cap if T else cap))
    P1, P2 = nm['secp256k1']['p'], nm[rng.choice(list(nm))]['n']
    add('fields: one modulus', fields(rng, [127], 2), 3, 100)
    add('fields: two moduli', fields(rng, [P1, 127], 2), 3, 100)
    add('fields: three threads', fields(rng, [17, 19], 3), 2, 200)
    add('fields: four threads', fields(rng, [17, P2, P1], 4), 2, 200)
    for i in range(12 if T else 3): add('arithmetic %d' % i, arith(rng, nm, rng.choice([2, 3])), 2, 300, 1000)
    add('random numbers', randoms(rng, nm, 2), 3, 100)
    add('random numbers, three threads', randoms(rng, nm, 3), 2, 100)
    for t in FORMS:
        ks = [k for k in lo if k['t'] == t] or [k for k in nm.values() if k['t'] == t]
        for sh in (0, 1):
            add('curves %s%s' % (t, ' shared' if sh else ''), curves(rng, rng.choice(ks), rng.choice([2, 3]), sh), 2, 60 if not T else 600, 300)
        add('schemes ' + t, schemes(rng, min(rng.sample(ks, min(3, len(ks))), key=lambda k: k['p']), 2), 2, 40 if not T else 400, 100)
    for k in small:
        add('codecs ' + k['t'], codecs(rng, k, rng.choice([2, 3])), 2, 150, 300)
        add('curves small ' + k['t'], curves(rng, k, 3, rng.random() < .5), 2, 150, 300)
    nh = 120 if T else 16
    hs = histories(c, 2 * nh, 60, rng.randrange(1 << 30))
    tr = list(curve_triples(rng, {x: nm[x] for x in nm if nm[x]['p'].bit_length() <= 260}, len(hs)))
    for i in range(len(hs) // 2):
        add('histories %d' % i, hist(rng, hs[2 * i:2 * i + 2], tr[2 * i:2 * i + 2]), 0, 25)
    def work(x):
        i, (sc, enum, nrnd, cap) = x
        nt = len(sc['threads'])
        seed = c.seed * 1000 + i
        import random
        r2 = random.Random(seed)
        seq, d = runs(c, exe, sc, ['@at %d' % t for t in range(nt)], 's%d' % i)
        sched, pts = ['@at %d' % t for t in range(nt)], max(x[2] for x in seq)
        if any('"op":"CRASH","a":["3"' in open(f).read() for f in glob.glob(d + '/*')):
            raise MachineryError('scenario %s: the script is wrong: %s' % (sc['name'], sc.get('err')))
        m = re.search(r'"op":"held","a":\["\d+"\],"r":\["?(\d+)', open('%s/%s.ndjson' % (d, seq[0][1])).read())
        sc['final'] = [l if l.split()[0] != 'held' else 'held %x' % int(m.group(1)) for l in sc['final']]
        shutil.rmtree(d)
        if enum:
            pre = enum
            while pre > 1 and nt * ((pts * (nt - 1)) ** pre) / 2 > cap: pre -= 1
            r = c.tlc('Schedules', 'Schedules', workers=1, timeout=300, overrides=False, env=dict(THREADS=str(nt), POINTS=str(min(pts, cap)), SWITCHES=str(pre)))
            js = sorted(set(json.loads(json.loads(l)) and l for l in r['out'].splitlines() if l.startswith('"[')))
            js = [json.loads(json.loads(l)) for l in js]
            if not r['ok'] or not js: raise MachineryError('Schedules failed\n' + r['out'][-2000:])
            if len(js) > cap: js = r2.sample(js, cap)
            sched += ['@at %d %s' % (j[0], ' '.join('%d:%d' % tuple(x) for x in j[1:])) for j in js]
            if enum > pre:
                sched += ['@at %d %s' % (r2.randrange(nt), ' '.join('%d:%d' % (p, r2.randrange(nt)) for p in sorted(r2.sample(range(1, pts + 1), min(pts, r2.choice([2, 3]))))) ) for _ in range(cap // 8)]
        sched += rnds(r2, nrnd, pts, max(x[3] for x in seq))
        # the schedules of one scenario in several processes
        rs, d = runs(c, exe, sc, sched, 's%d' % i)
        return sc, rs, d
    with ThreadPoolExecutor(NPROC) as ex:
        done = list(ex.map(work, list(enumerate(S))))
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda x: judge(c, *x), done))
    c.extra['scenarios'] = len(S)

def smallish(rng, t):
    from gen_hist import find_or_none
    return find_or_none(rng, t, rng.choice([61, 89, 127]))
