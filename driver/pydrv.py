"""Drives the Python module: one command per line on stdin, one event per command on stdout.
Every event lists all live objects whose value changed.  argv[1]: alarm in seconds."""
import sys, os, json, re, gc, signal, types, fractions, decimal, operator, ctypes
import ECC

class Sub(int): pass
class Missing(Exception): pass       # an operand which an earlier call did not produce

def mk_hash(name, size, kind='good'):
    class H:
        def __init__(self, m): self.m = m
        def digest(self):
            m = self.m
            if m[:2] == b'\xee\xed': return bytes(size + 1)
            if m[:2] == b'\xee\xec': return 'x' * size
            if kind == 'text': return 'x' * size
            if kind == 'long': return bytes(size + 1)
            if kind == 'none': return None
            if kind == 'digestfails': raise ValueError('digest')
            return bytes((m[i % len(m)] if m else 0) for i in range(size))
    m = types.ModuleType(name)
    def new(msg):
        if msg[:2] == b'\xee\xee': raise ValueError('new')
        if msg[:2] == b'\xee\xeb': return None
        if kind == 'newfails': raise ValueError('new')
        if kind == 'newnone': return None
        return H(msg)
    if kind != 'nonew': m.new = new
    if kind == 'newint': m.new = 7
    if kind == 'newclass': m.new = H
    m.digest_size = size
    if kind == 'nosize': del m.digest_size
    if kind == 'floatsize': m.digest_size = float(size)
    if kind == 'zero': m.digest_size = 0
    if kind == 'negative': m.digest_size = -size
    if kind == 'huge': m.digest_size = 1 << 80
    return m
HASH, BADHASH = {}, {}
def hash_module(sz):
    if sz not in HASH: HASH[sz] = mk_hash('hash%d' % sz, sz)
    return HASH[sz]
def bad_hash(kind):
    if kind not in BADHASH:
        BADHASH[kind] = types.SimpleNamespace(digest_size=20, new=lambda m: None) if kind == 'nomodule' else mk_hash('bad', 20, kind)
    return BADHASH[kind]

class Plain: pass
def foreign(k):
    return {'float': 1.5, 'zero': 0.0, 'nan': float('nan'), 'str': 'abc', 'bytes': b'abc', 'none': None, 'list': [1, 2], 'tuple': (1, 2), 'dict': {}, 'complex': 1j,
            'obj': Plain(), 'frac': fractions.Fraction(1, 2), 'dec': decimal.Decimal(3), 'barr': bytearray(b'\2' * 33), 'type': int, 'cls': ECC.FieldElement,
            'ccls': ECC.ECurve, 'mod': ECC, 'set': {1}, 'badtext': 'a\udc80b', 'nultext': '02\0', 'mem': memoryview(b'abc'), 'func': len,
            'nt': NotImplemented, 'ell': Ellipsis, 'tup1': (1,), 'tup0': (), 'tup3': (1, 2, 3)}[k]

H = {}            # handle -> object
CKEY, MKEY = {}, {}
NEWK = []
def hx(v): return '-%x' % -v if v < 0 else '%x' % v
def mkey(p):
    if p not in MKEY: MKEY[p] = 'M%d' % len(MKEY); NEWK.append([MKEY[p], 'm', hx(p)])
    return MKEY[p]
def ckey(c):
    if c not in CKEY: CKEY[c] = 'K%d' % len(CKEY); NEWK.append([CKEY[c], c[0]] + [hx(v) for v in c[1:8]] + [str(c[8])])
    return CKEY[c]
FORM = dict(ShortWeierstrass='ws', Edwards='ed', Montgomery='mo', TwistedEdwards='te')
COEF = dict(ws='ab', ed='cd', mo='BA', te='ad')
CRE = re.compile(r'ECC\.ECurve\.(\w+)\((-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+), (-?\d+)\)')
def curve_of_repr(s):
    m = CRE.search(s)
    v = [int(t) for t in m.groups()[1:]]
    return ckey((FORM[m[1]], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]))
def curve_of(c):
    t = FORM[c.ctype]
    return ckey((t, c.p, getattr(c, COEF[t][0]), getattr(c, COEF[t][1]), c.n, c.h, c.G[0], c.G[1], c.bits))
def pt_of(x):
    u = x.uncompressed()
    if u[0] == 0 and not any(u): return ['1', '0', '0']
    a = x.affine()
    return ['0', hx(a[0]), hx(a[1])]
def observe(x):
    if isinstance(x, ECC.FieldElement): return ['fe', mkey(int(re.match(r'ECC\.FieldElement\(\d+, (\d+)\)$', repr(x))[1])), hx(int(x))]
    if isinstance(x, ECC.ECurve): return ['cv', curve_of(x)]
    if isinstance(x, ECC.ECPoint): return ['pt', curve_of_repr(repr(x))] + pt_of(x)
    if isinstance(x, ECC.ECDSASignatureScheme):
        s = repr(x); return ['sc', curve_of_repr(s), re.search(r"module 'hash(\d+)'", s)[1]]
    if isinstance(x, ECC.ECDSASignature):
        s, b = repr(x), x.AsBytes()
        w = len(b) // 2
        return ['sg', curve_of_repr(s), re.search(r"module 'hash(\d+)'", s)[1], hx(int.from_bytes(b[:w], 'big')), hx(int.from_bytes(b[w:], 'big'))]
    if isinstance(x, ECC.ECElgamalCiphertext):
        C, D = x.C, x.D
        return ['ct', curve_of_repr(repr(C))] + pt_of(C) + [curve_of_repr(repr(D))] + pt_of(D)
    return ['un']

def operand(t):
    """token -> (python object, tag logged)"""
    if t in H: return H[t], ['h', t]
    if ':' not in t: raise Missing(t)
    k, v = t.split(':', 1)
    if k == 'i': return int(v, 16), ['i', v]
    if k == 'j': return (bool(int(v, 16)) if v in '01' else Sub(int(v, 16))), ['i', v]
    if k == 'b': return (b'' if v == '-' else bytes.fromhex(v)), ['b', v]
    if k == 't': return ('' if v == '-' else bytes.fromhex(v).decode()), ['t', v]
    if k == 'H': return hash_module(int(v)), ['H', v]
    if k == 'HB': return bad_hash(v), ['x', 'hash ' + v]
    if k == 'form': return v, ['form', v]
    return foreign(v), ['x', v]

def text(s): return s.encode().hex()
BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul)
IBIN = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul)
CMPS = dict(eq=operator.eq, ne=operator.ne, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge)
FORMS = {v: k for k, v in FORM.items()}
def ct_or_int(v): return v

def call(op, o, dst, names):
    """performs op on operand objects; returns ('new', obj) | ('none',) | ('val', [strings])"""
    if op in BIN: return 'new', (IBIN if names and names[0] == dst else BIN)[op](o[0], o[1])
    if op == 'pow': return 'new', pow(*o)
    if op == 'neg': return 'new', -o[0]
    if op == 'inv': return 'new', o[0].inverse()
    if op == 'sqrt': return 'new', o[0].sqrt()
    if op == 'repr':
        if isinstance(o[0], (ECC.ECDSASignature, ECC.ECDSASignatureScheme)): raise TypeError('not evaluable')
        return 'new', eval(repr(o[0]), dict(ECC=ECC))
    if op in CMPS:
        r = CMPS[op](o[0], o[1])
        if r is not True and r is not False: return 'val', ['odd', repr(r)]
        return 'val', ['1' if r else '0']
    if op == 'int': return 'val', [hx(int(o[0]))]
    if op == 'str': return 'val', [text(str(o[0]))]
    if op == 'compressed': return 'val', [o[0].compressed().hex()]
    if op == 'uncompressed': return 'val', [o[0].uncompressed().hex()]
    if op == 'asbytes': return 'val', [o[0].AsBytes().hex()]
    if op == 'affine':
        r = o[0].affine(); assert type(r) is tuple and len(r) == 2
        return 'val', [hx(r[0]), hx(r[1])]
    if op == 'attr':
        r = getattr(o[0], o[1])
        if type(r) is tuple: return 'val', [hx(v) for v in r]
        return 'val', [r if type(r) is str else hx(r)]
    if op == 'setattr': setattr(o[0], o[1], 5); return 'val', ['set']
    if op == 'part': return 'new', getattr(o[0], o[1])
    if op == 'check':
        r = o[0].PointIsValid(*o[1:]); assert r is True or r is False
        return 'val', ['1' if r else '0']
    if op == 'setup': assert o[0].setup_basemult() is None; return ('none',)
    if op == 'names': return 'val', list(ECC.ECurve._CurveNames())
    if op == 'fe': return 'new', ECC.FieldElement(*o)
    if op == 'frand': return 'new', ECC.FieldElement.urandom(*o)
    if op == 'named': return 'new', ECC.ECurve(*o)
    if op == 'curve': return 'new', getattr(ECC.ECurve, FORMS[o[0]])(*o[1:])
    if op == 'point': return 'new', ECC.ECPoint(*o)
    if op == 'affpt': return 'new', ECC.ECPoint(o[0], tuple(o[1:]))
    if op == 'prand': return 'new', ECC.ECPoint.urandom(*o)
    if op == 'gen': return 'new', ECC.ECPoint(o[0], o[0].G)
    if op == 'scheme': return 'new', ECC.ECDSASignatureScheme(*o)
    if op == 'sign': return 'new', o[0].Sign(*o[1:])
    if op == 'import': return 'new', ECC.ECDSASignature(*o)
    if op == 'verify':
        r = o[0].Verify(*o[1:]); assert r is True or r is False
        return 'val', ['1' if r else '0']
    if op == 'pair': return 'new', ECC.ECElgamalCiphertext(*o)
    if op == 'encrypt': return 'new', ECC.ECElgamalCiphertext.encrypt(*o[:2])
    if op == 'decrypt': return 'new', o[0].decrypt(*o[1:])
    if op == 'bad':         # calls which must be refused whatever they are given
        f = o[0]
        return 'val', [str(BADCALLS[f](*o[1:]))]
    raise SystemExit('unknown op ' + op)
BADCALLS = {
    'float': lambda x: float(x), 'pos': lambda x: +x, 'abs': lambda x: abs(x), 'inv': lambda x: ~x, 'div': lambda x, y: x / y, 'fdiv': lambda x, y: x // y, 'mod': lambda x, y: x % y,
    'and': lambda x, y: x & y, 'index': lambda x: [1][x], 'len': lambda x: len(x), 'item': lambda x: x[0], 'iter': lambda x: list(x), 'call': lambda x: x(),
    'hash': lambda x: hash(x) if type(x).__hash__ is None else (_ for _ in ()).throw(TypeError()), 'lshift': lambda x, y: x << y}
ATTRS = {'attr', 'setattr', 'part'}
RAW1 = {'attr', 'setattr', 'part'}
QUERY = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'int', 'str', 'compressed', 'uncompressed', 'asbytes', 'affine', 'attr', 'setattr', 'check', 'setup', 'names', 'verify', 'bad'}

def prepare(a):
    """words of a command -> (op, dst, objects, logged arguments, names)"""
    op, args = a[0], a[1:]
    dst, log = None, []
    if op not in QUERY: dst = args[0]; log.append(dst); args = args[1:]
    objs, names = [], []
    for i, t in enumerate(args):
        raw = (op in RAW1 and i == 1) or (op == 'bad' and i == 0)
        if raw: objs.append(t); log.append(t)
        else:
            o, g = operand(t)
            objs.append(o); log.append(g)
        names.append(t)
    return op, dst, objs, log, names

LAST = {}
OUT = 1
def emit(op, a, r, brief=False):
    c = []
    for h in list(LAST):
        if h not in H: c.append([h, 'gone']); del LAST[h]
    for h, x in H.items():
        o = observe(x)
        if LAST.get(h) != o: c.append([h] + o); LAST[h] = o
    k = NEWK[:]; NEWK.clear()
    os.write(OUT, (json.dumps(dict(op=op, a=a, r=r, c=c, k=k)) + '\n').encode())

blocks = None
def counter():
    global blocks
    if blocks is None:
        f = ctypes.CDLL(None).count_live_blocks
        f.restype = ctypes.c_long
        blocks = f
    return blocks

def once(op, objs, dst, names):
    try: r = call(op, objs, dst, names)
    except Exception as ex:
        return ['exc', type(ex).__name__], None
    if r[0] == 'none': return ['none'], None
    if r[0] == 'val': return ['ok'] + r[1], None
    if r[1] is None: return ['none'], None
    return ['ok'], r[1]

def run(a):
    if a[0] == 'del':
        if a[1] not in H: raise Missing(a[1])
        del H[a[1]]; return emit('del', [a[1]], [])
    if a[0] == 'reset': H.clear(); return emit('reset', [], [])
    if a[0] == 'gc': gc.collect(); return emit('gc', [], [])
    if a[0] == 'rep':
        k = int(a[1])
        op, dst, objs, log, names = prepare(a[2:])
        live = [x for x in H.values()] + [o for o in objs if isinstance(o, (bytes, str, int, list, dict, types.ModuleType, Plain))]
        live += [type(x) for x in objs]
        f = counter()
        def measure(k, warm):
            """reference counts which move with the calls, and blocks which every round leaves behind"""
            gc.collect(); gc.disable()       # (a collection empties the interpreter's free lists)
            for _ in range(warm): once(op, objs, dst, names)
            refs, growth = [sys.getrefcount(x) for x in live], []
            for _ in range(4):
                b = f()
                for _ in range(k): once(op, objs, dst, names)
                growth.append(f() - b)
            gc.enable(); gc.collect()
            now = [sys.getrefcount(x) for x in live]
            drift = max([abs(x - y) for x, y in zip(now, refs) if x < 1 << 30 and abs(x - y) >= k] or [0])
            g = min(growth)
            return drift, g if g >= k else 0
        drift, g = measure(k, 2 * k)
        if drift or g: drift, g = measure(40, 400)
        return emit('rep', [str(k), op] + log, [str(drift), str(g)])
    op, dst, objs, log, names = prepare(a)
    r, new = once(op, objs, dst, names)
    if new is not None:
        H[dst] = new
        if not isinstance(new, (ECC.FieldElement, ECC.ECurve, ECC.ECPoint, ECC.ECDSASignature, ECC.ECDSASignatureScheme, ECC.ECElgamalCiphertext)):
            r = ['odd', type(new).__name__]; del H[dst]
    new = None
    del objs
    emit(op, log, r)

if __name__ == '__main__':
    sys.set_int_max_str_digits(0)
    alarm = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    for line in sys.stdin:
        w = line.split()
        if not w or w[0].startswith('#'): continue
        signal.alarm(alarm)
        try: run(w)
        except Missing as m: emit('gc', ['skipped', str(m)], [])
    os._exit(0) if os.environ.get('NOEXIT') else None
