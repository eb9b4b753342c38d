"""Runtime of the generated code: linker, integer/float helpers, libc model, harness interface."""
import struct, math, sys, re, functools, marshal, hashlib, os
from fractions import Fraction
from . import mem
from .mem import *
from .mem import C
from .sym import *
from .sym import S, _ord_real
from .ir import Module, IRError, P, PTR
from .codegen import FnGen

NAN = float('nan'); INF = float('inf'); NINF = -INF
U64 = (1 << 64) - 1
BI = (bool, int)


# ------------------------------------------------------------------ integer helpers
def concrete(*a):
    for x in a:
        if x.__class__ is not int and x.__class__ is not bool: return False
    return True


def udiv(a, b):
    if b.__class__ is not int: b = S.concretize(b)
    if b == 0: raise PathEnd('ub', 'division by zero')
    return a // b


def urem(a, b):
    if b.__class__ is not int: b = S.concretize(b)
    if b == 0: raise PathEnd('ub', 'remainder by zero')
    return a % b


def sgn(a, n):
    """signed value"""
    h = 1 << (n - 1)
    if a.__class__ is int: return a - 2 * h if a >= h else a
    if a.__class__ is SInt:
        lo, hi = a.iv()
        if hi < h: return a
        if lo >= h: return a - 2 * h
        if S.decide(a >= h): return a - 2 * h
        return a
    return int(a)


def sdiv(a, b, n):
    a = sgn(a, n); b = sgn(S.concretize(b), n)
    if b == 0: raise PathEnd('ub', 'division by zero')
    if a.__class__ is int:
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
    else:
        neg = S.decide_(a < 0)
        q = (-a if neg else a) // abs(b)
        if neg != (b < 0): q = -q
    return q & ((1 << n) - 1)


def srem(a, b, n):
    a = sgn(a, n); b = sgn(S.concretize(b), n)
    if b == 0: raise PathEnd('ub', 'remainder by zero')
    if a.__class__ is int:
        r = abs(a) % abs(b)
        if a < 0: r = -r
    else:
        neg = S.decide_(a < 0)
        r = (-a if neg else a) % abs(b)
        if neg: r = -r
    return r & ((1 << n) - 1)


def ashr(a, k, n):
    if a.__class__ is FBits: return a.ashr(k)
    if k.__class__ is not int: k = S.concretize(k)
    return (sgn(a, n) >> k) & ((1 << n) - 1)


def sext(a, n, m):
    if a.__class__ is int:
        h = 1 << (n - 1)
        return a + ((1 << m) - (1 << n)) if a >= h else a
    r = sgn(a, n)
    if r is a: return a
    return r & ((1 << m) - 1)


def tob(x):
    k = x.__class__
    if k is int: return x & 1 == 1
    if k is SInt: return x.to_bool()
    return mkb(x)


def umax(a, b):
    c = a > b
    return (a if c else b) if c.__class__ is bool else ite(c, a, b)


def umin(a, b):
    c = a < b
    return (a if c else b) if c.__class__ is bool else ite(c, a, b)


def smax(a, b, n):
    h = 1 << (n - 1)
    c = (a ^ h) > (b ^ h)
    return (a if c else b) if c.__class__ is bool else ite(c, a, b)


def smin(a, b, n):
    h = 1 << (n - 1)
    c = (a ^ h) < (b ^ h)
    return (a if c else b) if c.__class__ is bool else ite(c, a, b)


def iabs(a, n):
    s = sgn(a, n)
    c = s < 0
    r = (-s if c else s) if c.__class__ is bool else ite(c, -s, s)
    return r & ((1 << n) - 1)


def uadd_o(a, b, n):
    s = a + b
    return (s & ((1 << n) - 1), s > (1 << n) - 1)


def usub_o(a, b, n):
    return ((a - b) & ((1 << n) - 1), a < b)


def umul_o(a, b, n):
    s = a * b
    return (s & ((1 << n) - 1), s > (1 << n) - 1)


def _so(s, n):
    h = 1 << (n - 1)
    return (s & ((1 << n) - 1), (s < -h) | (s >= h))


def sadd_o(a, b, n): return _so(sgn(a, n) + sgn(b, n), n)
def ssub_o(a, b, n): return _so(sgn(a, n) - sgn(b, n), n)
def smul_o(a, b, n): return _so(sgn(a, n) * sgn(b, n), n)


def uadd_sat(a, b, n): return umin(a + b, (1 << n) - 1)


def usub_sat(a, b, n):
    c = a < b
    return (0 if c else a - b) if c.__class__ is bool else ite(c, 0, a - b)


def sadd_sat(a, b, n):
    h = 1 << (n - 1)
    s = sgn(a, n) + sgn(b, n)
    return max(-h, min(h - 1, S.concretize(s))) & ((1 << n) - 1)


def ssub_sat(a, b, n):
    h = 1 << (n - 1)
    s = sgn(a, n) - sgn(b, n)
    return max(-h, min(h - 1, S.concretize(s))) & ((1 << n) - 1)


def ctlz(a, n):
    if a.__class__ is not int: a = S.concretize(a)
    return n - a.bit_length()


def cttz(a, n):
    if a.__class__ is not int: a = S.concretize(a)
    return n if a == 0 else (a & -a).bit_length() - 1


def ctpop(a, n):
    if a.__class__ is not int: a = S.concretize(a)
    return a.bit_count()


def bswap(a, n):
    if a.__class__ is int: return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')
    r = 0
    for i in range(n // 8):
        r = r + (((a >> (8 * i)) & 255) << (n - 8 - 8 * i))
    return r


def bitrev(a, n):
    a = S.concretize(a)
    return int(bin(a)[2:].zfill(n)[::-1], 2)


def fshl(a, b, c, n):
    c = S.concretize(c) % n
    if c == 0: return a
    return ((a << c) & ((1 << n) - 1)) | (b >> (n - c))


def fshr(a, b, c, n):
    c = S.concretize(c) % n
    if c == 0: return b
    return ((a << (n - c)) & ((1 << n) - 1)) | (b >> c)


def ucmp(a, b, n):
    c = a < b; d = a > b
    m = (1 << n) - 1
    if c.__class__ is bool and d.__class__ is bool: return m if c else 1 if d else 0
    if c: return m
    return 1 if d else 0


def scmp(a, b, n, m):
    h = 1 << (n - 1)
    return ucmp(a ^ h, b ^ h, m)


def cmpxchg(a, c, v, n):
    o = ldn(a, n)
    if o == c:
        stn(a, v, n)
        return (o, True)
    return (o, False)


def atomicrmw(op, a, v, n):
    o = ldn(a, n)
    m = (1 << (8 * n)) - 1
    if op == 'xchg': r = v
    elif op == 'add': r = (o + v) & m
    elif op == 'sub': r = (o - v) & m
    elif op == 'and': r = o & v
    elif op == 'or': r = o | v
    elif op == 'xor': r = o ^ v
    elif op == 'umax': r = umax(o, v)
    elif op == 'umin': r = umin(o, v)
    else: raise Unsupported('atomicrmw ' + op)
    stn(a, r, n)
    return o


# ------------------------------------------------------------------ floats
def frem(a, b):
    if a.__class__ is float and b.__class__ is float:
        try: return math.fmod(a, b)
        except ValueError: return NAN
    raise Unsupported('frem')


def sitofp(a, n):
    a = sgn(a, n)
    return float(a) if a.__class__ is int else SReal(a.p)


def uitofp(a):
    if a.__class__ is int or a.__class__ is bool: return float(a)
    if a.__class__ is not SInt: a = +a
    return SReal(a.p)


def ftrunc_int(x):
    """real -> truncated mathematical integer (int or SInt)"""
    if x.__class__ is float: return int(x)
    lo, hi = x.p.iv()
    if lo >= 0: return _flr(x)
    if hi <= 0: return -_flr(-x)
    if S.decide_(x < 0.0): return -_flr(-x)
    return _flr(x)


def _flr(x):
    # exact integer already?
    p = x.p
    if all(VARS[i].kind == 'I' for i in p.vars()) and all(c.__class__ is int or c.denominator == 1 for c in p.d.values()):
        return SInt(p)
    lo, hi = p.iv()
    if lo != -INF and hi != INF and math.floor(lo) == math.floor(hi): return math.floor(lo)
    return ffloor(x)


def fptosi(x, n):
    h = 1 << (n - 1)
    if x.__class__ is float:
        if x - x != 0 or not -h - 1 < x < h: return h
        return int(x) & ((1 << n) - 1)
    lo, hi = x.p.iv()
    if lo <= -h - 1 and S.decide_(x <= float(-h - 1)): return fresh('poison', 0, (1 << n) - 1)
    if hi >= h and S.decide_(x >= float(h)): return fresh('poison', 0, (1 << n) - 1)
    if lo < 0 and S.decide_(x <= -1.0): return ftrunc_int(x) + (1 << n)
    if lo < 0 and S.decide_(x < 0.0): return 0
    return within(_flr(x), 0, h - 1)


def fptoui(x, n):
    if x.__class__ is float:
        if x - x != 0 or not -1 < x < (1 << n): return 0
        return int(x) & ((1 << n) - 1)
    # out of range is poison: any value (the result may still be unused, as after hoisting)
    lo, hi = x.p.iv()
    if lo <= -1 and S.decide_(x <= -1.0): return fresh('poison', 0, (1 << n) - 1)
    if hi >= 1 << n and S.decide_(x >= float(1 << n)): return fresh('poison', 0, (1 << n) - 1)
    if lo < 0 and S.decide_(x < 0.0): return 0
    return within(_flr(x), 0, (1 << n) - 1)


def within(r, lo, hi):
    """note bounds that the path condition implies for the integer r"""
    if r.__class__ is int: return r
    p = r.p
    vs = p.vars()
    if len(vs) == 1 and p.d == {(next(iter(vs)),): 1}:
        v = VARS[next(iter(vs))]
        S.setbound(v, lo if v.lo is None or v.lo < lo else v.lo, hi if v.hi is None or v.hi > hi else v.hi)
        return SInt(PV(v))
    return r


def fptoui_sat(x, n):
    m = (1 << n) - 1
    if x.__class__ is float:
        if x != x: return 0
        return 0 if x <= 0 else m if x >= m else int(x)
    lo, hi = x.p.iv()
    if lo < 0:
        if S.decide_(x <= 0.0): return 0
    if hi > m:
        if S.decide_(x >= float(m)): return m
    return within(_flr(x), 0, m)


def fptosi_sat(x, n):
    h = 1 << (n - 1)
    m = (1 << n) - 1
    if x.__class__ is float:
        if x != x: return 0
        return max(-h, min(h - 1, int(x) if x - x == 0 else (h if x > 0 else -h))) & m
    if S.decide_(x <= float(-h)): return h
    if S.decide_(x >= float(h)): return h - 1
    return ftrunc_int(x) & m


def real_of(i):
    return float(i) if i.__class__ is int else SReal(i.p)


def floor_(x):
    if x.__class__ is float: return float(math.floor(x)) if x - x == 0 else x
    return real_of(_flr(x))


def ceil_(x):
    if x.__class__ is float: return float(math.ceil(x)) if x - x == 0 else x
    return real_of(-_flr(-x))


def trunc_(x):
    if x.__class__ is float: return float(math.trunc(x)) if x - x == 0 else x
    return real_of(ftrunc_int(x))


def round_(x):
    """half away from zero"""
    if x.__class__ is float:
        if x - x != 0: return x
        r = math.floor(abs(x))
        if abs(x) - r >= 0.5: r += 1
        return math.copysign(float(r), x)
    lo, hi = x.p.iv()
    neg = hi <= 0 or (lo < 0 and S.decide_(x < 0.0))
    y = -x if neg else x
    r = _flr(y + 0.5) if (y + 0.5).__class__ is SReal else int(math.floor(y + 0.5))
    return real_of(-r if neg else r)


def rint_(x):
    if x.__class__ is float: return float(round(x)) if x - x == 0 else x
    raise Unsupported('rint')


def copysign(a, b):
    if a.__class__ is float and b.__class__ is float: return math.copysign(a, b)
    neg = (math.copysign(1.0, b) < 0) if b.__class__ is float else (b < 0.0)
    m = fabs_(a)
    if neg.__class__ is bool: return -m if neg else m
    return ite(neg, -m, m)


def fmin_(a, b):
    if a.__class__ is float and a != a: return b
    if b.__class__ is float and b != b: return a
    c = a < b
    return (a if c else b) if c.__class__ is bool else ite(c, a, b)


def fmax_(a, b):
    if a.__class__ is float and a != a: return b
    if b.__class__ is float and b != b: return a
    c = a > b
    return (a if c else b) if c.__class__ is bool else ite(c, a, b)


def powi(a, k):
    k = sgn(S.concretize(k), 32)
    r = 1.0
    for _ in range(abs(k)): r = r * a
    return r if k >= 0 else fdiv(1.0, r)


def fmath(name, *a):
    if all(x.__class__ is float for x in a):
        try:
            return float(getattr(math, name)(*a)) if name != 'exp2' else 2.0 ** a[0]
        except (ValueError, OverflowError):
            if name == 'log' and a[0] == 0: return NINF
            if name in ('pow', 'exp'): return INF
            return NAN
    if name == 'pow' and a[1].__class__ is float and a[1] == int(a[1]) and 0 <= a[1] <= 4:
        return powi(a[0], int(a[1]))
    raise Unsupported('symbolic ' + name)


def fbits(x):
    k = x.__class__
    if k is float: return f2i(x)
    return FBits(x)


def bitsf(x):
    return bits_to_f(x)


def fbits32(x): return struct.unpack('<I', struct.pack('<f', x))[0]
def bitsf32(x): return struct.unpack('<f', struct.pack('<I', S.concretize(x)))[0]


def fptrunc(x):
    if x.__class__ is not float: raise Unsupported('symbolic float')
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(INF, x)


def fpclass(x, m):
    if x.__class__ is not float: cls = 0
    if x.__class__ is float:
        if x != x: cls = 3
        elif x == NINF: cls = 4
        elif x == INF: cls = 512
        elif x == 0: cls = 64 if math.copysign(1, x) > 0 else 32
        elif x < 0: cls = 8
        else: cls = 256
        return (m & cls) != 0
    if m & ~(8 | 256 | 32 | 64 | 16 | 128) == 0 and m == 8 | 256 | 32 | 64 | 16 | 128: return True
    if m & (8 | 256 | 32 | 64) == 0: return False
    raise Unsupported('fpclass')


# ------------------------------------------------------------------ vectors
def vpack(v, n, k):
    r = 0
    for i, x in enumerate(v):
        if k == 'f64': x = fbits(x)
        elif k == 'f32': x = fbits32(x)
        elif x.__class__ is bool: x = int(x)
        elif isinstance(x, SBool): x = +x
        r = r + (x << (n * i)) if i else x
    return r


def vunpack(a, n, cnt, k):
    m = (1 << n) - 1
    if cnt == 1: out = [a]
    else: out = [(a >> (n * i)) & m for i in range(cnt)]
    if k == 'f64': out = [bitsf(x) for x in out]
    if n == 1: out = [tob(x) for x in out]
    return tuple(out)


def insel(v, i, x):
    i = S.concretize(i)
    return v[:i] + (x,) + v[i + 1:]


def insv(v, idx, x):
    i = idx[0]
    if len(idx) > 1: x = insv(v[i], idx[1:], x)
    return v[:i] + (x,) + v[i + 1:]


def shuf(a, b, m):
    t = a + b
    return tuple([t[i] for i in m])


def pmovmskb(v):
    r = 0
    for i, x in enumerate(v): r |= (S.concretize(x) >> 7) << i
    return r


def vreduce(op, *a):
    v = a[-1]
    if op in ('fadd', 'fmul'):
        r = a[0]
        for x in v: r = r + x if op == 'fadd' else r * x
        return r
    r = v[0]
    for x in v[1:]:
        if op == 'add': r = r + x
        elif op == 'or': r = r | x
        elif op == 'and': r = r & x
        elif op == 'xor': r = r ^ x
        elif op == 'umax': r = umax(r, x)
        elif op == 'umin': r = umin(r, x)
        else: raise Unsupported('vreduce ' + op)
    if op == 'add': raise Unsupported('vreduce add width')
    return r


# ------------------------------------------------------------------ control
def unreach(f):
    raise PathEnd('ub', 'unreachable code reached in ' + f)


def trap():
    raise PathEnd('crash', 'abort (trap)')


def unsup(n):
    raise Unsupported('intrinsic ' + n)


def swt(c, t):
    if c.__class__ is int: return t.get(c, -1)
    if c.__class__ is bool: return t.get(int(c), -1)
    for v, k in t.items():
        if S.decide_(c == v): return k
    return -1


def load_rel(p, o):
    o = S.concretize(o)
    x = ld4(p + o)
    return (p + ((x ^ 0x80000000) - 0x80000000)) & U64


def byval(p, n):
    q = dyn_alloca(n)
    copy(q, p, n)
    return q


class VaList:
    pass


VA = {}


def va_start(ap, args):
    VA[adr(ap)] = [list(args), 0]


def va_copy(d, s):
    VA[adr(d)] = [VA[adr(s)][0], VA[adr(s)][1]]


def va_arg(ap, k):
    v = VA[adr(ap)]
    v[1] += 1
    return v[0][v[1] - 1]


# ------------------------------------------------------------------ linker
class Linker:
    def __init__(self):
        self.mods = []
        self.ns = {}
        self.fname = {}        # (mod or None, name) -> python name
        self.byname = {}       # exported functions: name -> Func
        self.gdefs = {}        # exported globals
        self.faddr = {}        # address -> python name
        self.gaddr = {}
        self.nconst = 0
        self.encoded = {}      # functions compiled (encoded): name -> instruction count
        self.ext = {}          # name -> python callable
        self.extused = set()
        self.cache = None
        for k, v in globals().items():
            if not k.startswith('__'): self.ns[k] = v
        self.ns['icall'] = self.icall
        self.galloc_done = set()
        self.abi = []
        self.trace = None

    def add(self, mod):
        self.mods.append(mod)
        for n, f in mod.funcs.items():
            if not f.local:
                if n in self.byname and 'weak' not in f.hdr[:60] and 'linkonce' not in f.hdr[:60]:
                    raise IRError('duplicate symbol ' + n)
                self.byname.setdefault(n, f)
        for n, g in mod.globals.items():
            if not g.local and g.type != 'ext': self.gdefs.setdefault(n, g)

    # constants of generated code
    def const_bytes(self, b):
        n = 'K%d' % self.nconst; self.nconst += 1
        self.ns[n] = b
        return n
    const_obj = const_bytes

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None: return f
        if name in mod.aliases: return self.resolve(mod, mod.aliases[name])
        if name in self.ext: return None
        return self.byname.get(name)

    def pyname(self, mod, name):
        f = self.resolve(mod, name)
        if name in self.ext or any(r.search(name) for r, _ in self.ext_re):
            f = None
        key = (f.mod.name, f.name) if f is not None else (None, name)
        n = self.fname.get(key)
        if n is not None: return n
        n = 'F%d_%s' % (len(self.fname), re.sub(r'\W', '_', name)[-40:])
        self.fname[key] = n
        if f is None:
            fn = self.ext.get(name)
            if fn is None:
                for r, g in self.ext_re:
                    if r.search(name): fn = functools.partial(g, name); break
            if fn is None:
                def fn(*a, name=name):
                    raise Unsupported('external function ' + name)
            self.ns[n] = self.wrap_ext(name, fn)
        else:
            self.ns[n] = self.stub(f, n)
            if self.pending is not None: self.pending.append((f, n))
        return n
    ext_re = []

    def wrap_ext(self, name, fn):
        return fn

    def stub(self, f, n):
        def call(*a):
            self.compile(f, n)
            return self.ns[n](*a)
        return call

    def pregen(self, entries):
        """translate everything the entry points can reach by direct calls (run later only if called)"""
        todo = [self.pyname(m, e) for e in entries for m in self.mods if e in m.funcs]
        self.pending = []
        for k, n in list(self.fname.items()):
            if k[0] not in (None, 'abi') and n not in self.code: self.pending.append((self.byfull(k), n))
        while self.pending:
            f, n = self.pending.pop()
            if n in self.code: continue
            self.code[n] = None
            g = FnGen(f.mod, f, self)
            try:
                src = g.gen(n)
            except (IRError, AssertionError, IndexError, KeyError, AttributeError):
                continue
            self.code[n] = (compile(src, '<%s>' % f.name, 'exec'), g.ninst)
        self.pending = None

    def byfull(self, k):
        for m in self.mods:
            if m.name == k[0]: return m.funcs[k[1]]

    code = {}
    pending = None

    def compile(self, f, n):
        c = self.code.get(n)
        if c is not None:
            self.encoded[f.name] = c[1]
            exec(c[0], self.ns)
            return
        g = FnGen(f.mod, f, self)
        try:
            src = g.gen(n)
        except (IRError, AssertionError, IndexError, KeyError, AttributeError) as e:
            raise Unsupported('cannot encode %s: %r' % (f.name, e))
        self.encoded[f.name] = g.ninst
        if self.trace: self.trace(f.name, src)
        code = compile(src, '<%s>' % f.name, 'exec')
        exec(code, self.ns)

    def callname(self, mod, name, rt=None, types=None):
        f = self.resolve(mod, name)
        if types is not None and f is not None and f.mod is not mod:
            f.mod.sig(f)
            a = [t.key() for t in f.params]; b = [t.key() for t in types]
            if (a != b and not f.vararg) or (rt.k != 'void' and f.ret.key() != rt.key()):
                return self.abi_shim(mod, f, rt, types)
        return self.pyname(mod, name)

    def abi_shim(self, mod, f, rt, types):
        """call across modules whose prototypes differ: System V argument classes decide what arrives"""
        n = self.pyname(f.mod, f.name)
        key = ('abi', f.name, rt.key(), tuple(t.key() for t in types))
        k = self.fname.get(key)
        if k: return k
        k = 'A%d' % len(self.fname)
        self.fname[key] = k
        self.abi.append(f.name)

        def call(*args):
            ints = [(a, t) for a, t in zip(args, types) if t.k in ('i', 'ptr')]
            flts = [(a, t) for a, t in zip(args, types) if t.k in ('f64', 'f32')]
            out = []
            for t in f.params:
                if t.k in ('i', 'ptr'):
                    if ints:
                        a, at = ints.pop(0)
                        w = 64 if t.k == 'ptr' else t.n
                        aw = 64 if at.k == 'ptr' else at.n
                        if w > aw and not (at.k == 'i' and at.n < 32):
                            hi = fresh('abi', 0, (1 << (w - aw)) - 1)
                            a = a + (hi << aw)
                        elif w < aw: a = a & ((1 << w) - 1)
                        out.append(a)
                    else:
                        out.append(fresh('abi', 0, (1 << (64 if t.k == 'ptr' else t.n)) - 1))
                else:
                    out.append(flts.pop(0)[0] if flts else freshf('abi'))
            r = self.ns[n](*out)
            if rt.k == 'void': return None
            if f.ret.k == 'void': return fresh('abi', 0, (1 << (64 if rt.k == 'ptr' else rt.n)) - 1) if rt.k != 'f64' else freshf('abi')
            if f.ret.key() != rt.key():
                w = 64 if rt.k == 'ptr' else rt.n; aw = 64 if f.ret.k == 'ptr' else f.ret.n
                if w > aw: r = (+r) + (fresh('abi', 0, (1 << (w - aw)) - 1) << aw)
                elif w < aw: r = r & ((1 << w) - 1)
            return r
        self.ns[k] = call
        return k

    def icall(self, a):
        if a.__class__ is not int: a = S.concretize(a)
        n = self.faddr.get(a)
        if n is None: raise PathEnd('memory', 'call through a wild function pointer 0x%x' % a)
        return self.ns[n]

    # addresses
    def addr(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and g.type == 'ext': g = self.gdefs.get(name) or g
        if g is None and name not in mod.funcs and name not in mod.decls and name not in mod.aliases:
            g = self.gdefs.get(name)
        if g is not None:
            if g.addr is None: self.place(g)
            return g.addr
        if name in mod.aliases:
            t = mod.aliases[name]
            if t in mod.globals: return self.addr(mod, t)
        n = self.pyname(mod, name)
        key = ('addr', n)
        a = self.gaddr.get(key)
        if a is None:
            a = FUNC0 + 16 * len(self.gaddr)
            self.gaddr[key] = a
            self.faddr[a] = n
        return a

    def place(self, g):
        if g.type == 'ext':
            f = self.extdata.get(g.name)
            if f is None:
                if g.weak:
                    g.addr = 0; return
                raise Unsupported('external data ' + g.name)
            g.addr = f()
            return
        t, p = g.mod.gtype(g)
        n = t.size()
        g.size = n
        al = max(g.align, 8)
        a = (C.glob + 16 + al - 1) // al * al
        poison(C.glob, a - C.glob, RZ_GLOB)
        end = (a + n + 7) // 8 * 8
        if end + 16 > GLOB1: raise Unsupported('out of global space')
        shadow(a, n)
        if n % 8: pass
        poison(end, 16, RZ_GLOB)
        C.glob = end
        g.addr = a
        v = p.const(t)
        self.init(a, t, v)
    extdata = {}

    def init(self, a, t, v):
        k = t.k
        if k == 'i' or k == 'ptr':
            n = t.store_size() if k == 'i' else 8
            if v: M8[a:a + n] = v.to_bytes(n, 'little')
        elif k == 'f64': M8[a:a + 8] = struct.pack('<d', v)
        elif k == 'f32': M8[a:a + 4] = struct.pack('<f', v)
        elif k in ('arr', 'vec'):
            e = t.e
            if e.k == 'i' and e.n == 8:
                M8[a:a + t.n] = bytes(v)
            else:
                s = e.size()
                for i, x in enumerate(v): self.init(a + i * s, e, x)
        elif k == 'struct':
            for f, o, x in zip(t.fs, t.layout()[0], v): self.init(a + o, f, x)
        elif k == 'fx': pass
        else: raise IRError('init ' + k)


def fresh(name, lo, hi):
    v = new_var('I', name, lo, hi)
    return SInt(PV(v))


def freshf(name):
    return SReal(PV(new_var('R', name)))
