"""Symbolic terms (exact integer / real polynomials with defined variables), path condition, z3 queries, forking."""
import os, sys, time, json, signal, math
from fractions import Fraction
import z3
from . import lp, uni

INF = float('inf')


class PathEnd(Exception):
    def __init__(self, status, msg='', **kw):
        Exception.__init__(self, status, msg)
        self.status = status; self.msg = msg; self.kw = kw


class Unsupported(PathEnd):
    def __init__(self, msg):
        PathEnd.__init__(self, 'unsupported', msg)


# ------------------------------------------------------------------ variables
class Var:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'z', 'zr', 'defs', 'ev', 'div', 'dvars', 'boolc', 'bit', 'ite', 'root')


VARS = []
DEFKEY = {}


def new_var(kind, name, lo=None, hi=None):
    v = Var()
    v.id = len(VARS); v.kind = kind; v.name = name; v.lo = lo; v.hi = hi
    v.z = z3.Int('%s!%d' % (name, v.id)) if kind == 'I' else z3.Real('%s!%d' % (name, v.id))
    v.zr = z3.ToReal(v.z) if kind == 'I' else v.z
    v.defs = (); v.ev = None; v.div = None; v.dvars = None; v.boolc = None; v.bit = None; v.ite = None; v.root = None
    VARS.append(v)
    return v


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('d', '_iv', '_z', '_vs', '_k')

    def __init__(self, d):
        self.d = d; self._iv = None; self._z = None; self._vs = None; self._k = None

    def const(self):
        d = self.d
        if not d: return 0
        if len(d) == 1 and () in d: return d[()]
        return None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def vars(self):
        if self._vs is None:
            s = set()
            for m in self.d: s.update(m)
            self._vs = frozenset(s)
        return self._vs

    def linear(self):
        for m in self.d:
            if len(m) > 1: return False
        return True

    def add(self, o):
        a, b = self.d, o.d
        if len(a) < len(b): a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None: r[m] = c
            else:
                x = x + c
                if x == 0: del r[m]
                else: r[m] = x
        return Poly(r)

    def addc(self, c):
        if c == 0: return self
        r = dict(self.d)
        x = r.get((), 0) + c
        if x == 0: r.pop((), None)
        else: r[()] = x
        return Poly(r)

    def scale(self, c):
        if c == 1: return self
        if c == 0: return Poly({})
        return Poly({m: x * c for m, x in self.d.items()})

    def sub(self, o):
        return self.add(o.scale(-1))

    def mul(self, o):
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                x = r.get(m, 0) + c1 * c2
                if x == 0: r.pop(m, None)
                else: r[m] = x
        if len(r) > 4000: raise Unsupported('polynomial too large')
        return Poly(r)

    def iv(self):
        if self._iv is None:
            lo = hi = 0
            for m, c in self.d.items():
                if not m:
                    lo = lo + c; hi = hi + c
                    continue
                l, h = None, None
                if len(m) == 2 and m[0] == m[1]:
                    v = VARS[m[0]]
                    if v.lo is None or v.hi is None:
                        l, h = 0, INF
                    else:
                        ends = (v.lo * v.lo, v.hi * v.hi)
                        l = 0 if v.lo <= 0 <= v.hi else min(ends); h = max(ends)
                else:
                    l, h = 1, 1
                    for i in m:
                        v = VARS[i]
                        vl = -INF if v.lo is None else v.lo
                        vh = INF if v.hi is None else v.hi
                        c4 = [_m(l, vl), _m(l, vh), _m(h, vl), _m(h, vh)]
                        l, h = min(c4), max(c4)
                if c > 0: l, h = _m(l, c), _m(h, c)
                else: l, h = _m(h, c), _m(l, c)
                lo = _a(lo, l); hi = _a(hi, h)
            self._iv = (lo, hi)
        return self._iv

    def z(self):
        if self._z is None:
            real = any(VARS[i].kind == 'R' for i in self.vars()) or any(not _isint(c) for c in self.d.values())
            ts = []
            for m, c in self.d.items():
                if not m:
                    ts.append(zq(c, real)); continue
                t = None
                for i in m:
                    v = VARS[i]
                    x = v.zr if real else v.z
                    t = x if t is None else t * x
                if c != 1: t = zq(c, real) * t
                ts.append(t)
            self._z = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else zq(0, real))
        return self._z

    def ev(self, model):
        s = 0
        for m, c in self.d.items():
            for i in m: c = c * model.val(i)
            s = s + c
        return s


def _isint(c):
    return c.__class__ is int or c.denominator == 1


def _m(a, b):
    if a == 0 or b == 0: return 0
    if a in (INF, -INF) or b in (INF, -INF):
        return INF if (a > 0) == (b > 0) else -INF
    return a * b


def _a(a, b):
    if a in (INF, -INF): return a
    if b in (INF, -INF): return b
    return a + b


def zq(c, real):
    if real:
        return z3.RealVal(str(c))
    return z3.IntVal(int(c))


def PV(v):
    return Poly({(v.id,): 1})


def PC(c):
    return Poly({(): c}) if c != 0 else Poly({})


# ------------------------------------------------------------------ models
class Model:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m or {}

    def val(self, i):
        x = self.m.get(i)
        if x is None:
            v = VARS[i]
            if v.ev is not None:
                x = v.ev(self)
            else:
                # unconstrained input: any value inside the bounds
                lo, hi = v.lo, v.hi
                if lo is None and hi is None: x = 0
                elif lo is None: x = min(0, hi)
                elif hi is None: x = max(0, lo)
                else: x = 0 if lo <= 0 <= hi else (lo + hi) // 2 if v.kind == 'I' else Fraction(lo + hi) / 2
            self.m[i] = x
        return x


# ------------------------------------------------------------------ booleans
class SBool:
    __slots__ = ()

    def __bool__(self):
        return S.decide(self)

    def __invert__(self):
        return self.neg()

    def __and__(self, o):
        if o.__class__ in (int, bool): return self if o & 1 else False
        return AndB(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ in (int, bool): return True if o & 1 else self
        return OrB(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if o.__class__ in (int, bool): return self.neg() if o & 1 else self
        return OrB(AndB(self, o.neg()), AndB(self.neg(), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        return self.__xor__(o) ^ 1

    def __ne__(self, o):
        return self.__xor__(o)
    __hash__ = None

    def __pos__(self):
        return bool_int(self)

    def __neg__(self):
        return -bool_int(self)

    def __index__(self):
        return 1 if S.decide(self) else 0

    # i1 arithmetic/compare corner cases
    def __lt__(self, o): return +self < +o
    def __gt__(self, o): return +self > +o
    def __le__(self, o): return +self <= +o
    def __ge__(self, o): return +self >= +o

    def ite(self, a, b):
        return ite(self, a, b)

    def __lshift__(self, o): return (+self) << o
    def __rshift__(self, o): return (+self) >> o
    def __add__(self, o): return (+self) + o
    __radd__ = __add__
    def __sub__(self, o): return (+self) - o
    def __mul__(self, o): return (+self) * o
    __rmul__ = __mul__


class Atom(SBool):
    __slots__ = ('op', 'p', '_n')

    def __init__(self, op, p):
        self.op = op; self.p = p; self._n = None

    def neg(self):
        if self.op == '<': return Atom('<=', self.p.scale(-1))
        if self.op == '<=': return Atom('<', self.p.scale(-1))
        if self._n is None:
            self._n = NotB(self)
        return self._n

    def z(self):
        e = self.p.z()
        return e < 0 if self.op == '<' else e <= 0 if self.op == '<=' else e == 0

    def ev(self, m):
        x = self.p.ev(m)
        return x < 0 if self.op == '<' else x <= 0 if self.op == '<=' else x == 0

    def vars(self): return self.p.vars()
    def linear(self): return self.p.linear()
    def key(self): return (self.op, self.p.key())
    def atoms(self): return [self]

    def map(self, f):
        return f(self)


class NotB(SBool):
    __slots__ = ('a',)

    def __init__(self, a): self.a = a
    def neg(self): return self.a
    def z(self): return z3.Not(self.a.z())
    def ev(self, m): return not self.a.ev(m)
    def vars(self): return self.a.vars()
    def linear(self): return self.a.linear()
    def key(self): return ('not', self.a.key())
    def map(self, f):
        r = self.a.map(f)
        return (not r) if r.__class__ is bool else r.neg()


class AndB(SBool):
    __slots__ = ('a', 'b')

    def __init__(self, a, b): self.a = a; self.b = b
    def neg(self): return OrB(self.a.neg(), self.b.neg())
    def z(self): return z3.And(self.a.z(), self.b.z())
    def ev(self, m): return self.a.ev(m) and self.b.ev(m)
    def vars(self): return self.a.vars() | self.b.vars()
    def linear(self): return self.a.linear() and self.b.linear()
    def key(self): return ('and', self.a.key(), self.b.key())
    def map(self, f):
        return band(self.a.map(f), self.b.map(f))


class OrB(SBool):
    __slots__ = ('a', 'b')

    def __init__(self, a, b): self.a = a; self.b = b
    def neg(self): return AndB(self.a.neg(), self.b.neg())
    def z(self): return z3.Or(self.a.z(), self.b.z())
    def ev(self, m): return self.a.ev(m) or self.b.ev(m)
    def vars(self): return self.a.vars() | self.b.vars()
    def linear(self): return self.a.linear() and self.b.linear()
    def key(self): return ('or', self.a.key(), self.b.key())
    def map(self, f):
        return bor(self.a.map(f), self.b.map(f))


def band(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return AndB(a, b)


def bor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return OrB(a, b)


def atom(op, p):
    c = p.const()
    if c is not None:
        return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0
    lo, hi = p.iv()
    if op == '<':
        if hi < 0: return True
        if lo >= 0: return False
    elif op == '<=':
        if hi <= 0: return True
        if lo > 0: return False
    else:
        if lo > 0 or hi < 0: return False
    if len(p.d) <= 2:
        r = bit_atom(op, p)
        if r is not None: return r
    return Atom(op, p)


def bit_atom(op, p):
    """comparisons of a | b or a & b with 0 or with the top bit, in terms of a and b"""
    c = 0; v = None
    for m, k in p.d.items():
        if not m: c = k
        elif len(m) == 1 and (k == 1 or k == -1): v = VARS[m[0]]; s = k
        else: return None
    if v is None or v.bit is None or v.kind != 'I': return None
    name, a, b, n = v.bit
    # s*v + c op 0
    if op == '=':
        k = -c * s
        if name == 'or' and k == 0: return AndB_(a_eq(a, 0), a_eq(b, 0))
        return None
    if op == '<': c += 1          # s*v + c <= 0
    if s == 1: k = -c             # v <= k
    else: k = c - 1               # v >= c  is not  v <= c - 1
    if name == 'or' and k == 0: r = AndB_(a_eq(a, 0), a_eq(b, 0))
    elif k == (1 << (n - 1)) - 1:
        x = a_le(a, k); y = a_le(b, k)
        r = AndB_(x, y) if name == 'or' else OrB_(x, y) if name == 'and' else None
    else: return None
    if r is None: return None
    if s == 1: return r
    return (not r) if r.__class__ is bool else r.neg()


def a_eq(p, k): return atom('=', p.addc(-k))
def a_le(p, k): return atom('<=', p.addc(-k))


def AndB_(x, y):
    if x is False or y is False: return False
    if x is True: return y
    if y is True: return x
    return AndB(x, y)


def OrB_(x, y):
    if x is True or y is True: return True
    if x is False: return y
    if y is False: return x
    return OrB(x, y)


# ------------------------------------------------------------------ integers
class SInt:
    __slots__ = ('p', 'c')

    def __init__(self, p, c=None):
        self.p = p; self.c = c

    def __add__(self, o):
        k = o.__class__
        if k is int: return SInt(self.p.addc(o)) if o else self
        if k is SInt: return mkint(self.p.add(o.p))
        if k is bool: return SInt(self.p.addc(int(o)))
        if isinstance(o, SBool): return self + (+o)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self): return SInt(self.p.scale(-1))
    def __pos__(self): return self

    def __sub__(self, o):
        k = o.__class__
        if k is int: return SInt(self.p.addc(-o)) if o else self
        if k is SInt: return mkint(self.p.sub(o.p))
        if k is bool: return SInt(self.p.addc(-int(o)))
        return NotImplemented

    def __rsub__(self, o):
        return SInt(self.p.scale(-1).addc(o))

    def __mul__(self, o):
        if o.__class__ in (int, bool): return mkint(self.p.scale(int(o)))
        if o.__class__ is SInt: return mkint(self.p.mul(o.p))
        return NotImplemented
    __rmul__ = __mul__

    # comparisons
    def _cmp(self, o):
        if o.__class__ in (int, bool): return self.p.addc(-o)
        if o.__class__ is SInt: return self.p.sub(o.p)
        return None

    def __lt__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else atom('<=', d.addc(1))

    def __le__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else atom('<=', d)

    def __gt__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else atom('<=', d.scale(-1).addc(1))

    def __ge__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else atom('<=', d.scale(-1))

    def __eq__(self, o):
        if self.c is not None and o.__class__ is int:
            return self.c.neg() if o == 0 else self.c if o == 1 else False
        d = self._cmp(o)
        if d is None:
            if isinstance(o, SBool): return self == +o
            return NotImplemented
        return atom('=', d)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return (not r) if r.__class__ is bool else r.neg()
    __hash__ = None

    def divmod(self, k):
        """floor division by a positive constant -> (q, r)"""
        p = self.p
        if all(_isint(c) and c % k == 0 for c in p.d.values()):
            return mkint(Poly({m: c // k for m, c in p.d.items()})), 0
        lo, hi = p.iv()
        ql = None if lo == -INF else int(lo // k)
        qh = None if hi == INF else int(hi // k)
        if ql is not None and ql == qh:
            return ql, mkint(p.addc(-ql * k))
        if ql is not None and qh == ql + 1:
            # two possible quotients: split on it when only one is feasible or cheap
            if S.decide(atom('<', p.addc(-qh * k))):
                return ql, mkint(p.addc(-ql * k))
            return qh, mkint(p.addc(-qh * k))
        # a word put together from parts
        pk = DEFKEY.get(('pack', p.key())) if PACKS else None
        if pk is not None:
            w, h, l = pk
            if k == w: return h, l
            if k < w and w % k == 0:
                q, r = divmod(l, k) if l.__class__ is int else l.divmod(k)
                return h * (w // k) + q, r
            if k > w and k % w == 0:
                q, r = divmod(h, k // w) if h.__class__ is int else h.divmod(k // w)
                return q, r * w + l
        # split off the divisible part
        dv = {}; rest = {}
        for m, c in p.d.items():
            (dv if _isint(c) and c % k == 0 and m else rest)[m] = c
        if dv and rest:
            q2, r2 = mkint(Poly(rest)).divmod(k) if rest and Poly(rest).const() is None else divmod(int(Poly(rest).const()), k)
            return mkint(Poly({m: c // k for m, c in dv.items()})) + q2, r2
        key = ('idiv', k, p.key())
        t = DEFKEY.get(key)
        if t is None:
            q = new_var('I', 'q', ql, qh); q.ev = lambda m, p=p, k=k: p.ev(m) // k
            r = new_var('I', 'r', 0, k - 1); r.ev = lambda m, p=p, k=k: p.ev(m) % k
            defs = (Atom('=', p.sub(PV(q).scale(k)).sub(PV(r))),)
            q.defs = defs; r.defs = defs; q.dvars = r.dvars = None
            t = DEFKEY[key] = (q, r)
        return SInt(PV(t[0])), SInt(PV(t[1]))

    def __floordiv__(self, k):
        if k.__class__ is not int: k = S.concretize(k)
        if k == 0: raise PathEnd('ub', 'division by zero')
        return self.divmod(k)[0]

    def __mod__(self, k):
        if k.__class__ is not int: k = S.concretize(k)
        if k == 0: raise PathEnd('ub', 'division by zero')
        return self.divmod(k)[1]

    def __rfloordiv__(self, o): return o // S.concretize(self)
    def __rmod__(self, o): return o % S.concretize(self)

    def __rshift__(self, k):
        if k.__class__ is not int: k = S.concretize(k)
        return self.divmod(1 << k)[0] if k else self

    def __lshift__(self, k):
        if k.__class__ is not int: k = S.concretize(k)
        return SInt(self.p.scale(1 << k))

    def __rlshift__(self, o): return o << S.concretize(self)
    def __rrshift__(self, o): return o >> S.concretize(self)

    def __and__(self, m):
        k = m.__class__
        if k is bool: m = int(m)
        elif k is SInt:
            return bitop('and', self, m)
        elif k is not int:
            return NotImplemented
        if m == 0: return 0
        if m & (m + 1) == 0:
            lo, hi = self.p.iv()
            if lo >= 0 and hi <= m: return self
            return self.divmod(m + 1)[1]
        lo, hi = self.p.iv()
        if lo < 0:
            if hi == INF or lo == -INF: raise Unsupported('and on unbounded')
        # contiguous runs of ones
        r = 0
        b = 0
        mm = m
        top = None if hi == INF else int(hi).bit_length()
        while mm:
            while not mm & 1: mm >>= 1; b += 1
            if top is not None and lo >= 0 and b >= top: break
            w = 0
            while mm & 1: mm >>= 1; w += 1
            part = (self >> b)
            part = part & ((1 << w) - 1)
            r = r + (part << b)
            b += w
        return r
    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ is bool: o = int(o)
        if o.__class__ is int:
            if o == 0: return self
            lo, hi = self.p.iv()
            if lo >= 0 and hi < INF:
                n = int(hi).bit_length()
                if o & ((1 << n) - 1) == 0: return pack(1 << n, o, self)
            w = 1 << o.bit_length()
            if all(_isint(c) and c % w == 0 for c in self.p.d.values()) and lo >= 0: return pack(w, self, o)
            return self + o - (self & o)
        if o.__class__ is SInt:
            for a, b in ((self, o), (o, self)):
                lo, hi = a.p.iv()
                if lo >= 0 and hi < INF:
                    k = 1 << int(hi).bit_length()
                    if all(_isint(c) and c % k == 0 for c in b.p.d.values()) and b.p.iv()[0] >= 0:
                        return pack(k, b, a)
            return bitop('or', self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if o.__class__ is bool: o = int(o)
        if o.__class__ is int:
            if o == 0: return self
            lo, hi = self.p.iv()
            if lo >= 0 and hi < INF and hi <= o and o & (o + 1) == 0:
                return o - self
            if o & (o - 1) == 0 and lo >= 0 and hi < 2 * o:
                # single top bit (sign-bit flip)
                if hi < o: return self + o
                if lo >= o: return self - o
                if S.decide(self < o): return self + o
                return self - o
            return self + o - ((self & o) << 1)
        if o.__class__ is SInt: return bitop('xor', self, o)
        return NotImplemented
    __rxor__ = __xor__

    def __index__(self):
        return S.concretize(self)
    __int__ = __index__

    def __bool__(self):
        r = self != 0
        return r if r.__class__ is bool else S.decide(r)

    def to_bool(self):
        if self.c is not None: return self.c
        lo, hi = self.p.iv()
        if lo >= 0 and hi <= 1: return self == 1
        return (self & 1) == 1

    def iv(self): return self.p.iv()


def mkint(p):
    c = p.const()
    return int(c) if c is not None else SInt(p)


PACKS = True


def pack(w, h, l):
    """h + l for h a multiple of w and 0 <= l < w; remembers the parts, which a division by a power of two gives back"""
    r = h + l
    if r.__class__ is SInt and len(r.p.d) > 1:
        h = h // w if h.__class__ is int else mkint(Poly({m: c // w for m, c in h.p.d.items()}))
        DEFKEY.setdefault(('pack', r.p.key()), (w, h, l))
    return r


def bool_int(c):
    key = ('b', c.key())
    v = DEFKEY.get(key)
    if v is None:
        v = new_var('I', 'b', 0, 1)
        v.boolc = c; v.ite = (c, PC(1), PC(0))
        v.ev = lambda m, c=c: 1 if c.ev(m) else 0
        one = Atom('=', PV(v).addc(-1)); zero = Atom('=', PV(v))
        v.defs = (OrB(AndB(c, one), AndB(c.neg(), zero)),)
        DEFKEY[key] = v
    return SInt(PV(v), c)


def named(a):
    """operands of bit operations are machine words: a loose interval is replaced by that of the word"""
    lo, hi = a.p.iv()
    if lo >= 0 and hi < INF: return a
    key = ('word', a.p.key())
    v = DEFKEY.get(key)
    if v is None:
        v = new_var('I', 'word', 0, (1 << 64) - 1)
        v.ev = lambda m, p=a.p: int(p.ev(m))
        v.defs = (Atom('=', PV(v).sub(a.p)),)
        DEFKEY[key] = v
    return SInt(PV(v))


def bitop(op, a, b):
    a = named(a); b = named(b)
    la, ha = a.p.iv(); lb, hb = b.p.iv()
    if a.c is not None and b.c is not None:
        return +{'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[op]
    n = max(int(ha).bit_length(), int(hb).bit_length())
    if n > 64 and op != 'or': raise Unsupported('wide bit operation')
    key = (op, a.p.key(), b.p.key())
    v = DEFKEY.get(key)
    if v is None:
        f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
        v = new_var('I', op, 0, (1 << n) - 1)
        v.ev = lambda m, p=a.p, q=b.p: f(int(p.ev(m)), int(q.ev(m)))
        v.defs = (BitDef(f, v, a.p, b.p, n),)
        v.bit = (op, a.p, b.p, n)
        DEFKEY[key] = v
    return SInt(PV(v))


class BitDef(SBool):
    """v == a op b on n-bit vectors"""
    __slots__ = ('f', 'v', 'pa', 'pb', 'n')

    def __init__(self, f, v, a, b, n): self.f = f; self.v = v; self.pa = a; self.pb = b; self.n = n
    def z(self):
        e = self.f(z3.Int2BV(self.pa.z(), self.n), z3.Int2BV(self.pb.z(), self.n))
        return z3.And(self.v.z == z3.BV2Int(e))
    def ev(self, m): return m.val(self.v.id) == self.f(int(self.pa.ev(m)), int(self.pb.ev(m)))
    def vars(self): return self.pa.vars() | self.pb.vars() | {self.v.id}
    def linear(self): return True
    def key(self): return ('bitdef', self.v.id)
    def map(self, f): return self


# ------------------------------------------------------------------ reals
def frac(x):
    """exact value of a finite float"""
    if x.__class__ is float:
        i = int(x)
        return i if i == x else Fraction(x)
    return x


class SReal:
    __slots__ = ('p',)

    def __init__(self, p): self.p = p

    def _k(self, o):
        k = o.__class__
        if k is SReal: return o.p
        if k is float or k is int:
            if o != o or o in (INF, -INF): return None
            return PC(frac(o))
        raise Unsupported('real op with %r' % k)

    def __add__(self, o):
        if o.__class__ is SReal: return mkreal(self.p.add(o.p))
        if o.__class__ is float:
            if o - o != 0: return o
            return SReal(self.p.addc(frac(o)))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if o.__class__ is SReal: return mkreal(self.p.sub(o.p))
        if o.__class__ is float:
            if o - o != 0: return -o
            return SReal(self.p.addc(-frac(o)))
        return NotImplemented

    def __rsub__(self, o):
        if o - o != 0: return o
        return SReal(self.p.scale(-1).addc(frac(o)))

    def __neg__(self): return SReal(self.p.scale(-1))
    def __pos__(self): return self

    def __mul__(self, o):
        if o.__class__ is SReal: return mkreal(self.p.mul(o.p))
        if o.__class__ is float:
            if o - o != 0:
                if o != o: return o
                if S.decide_(atom('=', self.p)): return float('nan')
                return o if S.decide_(atom('<', self.p.scale(-1))) else -o
            if o == 0: return 0.0
            return SReal(self.p.scale(frac(o)))
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o): return rdiv(self, o)
    def __rtruediv__(self, o): return rdiv(o, self)

    def __lt__(self, o): return rcmp('<', self, o)
    def __le__(self, o): return rcmp('<=', self, o)
    def __gt__(self, o): return rcmp('<', o, self)
    def __ge__(self, o): return rcmp('<=', o, self)
    def __eq__(self, o): return rcmp('=', self, o)

    def __ne__(self, o):
        r = rcmp('=', self, o)
        return (not r) if r.__class__ is bool else r.neg()
    __hash__ = None

    def __bool__(self): raise Unsupported('real as bool')
    def __float__(self): raise Unsupported('real to concrete float')


def mkreal(p):
    c = p.const()
    if c is not None:
        try:
            f = float(c)
        except OverflowError:
            return SReal(p)
        return f if frac(f) == c else SReal(p)
    return SReal(p)


def rpoly(x):
    if x.__class__ is SReal: return x.p
    return PC(frac(x))


def rcmp(op, a, b):
    for x, left in ((a, 1), (b, 0)):
        if x.__class__ is float and x - x != 0:
            if x != x: return False
            if op == '=': return False
            return (x < 0) if left else (x > 0)
    return atom(op, rpoly(a).sub(rpoly(b)))


def fdiv(a, b):
    if a.__class__ is float and b.__class__ is float:
        try:
            return a / b
        except ZeroDivisionError:
            if a != a or a == 0: return float('nan')
            return math.copysign(INF, a) * math.copysign(1.0, b)
    return rdiv(a, b)


def rdiv(a, b):
    if b.__class__ is float:
        if b - b != 0:
            return b if b != b else 0.0
        if b == 0:
            if S.decide_(atom('=', a.p)): return float('nan')
            pos = S.decide_(atom('<', a.p.scale(-1)))
            return INF if pos == (math.copysign(1.0, b) > 0) else -INF
        return mkreal(a.p.scale(Fraction(1) / frac(b)))
    if a.__class__ is float and a - a != 0:
        if a != a: return a
        return a if S.decide_(atom('<', b.p.scale(-1))) else -a
    den = b.p
    num = rpoly(a)
    dc = den.const()
    if dc is not None:
        return mkreal(num.scale(Fraction(1) / dc)) if dc != 0 else float('nan')
    # sign of the denominator
    if S.decide_(atom('<', den.scale(-1))):
        sg = 1
    elif S.decide_(atom('<', den)):
        sg = -1
    else:
        # denominator is zero on this path
        if S.decide_(atom('=', num)): return float('nan')
        return INF if S.decide_(atom('<', num.scale(-1))) else -INF
    nc = num.const()
    if nc == 0: return 0.0
    # proportional?
    m0 = next(iter(den.d))
    if m0 in num.d and len(num.d) == len(den.d):
        r = Fraction(num.d[m0]) / den.d[m0]
        if all(num.d.get(m) == c * r for m, c in den.d.items()): return mkreal(PC(r))
    if sg < 0: num = num.scale(-1); den = den.scale(-1)
    # normalise by a leading coefficient so equal quotients share a variable
    lead = abs(den.d[min(den.d)])
    if lead != 1:
        num = num.scale(Fraction(1) / lead); den = den.scale(Fraction(1) / lead)
    scale = 1
    nl = num.d[min(num.d)]
    if nl != 1:
        scale = nl; num = num.scale(Fraction(1) / nl)
    key = ('div', num.key(), den.key())
    v = DEFKEY.get(key)
    if v is None:
        nlo, nhi = num.iv(); dlo, dhi = den.iv()
        lo = hi = None
        if dlo > 0:
            cands = []
            for x in (nlo, nhi):
                for y in (dlo, dhi):
                    cands.append(0 if y == INF else (x if x in (INF, -INF) else Fraction(x) / y))
            lo, hi = min(cands), max(cands)
            lo = None if lo == -INF else lo; hi = None if hi == INF else hi
        v = new_var('R', 'd', lo, hi)
        v.div = (num, den)     # den > 0 on this path
        v.ev = lambda m, n=num, d=den: (Fraction(n.ev(m)) / d.ev(m)) if d.ev(m) != 0 else 0
        v.defs = (Atom('=', PV(v).mul(den).sub(num)),)
        DEFKEY[key] = v
    return SReal(PV(v).scale(scale))


def fsqrt(a):
    if a.__class__ is float:
        return math.sqrt(a) if a >= 0 else float('nan')
    if a.__class__ is not SReal: raise Unsupported('sqrt')
    p = a.p
    if S.decide_(atom('<', p)): return float('nan')
    key = ('sqrt', p.key())
    v = DEFKEY.get(key)
    if v is None:
        lo, hi = p.iv()
        v = new_var('R', 's', 0 if lo <= 0 else _sq(lo, -1), None if hi == INF else _sq(hi, 1))
        v.ev = lambda m, p=p: _sqe(p.ev(m))
        v.defs = (Atom('=', PV(v).mul(PV(v)).sub(p)), Atom('<=', PV(v).scale(-1)))
        v.root = p
        DEFKEY[key] = v
    return SReal(PV(v))


def _sqe(x):
    x = Fraction(x)
    if x <= 0: return 0
    sh = 240
    n = math.isqrt((x.numerator << (2 * sh)) // x.denominator)
    r = Fraction(n, 1 << sh)
    # exact square root when there is one
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator: return Fraction(a, b)
    return r


def _sq(x, d):
    r = _sqe(x)
    return r + d * Fraction(1, 1 << 100)


def fabs_(a):
    if a.__class__ is float: return abs(a)
    lo, hi = a.p.iv()
    if lo >= 0: return a
    if hi <= 0: return -a
    return ite(atom('<', a.p), -a, a)


def ffloor(a):
    """SReal -> SInt floor"""
    p = a.p
    key = ('floor', p.key())
    v = DEFKEY.get(key)
    if v is None:
        lo, hi = p.iv()
        v = new_var('I', 'fl', None if lo == -INF else math.floor(lo), None if hi == INF else math.floor(hi))
        v.ev = lambda m, p=p: math.floor(p.ev(m))
        v.defs = (Atom('<=', PV(v).sub(p)), Atom('<', p.sub(PV(v)).addc(-1)))
        DEFKEY[key] = v
    return SInt(PV(v))


def ite(c, a, b):
    if c.__class__ in (bool, int): return a if c else b
    if a is b: return a
    ka, kb = a.__class__, b.__class__
    if ka is tuple:
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if ka in (float, SReal) and kb in (float, SReal):
        for x in (a, b):
            if x.__class__ is float and x - x != 0:
                return a if S.decide(c) else b
        if ka is float and kb is float and a == b: return a
        pa, pb = rpoly(a), rpoly(b)
        if pa.d == pb.d: return a
        kind = 'R'
    elif ka in (int, bool, SInt) and kb in (int, bool, SInt):
        if ka is not SInt and kb is not SInt:
            if a == b: return a
            if a == 1 and b == 0: return bool_int(c)
            if a == 0 and b == 1: return bool_int(c.neg())
        pa = a.p if ka is SInt else PC(int(a)); pb = b.p if kb is SInt else PC(int(b))
        if pa.d == pb.d: return a
        kind = 'I'
    elif (isinstance(a, SBool) or ka in (bool, int)) and (isinstance(b, SBool) or kb in (bool, int)):
        return bor(band(c, mkb(a)), band(c.neg(), mkb(b)))
    else:
        return a if S.decide(c) else b
    key = ('ite', kind, c.key(), pa.key(), pb.key())
    v = DEFKEY.get(key)
    if v is None:
        la, ha = pa.iv(); lb, hb = pb.iv()
        lo, hi = min(la, lb), max(ha, hb)
        v = new_var(kind, 'ite', None if lo == -INF else lo, None if hi == INF else hi)
        v.ite = (c, pa, pb)
        v.ev = lambda m, c=c, pa=pa, pb=pb: pa.ev(m) if c.ev(m) else pb.ev(m)
        v.defs = (OrB(AndB(c, Atom('=', PV(v).sub(pa))), AndB(c.neg(), Atom('=', PV(v).sub(pb)))),)
        DEFKEY[key] = v
    return SReal(PV(v)) if kind == 'R' else SInt(PV(v))


def bite(c, a, b):
    """ite on i1 values"""
    return bor(band(c, mkb(a)), band(c.neg(), mkb(b)))


def mkb(x):
    if x.__class__ in (int, bool): return bool(x)
    if x.__class__ is SInt: return x.to_bool()
    return x


# ------------------------------------------------------------------ bit patterns of reals
SIGN64 = 1 << 63
import struct as _st


def f2i(x):
    return _st.unpack('<Q', _st.pack('<d', x))[0]


def i2f(x):
    return _st.unpack('<d', _st.pack('<Q', x))[0]


class FBits:
    """the 64-bit pattern of a (symbolic, finite) double"""
    __slots__ = ('r',)

    def __init__(self, r): self.r = r

    def __and__(self, o):
        if o == 0xFFFFFFFFFFFFFFFF: return self
        if o == SIGN64 - 1: return FBits(fabs_(self.r)) if fabs_(self.r).__class__ is SReal else f2i(fabs_(self.r))
        if o == SIGN64: return (+mkbi(self.r < 0.0)) << 63
        raise Unsupported('FBits & %x' % o)
    __rand__ = __and__

    def __xor__(self, o):
        if o.__class__ is int:
            if o == SIGN64: return FBits(-self.r)
            if o == 0: return self
        if o.__class__ is FMask and o.r.p.key() == self.r.p.key():
            return FOrd(self.r, False)
        raise Unsupported('FBits ^ %r' % (o,))
    __rxor__ = __xor__

    def ashr(self, k):
        if k == 63: return FSign(self.r)
        raise Unsupported('FBits ashr %d' % k)

    def __rshift__(self, k):
        if k == 63: return +mkbi(self.r < 0.0)
        raise Unsupported('FBits >> %d' % k)

    def __eq__(self, o):
        if o.__class__ is FBits: return self.r == o.r
        if o.__class__ is int: return self.r == i2f(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r) if r.__class__ is bool else r.neg()
    __hash__ = None

    # unsigned comparison with the sign bit
    def __ge__(self, o):
        if o == SIGN64: return self.r < 0.0
        raise Unsupported('FBits cmp')

    def __lt__(self, o):
        if o == SIGN64: return self.r >= 0.0
        raise Unsupported('FBits cmp')

    def __gt__(self, o):
        if o == SIGN64 - 1: return self.r < 0.0
        raise Unsupported('FBits cmp')


def mkbi(x):
    return int(x) if x.__class__ is bool else x


class FSign:
    """0 or all ones: sign of a real, 64 bit"""
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
    def __rshift__(self, k):
        if k == 1: return FMask(self.r)
        raise Unsupported('FSign >>')
    def __and__(self, o):
        if o == 0xFFFFFFFFFFFFFFFF: return self
        if o == SIGN64 - 1: return FMask(self.r)
        raise Unsupported('FSign &')
    __rand__ = __and__


class FMask:
    __slots__ = ('r',)
    def __init__(self, r): self.r = r
    def __xor__(self, o):
        if o.__class__ is FBits: return o ^ self
        raise Unsupported('FMask ^')
    def __and__(self, o):
        if o in (0xFFFFFFFFFFFFFFFF, SIGN64 - 1): return self
        raise Unsupported('FMask &')
    __rand__ = __and__
    __rxor__ = __xor__


def _ord_real(o, flipped):
    """decode an ordered-int pattern of a concrete double"""
    if flipped: o ^= SIGN64
    if o >= SIGN64: o ^= SIGN64 - 1
    return i2f(o)


class FOrd:
    """total-order key of a real (signed 64-bit); flipped = xored with the sign bit (unsigned order)"""
    __slots__ = ('r', 'fl')
    def __init__(self, r, fl): self.r = r; self.fl = fl
    def __xor__(self, o):
        if o == SIGN64: return FOrd(self.r, not self.fl)
        raise Unsupported('FOrd ^')
    __rxor__ = __xor__
    def __and__(self, o):
        if o == 0xFFFFFFFFFFFFFFFF: return self
        raise Unsupported('FOrd &')
    __rand__ = __and__
    def _o(self, o):
        if o.__class__ is FOrd:
            if o.fl != self.fl: raise Unsupported('FOrd mix')
            return o.r
        return _ord_real(o, self.fl)
    def __lt__(self, o): return self.r < self._o(o)
    def __le__(self, o): return self.r <= self._o(o)
    def __gt__(self, o): return self.r > self._o(o)
    def __ge__(self, o): return self.r >= self._o(o)
    def __eq__(self, o): return self.r == self._o(o)
    def __ne__(self, o): return self.r != self._o(o)
    __hash__ = None


# ------------------------------------------------------------------ path state
class State:
    def __init__(self):
        self.pc = []            # asserted SBool
        self.models = []
        self.inputs = []        # (kind, id, Var)
        self.obs = []
        self.checks = {}        # id -> times proved
        self.reach = set(); self.may_end = False
        self.nq = 0; self.tq = 0.0; self.nun = 0; self.ndec = 0; self.nfork = 0; self.nlp = 0
        self.pending = []; self.unis = {}
        self.violations = []
        self.lin = None
        self.lin_n = 0
        self.lin_vars = set()
        self.depth = 0
        self.cfg = {}
        self.children = []
        self.resdir = None
        self.token_r = self.token_w = None
        self.has_token = False
        self.queue_note = None
        self.nl_timeout = 20
        self.unknown_checks = []
        self.decl_only = set()
        self.pcv = []; self.by_var = {}

    # -- constraint slicing
    def slice(self, vs):
        """(constraints, vars) of the cone of influence of vs, including definitions and bounds"""
        need = set(vs)
        todo = list(need)
        cons = []
        seen = set()
        pcv = self.pcv
        used = [False] * len(self.pc)
        while todo:
            i = todo.pop()
            v = VARS[i]
            for d in v.defs:
                if id(d) not in seen:
                    seen.add(id(d))
                    cons.append(d)
                    for j in d.vars():
                        if j not in need: need.add(j); todo.append(j)
            for k in self.by_var.get(i, ()):
                if not used[k]:
                    used[k] = True
                    cons.append(self.pc[k])
                    for j in pcv[k]:
                        if j not in need: need.add(j); todo.append(j)
        return cons, need

    def assert_(self, c):
        if c.__class__ in (bool, int): return
        if c.__class__ is AndB:
            self.assert_(c.a); self.assert_(c.b); return
        k = len(self.pc)
        self.pc.append(c)
        vs = c.vars()
        self.pcv.append(vs)
        # a constraint on a defined variable also constrains the variables it is defined from
        full = set()
        for i in vs: full |= closure(i)
        for i in full: self.by_var.setdefault(i, []).append(k)
        self.models = [m for m in self.models if c.ev(m)]
        # single-variable linear atoms tighten bounds
        if c.__class__ is Atom and len(vs) == 1 and c.op != '=' and len(c.p.d) <= 2:
            (i,) = vs
            a = c.p.d.get((i,))
            if a is not None:
                b = -Fraction(c.p.d.get((), 0)) / a
                v = VARS[i]
                if v.kind == 'I':
                    b = math.floor(b) if a > 0 else math.ceil(b)
                if a > 0:
                    if v.hi is None or b < v.hi: self.setbound(v, v.lo, b)
                else:
                    if v.lo is None or b > v.lo: self.setbound(v, b, v.hi)

    def setbound(self, v, lo, hi):
        # Var objects are per-process (fork), so mutating is path-local; cached intervals stay sound (wider)
        v.lo = lo; v.hi = hi

    # -- solver
    def _lp(self, cond, cons, budget):
        """exactly verified linear programming with branch and bound; 'unknown' leaves the query to z3"""
        cs = None
        if any(VARS[i].div is not None for c in [cond] + list(cons) for i in c.vars()):
            try:
                cs = [elim(c) for c in [cond] + list(cons)]
            except Unsupported:
                return 'unknown', None
            cs = [c for c in cs if c is not True]
            if any(c is False for c in cs): return 'unsat', None
        return lp.decide(sys.modules[__name__], cond, cons, VARS, Model, budget, cs)

    def query(self, cond, want_model=True, use_lp=120, z3_too=True):
        """is pc & cond satisfiable?  returns ('sat', Model) | ('unsat', None) | ('unknown', None)"""
        self.nq += 1
        t0 = time.time()
        cons, vs = self.slice(cond.vars())
        lin = cond.linear() and all(c.linear() for c in cons)
        try:
            r = 'unknown'
            base = [i for i in vs if VARS[i].ev is None]
            if len(base) == 1:
                r, m = uni.decide(sys.modules[__name__], self, base[0], cond)
            if use_lp and r == 'unknown':
                if not lin: use_lp = min(use_lp, self.cfg.get('bb', 3))
                r, m = self._lp(cond, cons, use_lp)
                if r != 'unknown': self.nlp += 1
            if r != 'unknown':
                pass
            elif not z3_too:
                return r, None
            elif lin:
                r, m = self._lin(cond, cons, vs)
            else:
                r, m = self._nl(cond, cons, vs)
        finally:
            self.tq += time.time() - t0
        if r == 'sat':
            md = Model(m)
            base = self.models[0] if self.models else None
            if base is not None:
                for i, x in base.m.items():
                    if i not in md.m and VARS[i].ev is None: md.m[i] = x
            return 'sat', md
        if r == 'unknown': self.nun += 1
        return r, None

    def _bounds(self, vs):
        out = []
        for i in vs:
            v = VARS[i]
            if v.lo is not None: out.append(v.z >= zq(v.lo, v.kind == 'R'))
            if v.hi is not None: out.append(v.z <= zq(v.hi, v.kind == 'R'))
        return out

    def _bv(self, cond, cons, vs):
        """bounded integers with bit operations: as bit vectors wide enough for every intermediate value"""
        width = {}
        for i in vs:
            v = VARS[i]
            if v.kind != 'I' or v.lo is None or v.hi is None or v.lo == -INF or v.hi == INF: return 'unknown', None
            width[i] = max(int(abs(v.lo)).bit_length(), int(abs(v.hi)).bit_length()) + 1
            if width[i] > 129: return 'unknown', None
        bvs = {i: z3.BitVec('b!%d' % i, width[i]) for i in vs}

        def ext(e, w):
            return z3.SignExt(w - e.size(), e) if w > e.size() else e

        def poly(p, least=0):
            m = 1
            for k, c in p.d.items():
                if not _isint(c): raise Unsupported('fraction')
                x = abs(int(c))
                for i in k: x *= max(int(abs(VARS[i].lo)), int(abs(VARS[i].hi)))
                m += x
            w = max(m.bit_length() + 2, least, *[width[i] for k in p.d for i in k]) if p.d else max(3, least)
            if w > 300: raise Unsupported('too wide')
            e = z3.BitVecVal(int(p.d.get((), 0)), w)
            for k, c in p.d.items():
                if not k: continue
                t = ext(bvs[k[0]], w)
                for i in k[1:]: t = t * ext(bvs[i], w)
                e = e + (t if c == 1 else z3.BitVecVal(int(c), w) * t)
            return e

        def zb(c):
            k = c.__class__
            if k is Atom:
                e = poly(c.p)
                return e < 0 if c.op == '<' else e <= 0 if c.op == '<=' else e == 0
            if k is NotB: return z3.Not(zb(c.a))
            if k is AndB: return z3.And(zb(c.a), zb(c.b))
            if k is OrB: return z3.Or(zb(c.a), zb(c.b))
            if k is BitDef:
                n = c.n + 2
                a = z3.Extract(c.n - 1, 0, poly(c.pa, n)); b = z3.Extract(c.n - 1, 0, poly(c.pb, n))
                w = max(n, width[c.v.id])
                return ext(bvs[c.v.id], w) == z3.ZeroExt(w - c.n, c.f(a, b))
            raise Unsupported('no bit-vector form')
        s = z3.SolverFor('QF_BV')
        s.set('rlimit', self.cfg.get('bv_rlimit', 40000000))
        try:
            for i in vs:
                v = VARS[i]
                s.add(bvs[i] >= z3.BitVecVal(int(v.lo), width[i]), bvs[i] <= z3.BitVecVal(int(v.hi), width[i]))
            for c in cons: s.add(zb(c))
            s.add(zb(cond))
        except Unsupported:
            return 'unknown', None
        r = s.check()
        if r == z3.sat:
            zm = s.model()
            out = {}
            for i in vs:
                if VARS[i].ev is not None: continue
                x = zm[bvs[i]]
                if x is not None: out[i] = x.as_signed_long()
            return 'sat', out
        return ('unsat' if r == z3.unsat else 'unknown'), None

    def _lin(self, cond, cons, vs):
        if any(c.__class__ is BitDef for c in cons):
            r, m = self._bv(cond, cons, vs)
            if r != 'unknown': return r, m
        s = z3.SimpleSolver()
        s.set('rlimit', self.cfg.get('lin_rlimit', 40000000))
        for e in self._bounds(vs): s.add(e)
        for c in cons: s.add(c.z())
        s.add(cond.z())
        r = s.check()
        if r == z3.sat:
            return 'sat', self._model(s.model(), vs)
        if r == z3.unsat: return 'unsat', None
        return 'unknown', None

    def _model(self, zm, vs):
        out = {}
        for i in vs:
            v = VARS[i]
            if v.ev is not None: continue
            x = zm[v.z]
            if x is None: continue
            out[i] = zval(x)
        return out

    def _nl(self, cond, cons, vs):
        # linear relaxation first (cheap, sound for unsat)
        lc = [c for c in cons if c.linear()]
        if cond.linear() and lc and any(i for c in cons for i in c.vars() if VARS[i].kind == 'I'):
            r, m = self._lin(cond, lc, vs)
            if r == 'unsat': return r, None
        # eliminate quotient variables, relax integers to reals, ask nlsat in a killable child
        try:
            cs = [elim(c) for c in cons + [cond]]
        except Unsupported:
            cs = cons + [cond]
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs): return 'unsat', None
        vs2 = set()
        for c in cs: vs2 |= c.vars()
        ints = [i for i in vs2 if VARS[i].kind == 'I']
        r, m = nl_quick(cs, vs2, self.cfg.get('nl_rlimit', 300000))
        if r == 'unknown' and cs:
            r, m = self._lp(cond, cons, self.cfg.get('bb2', 60))
            if r != 'unknown': return r, m
        if r == 'unknown': r, m = nl_child(cs, vs2, self.nl_timeout)
        if r == 'sat' and ints and not self.plausible(cons, cond, m):
            r, m = nl_child(cs, vs2, self.nl_timeout, mixed=True)
            if r == 'sat' and not self.plausible(cons, cond, m): return 'unknown', None
            return r, m
        if r == 'sat' and ints:
            if any(x.denominator != 1 for i, x in m.items() if VARS[i].kind == 'I' and not isinstance(x, int)):
                # integrality matters: try rounding candidates / exact mixed query
                r2, m2 = nl_child(cs, vs2, self.nl_timeout, mixed=True)
                if r2 != 'unknown': return r2, m2
                return 'sat', {i: (Fraction(round(x)) if VARS[i].kind == 'I' else x) for i, x in m.items()}
        return r, m

    def plausible(self, cons, cond, m):
        """the relaxation's model, with integers rounded, satisfies everything that is not an equality"""
        md = Model({i: Fraction(round(x)) if VARS[i].kind == 'I' else x for i, x in m.items() if VARS[i].ev is None})
        try:
            if not cond.ev(md): return False
            return all(c.ev(md) for c in cons if not (c.__class__ is Atom and c.op == '='))
        except Exception:
            return False

    # -- decisions
    def decide_(self, c):
        if c.__class__ is bool: return c
        return self.decide(c)

    def decide(self, c):
        if c.__class__ in (bool, int): return bool(c)
        self.ndec += 1
        t = f = None
        for m in self.models:
            if c.ev(m): t = m
            else: f = m
            if t is not None and f is not None: break
        n = None
        if t is None:
            r, m = self.query(c)
            if r == 'unsat':
                self.learn(c.neg(), f); return False
            t = m; tun = r == 'unknown'
            if m is not None and self.modelok(m): self.models.append(m)
        if f is None:
            n = c.neg()
            r, m = self.query(n)
            if r == 'unsat':
                self.learn(c, t); return True
            if m is not None and self.modelok(m): self.models.append(m)
        if len(self.models) > 12: self.models = self.models[-12:]
        return self.fork(c)

    def modelok(self, m):
        try:
            return all(c.ev(m) for c in self.pc)
        except Exception:
            return False

    def learn(self, c, m):
        # implied by the path condition: no need to assert; but tighten single-variable bounds cheaply
        if c.__class__ is Atom and len(c.vars()) == 1:
            pass

    def fork(self, c):
        self.nfork += 1
        if not self.spawn():
            self.assert_(c.neg())
            return False
        self.assert_(c)
        return True

    def spawn(self):
        """fork a process; returns True in the child, False in the parent (after the child has finished or was detached)"""
        k = self.shared_paths()
        if self.shm[8]: raise PathEnd('limit', 'out of time')
        if k > self.cfg.get('max_paths', 20000): raise PathEnd('limit', 'too many paths')
        sys.stdout.flush(); sys.stderr.flush()
        tok = False
        if self.token_r is not None:
            try:
                tok = bool(os.read(self.token_r, 1))
            except BlockingIOError:
                tok = False
        pid = os.fork()
        if pid == 0:
            self.has_token = tok
            self.children = []
            self.nq = 0; self.tq = 0.0; self.nun = 0; self.ndec = 0; self.nfork = 0; self.nlp = 0
            self.checks = {}; self.violations = []; self.unknown_checks = []; self.reach = set()
            self.newpaths()
            self.on_fork()
            return True
        if tok:
            self.children.append(pid)
        else:
            left = self.pause()
            os.waitpid(pid, 0)
            self.resume(left)
        return False

    def pause(self):
        left = signal.setitimer(signal.ITIMER_VIRTUAL, 0)[0]
        return left

    def resume(self, left):
        if left: signal.setitimer(signal.ITIMER_VIRTUAL, max(left, 0.01))

    def on_fork(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cfg.get('path_cpu', 300))

    def shared_paths(self):
        return int.from_bytes(self.shm[0:8], 'little')

    def newpaths(self):
        n = self.shared_paths() + 1
        self.shm[0:8] = n.to_bytes(8, 'little')

    def concretize(self, x):
        if x.__class__ in (int, bool): return int(x)
        if x.__class__ is not SInt: raise Unsupported('concretize %r' % x.__class__)
        n = 0
        while True:
            if self.models:
                v = int(x.p.ev(self.models[0]))
            else:
                r, m = self.query(atom_true(x))
                if r != 'sat': raise PathEnd('infeasible', 'concretize')
                self.models.append(m)
                v = int(x.p.ev(m))
            n += 1
            if n > 300: raise Unsupported('too many values to concretize')
            c = x == v
            if c is True or (c is not False and self.decide(c)): return v

    # -- harness services
    def assume(self, c):
        if c.__class__ in (bool, int):
            if not c:
                self.flush()
                raise PathEnd('assume', '')
            return
        self.flush()
        for m in self.models:
            if c.ev(m):
                self.assert_(c); return
        r, m = self.query(c)
        if r == 'unsat': raise PathEnd('assume', '')
        self.assert_(c)
        if m is not None and self.modelok(m): self.models.append(m)

    def flush(self):
        """decide the assertions met so far: all at once when they hold, one by one otherwise"""
        ps, self.pending = self.pending, []
        if not ps: return
        bad = []
        seen = set()
        for c, cid in ps:
            k = (c.key(), cid)
            if k in seen: continue
            seen.add(k); bad.append(c)
        r = 'unsat'
        if bad:
            left = []
            for c in bad:
                r1, m = self.query(c.neg(), use_lp=200, z3_too=False)
                if r1 == 'sat': r = r1; break
                if r1 != 'unsat': left.append(c)
            bad = left
        if r != 'unsat': bad = []
        for i in range(0, len(bad), 40):
            n = None
            for c in bad[i:i + 40]: n = c.neg() if n is None else bor(n, c.neg())
            r, m = self.query(n, use_lp=0)
            if r != 'unsat': break
        if r == 'unsat':
            for c, cid in ps: self.checks[cid] = self.checks.get(cid, 0) + 1
            return
        seen = set()
        for c, cid in ps:
            k = (c.key(), cid)
            if k in seen: continue
            seen.add(k)
            self.check_now(c, cid)

    def check(self, c, cid):
        """assertion; decided at the end of the path (or before the next assumption)"""
        if c.__class__ in (bool, int): return self.check_now(c, cid)
        for m in self.models:
            if not c.ev(m): return self.check_now(c, cid)
        self.pending.append((c, cid))

    def check_now(self, c, cid):
        """assertion: returns after recording; violations are recorded with a model"""
        if c.__class__ in (bool, int):
            if c: self.checks[cid] = self.checks.get(cid, 0) + 1
            else:
                m = self.witness()
                self.violate(cid, m, 'assertion %d is false on this path' % cid)
            return
        n = c.neg()
        bad = None
        r = None
        for m in self.models:
            if not c.ev(m): bad = m; break
        if bad is None:
            r, bad = self.query(n)
        if bad is None and r == 'unsat':
            self.checks[cid] = self.checks.get(cid, 0) + 1
            return
        if bad is None:
            self.unknown_checks.append(cid)
            return
        better = self.robust(n)
        self.violate(cid, better or bad, 'assertion %d can fail' % cid, alts=[bad] if better else [])
        # go on with the values for which it holds
        self.assume(c)

    def robust(self, n):
        """a counterexample that keeps clear of rounding: margins on the violated atom and the path"""
        for eps in (Fraction(1, 100), Fraction(1, 10 ** 4), Fraction(1, 10 ** 7)):
            st = n.map(lambda a: a if a.op == '=' else atom('<', a.p.addc(eps)))
            if st is False: continue
            if st is True: return None
            cons, vs = self.slice(n.vars())
            extra = []
            for c in cons:
                if c.__class__ is Atom and c.op != '=' and any(VARS[i].kind == 'R' for i in c.vars()):
                    extra.append(Atom('<', c.p.addc(Fraction(1, 10 ** 8))))
            q = st
            for e in extra: q = AndB(q, e)
            r, m = self.query(q)
            if r == 'sat': return m
        return None

    def witness(self):
        if self.models: return self.models[0]
        return self.pathmodel()

    def pathmodel(self, margin=None):
        """a model of the whole path condition (componentwise)"""
        md = {}
        todo = [v.id for (_, _, v) in self.inputs]
        seen = set()
        for i in todo:
            if i in seen: continue
            cons, vs = self.slice([i])
            seen |= vs
            cs = list(cons)
            if margin is not None:
                cs = []
                for c in cons:
                    if c.__class__ is Atom and c.op != '=' and any(VARS[j].kind == 'R' or VARS[j].name == 'fl' for j in c.vars()):
                        cs.append(Atom('<', c.p.addc(margin)))
                    elif c.__class__ is NotB and c.a.__class__ is Atom and any(VARS[j].kind == 'R' for j in c.vars()):
                        p = c.a.p
                        cs.append(OrB(Atom('<', p.addc(margin)), Atom('<', p.scale(-1).addc(margin))))
                    else: cs.append(c)
            if not cs: continue
            q = cs[0]
            self.nq += 1
            t0 = time.time()
            r, m = self._lp(cs[0], cs[1:], 60)
            if r != 'unknown': pass
            elif all(c.linear() for c in cs):
                r, m = self._lin(cs[0], cs[1:], vs)
            else:
                r, m = self._nl(cs[0], cs[1:], vs)
            self.tq += time.time() - t0
            if r != 'sat': return None
            md.update(m)
        return Model(md)

    def violate(self, cid, model, msg, alts=()):
        self.violations.append({'check': cid, 'msg': msg,
                                'inputs': [self.inputs_of(m) for m in ([model] if model else []) + list(alts)]})
        if len(self.violations) > 20: raise PathEnd('violations', 'too many')

    def inputs_of(self, m):
        out = []
        for kind, iid, v in self.inputs:
            x = m.val(v.id)
            if kind == 'f64': out.append([kind, iid, float(x).hex()])
            else: out.append([kind, iid, int(round(x))])
        return out


_clo = {}


def closure(i):
    r = _clo.get(i)
    if r is None:
        r = {i}
        for d in VARS[i].defs:
            for j in d.vars():
                if j not in r: r |= closure(j) if j < i else {j}
        r = frozenset(r)
        _clo[i] = r
    return r


def atom_true(x):
    return Atom('<=', x.p.addc(-10 ** 40))


def zval(x):
    if z3.is_int_value(x): return x.as_long()
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(40)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def elim(c):
    """replace quotient variables by num/den (den > 0) and multiply out"""
    return c.map(elim_atom)


def elim_atom(a):
    p = a.p
    while True:
        dv = [i for i in p.vars() if VARS[i].div is not None]
        if not dv: break
        i = max(dv)
        num, den = VARS[i].div
        k = max(m.count(i) for m in p.d)
        # p = sum_j c_j t^j  ->  sum_j c_j num^j den^(k-j)
        parts = {}
        for m, c in p.d.items():
            j = m.count(i)
            mm = tuple(x for x in m if x != i)
            parts.setdefault(j, {})[mm] = c
        np_ = [PC(1)]; dp = [PC(1)]
        for _ in range(k):
            np_.append(np_[-1].mul(num)); dp.append(dp[-1].mul(den))
        q = Poly({})
        for j, d in parts.items():
            q = q.add(Poly(d).mul(np_[j]).mul(dp[k - j]))
        p = q
    return atom(a.op, p)


NLZ = {}


def nl_term(p):
    k = p.key()
    t = NLZ.get(k)
    if t is None:
        ts = []
        for m, c in p.d.items():
            x = zq(c, True)
            for i in m: x = x * z3.Real('n!%d' % i)
            ts.append(x)
        t = NLZ[k] = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
    return t


def nl_bool(c):
    k = c.__class__
    if k is Atom:
        e = nl_term(c.p)
        return e < 0 if c.op == '<' else e <= 0 if c.op == '<=' else e == 0
    if k is NotB: return z3.Not(nl_bool(c.a))
    if k is AndB: return z3.And(nl_bool(c.a), nl_bool(c.b))
    if k is OrB: return z3.Or(nl_bool(c.a), nl_bool(c.b))
    raise Unsupported('nl_bool')


def nl_quick(cs, vs, rlimit):
    """nlsat in this process within a small resource limit"""
    try:
        bs = [nl_bool(c) for c in cs]
    except Unsupported:
        return 'unknown', None
    s = z3.Tactic('qfnra-nlsat').solver()
    s.set('rlimit', rlimit)
    for i in vs:
        v = VARS[i]
        if v.lo is not None: s.add(z3.Real('n!%d' % i) >= zq(v.lo, True))
        if v.hi is not None: s.add(z3.Real('n!%d' % i) <= zq(v.hi, True))
    for b in bs: s.add(b)
    try:
        res = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if res == z3.unsat: return 'unsat', None
    if res != z3.sat: return 'unknown', None
    zm = s.model()
    m = {}
    for i in vs:
        if VARS[i].ev is not None: continue
        x = zm[z3.Real('n!%d' % i)]
        if x is not None: m[i] = Fraction(zval(x))
    return 'sat', m


def nl_child(cs, vs, timeout, mixed=False):
    """nonlinear query in a forked child with a wall-clock limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.alarm(int(timeout) + 1)
            names = {}
            for i in vs:
                v = VARS[i]
                names[i] = v.z if mixed else z3.Real('n!%d' % i)

            def zp(p):
                ts = []
                for m, c in p.d.items():
                    t = z3.RealVal(str(c))
                    for i in m:
                        x = names[i]
                        t = t * (z3.ToReal(x) if x.is_int() else x)
                    ts.append(t)
                return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

            def zb(c):
                k = c.__class__
                if k is Atom:
                    e = zp(c.p)
                    return e < 0 if c.op == '<' else e <= 0 if c.op == '<=' else e == 0
                if k is NotB: return z3.Not(zb(c.a))
                if k is AndB: return z3.And(zb(c.a), zb(c.b))
                if k is OrB: return z3.Or(zb(c.a), zb(c.b))
                return c.z()
            s = z3.Solver() if mixed else z3.Tactic('qfnra-nlsat').solver()
            for i in vs:
                v = VARS[i]
                if v.lo is not None: s.add(names[i] >= zq(v.lo, True))
                if v.hi is not None: s.add(names[i] <= zq(v.hi, True))
            for c in cs: s.add(zb(c))
            res = s.check()
            out = {'r': str(res)}
            if res == z3.sat:
                zm = s.model()
                out['m'] = {}
                for i in vs:
                    if VARS[i].ev is not None: continue
                    x = zm[names[i]]
                    if x is not None: out['m'][i] = str(Fraction(zval(x)))
            os.write(w, json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        try:
            x = os.read(r, 65536)
        except InterruptedError:
            continue
        if not x: break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    if not buf: return 'unknown', None
    o = json.loads(buf)
    if o['r'] == 'sat':
        return 'sat', {int(i): Fraction(x) for i, x in o['m'].items()}
    return o['r'], None


S = State()
