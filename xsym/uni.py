"""Exact decisions about one real (or integer) variable: sets of values as unions of intervals with algebraic ends.

Polynomials of one variable, conditional values and quotients are handled; everything is rational arithmetic."""
from fractions import Fraction
from bisect import bisect_left
import math
import numpy as np

F = Fraction


class No(Exception):
    pass


# ------------------------------------------------------------------ integer polynomials (low degree first)
def trim(p):
    while p and p[-1] == 0: p.pop()
    return p


def prim(p):
    g = 0
    for c in p: g = math.gcd(g, c)
    return [c // g for c in p] if g > 1 else p


def ints(fr):
    den = 1
    for c in fr: den = den * c.denominator // math.gcd(den, c.denominator)
    return trim(prim([int(c * den) for c in fr]))


def deriv(p): return [i * c for i, c in enumerate(p)][1:]


def at(p, x):
    r = 0
    for c in reversed(p): r = r * x + c
    return r


def sgn(x): return (x > 0) - (x < 0)


def prem(a, b):
    """a positive multiple of the remainder of a by b"""
    a = list(a); lb = b[-1]; n = len(b)
    while len(a) >= n:
        k = a[-1]; s = len(a) - n
        m = abs(lb); f = k * sgn(lb)
        a = [c * m for c in a]
        for i, c in enumerate(b): a[s + i] -= f * c
        a.pop()
        trim(a)
    return prim(a)


def pgcd(a, b):
    a, b = list(a), list(b)
    while b: a, b = b, prem(a, b)
    return prim(a)


def pdiv(a, b):
    """exact quotient up to a positive factor"""
    a = [F(c) for c in a]; q = [F(0)] * (len(a) - len(b) + 1)
    for s in range(len(a) - len(b), -1, -1):
        f = a[s + len(b) - 1] / b[-1]
        q[s] = f
        for i, c in enumerate(b): a[s + i] -= f * c
    return ints(q)


def sturm(p):
    ch = [p, deriv(p)]
    while len(ch[-1]) > 1:
        r = prem(ch[-2], ch[-1])
        if not r: break
        ch.append([-c for c in r])
    return ch


def var_at(ch, x):
    n = 0; last = 0
    for p in ch:
        s = sgn(at(p, x))
        if s:
            if last and s != last: n += 1
            last = s
    return n


class Alg:
    """a real algebraic number: rational (p is None) or the one root of p in the open interval (l, u)"""
    __slots__ = ('p', 'l', 'u', 'sl')

    def __init__(self, p, l, u):
        self.p = p; self.l = l; self.u = u
        self.sl = sgn(at(p, l)) if p else 0

    def refine(self):
        if self.p is None: return
        m = (self.l + self.u) / 2
        s = sgn(at(self.p, m))
        if s == 0: self.p = None; self.l = self.u = m
        elif s == self.sl: self.l = m
        else: self.u = m


def equal(a, b):
    """for overlapping a, b"""
    if a.p is None and b.p is None: return a.l == b.l
    if a.p is None: return b.l < a.l < b.u and at(b.p, a.l) == 0
    if b.p is None: return a.l < b.l < a.u and at(a.p, b.l) == 0
    g = pgcd(a.p, b.p)
    if len(g) < 2: return False
    l, u = max(a.l, b.l), min(a.u, b.u)
    if l >= u: return False
    return sgn(at(g, l)) * sgn(at(g, u)) < 0


class Line:
    """the numbers met so far, in order"""

    def __init__(self, lo, hi):
        self.pts = []
        self.lo = self.intern(Alg(None, lo, lo)); self.hi = self.intern(Alg(None, hi, hi))
        self.roots_of = {}
        self.sets = {}
        self.full = [(self.lo, True, self.hi, True)]

    def intern(self, a):
        while True:
            i = bisect_left(self.pts, a.l, key=lambda x: x.l)
            clash = False
            for j in (i - 1, i, i + 1):
                if not 0 <= j < len(self.pts): continue
                b = self.pts[j]
                if a.u < b.l or b.u < a.l: continue
                if a.p is not None and b.p is not None and (a.u == b.l or b.u == a.l): 
                    # touching open intervals
                    a.refine(); b.refine(); clash = True; break
                if equal(a, b): return b
                if a.p is None and b.p is None: continue
                a.refine(); b.refine(); clash = True
                break
            if not clash: break
        self.pts.insert(bisect_left(self.pts, a.l, key=lambda x: x.l), a)
        return a

    def roots(self, p):
        """the roots of an integer polynomial in the line's interval, in order"""
        k = tuple(p)
        r = self.roots_of.get(k)
        if r is None: r = self.roots_of[k] = self._roots(p)
        return r

    def _roots(self, p):
        lo, hi = self.lo.l, self.hi.l
        if len(p) == 2:
            x = F(-p[0], p[1])
            return [self.intern(Alg(None, x, x))] if lo <= x <= hi else []
        out = []
        if len(p) > 2:
            g = pgcd(p, deriv(p))
            if len(g) > 1: p = pdiv(p, g)
        for x in (lo, hi):
            if at(p, x) == 0:
                out.append(Alg(None, F(x), F(x)))
                p = ints([F(c) for c in pdiv(p, [-F(x).numerator, F(x).denominator])])
        if len(p) >= 2:
            ch = sturm(p)
            todo = [(F(lo), F(hi), var_at(ch, lo), var_at(ch, hi))]
            while todo:
                l, u, vl, vu = todo.pop()
                n = vl - vu
                if n == 0: continue
                if n == 1 and at(p, u) != 0 and at(p, l) != 0:
                    out.append(self.sharpen(Alg(p, l, u)))
                    continue
                if n == 1 and at(p, u) == 0:
                    out.append(Alg(None, u, u)); continue
                m = (l + u) / 2
                vm = var_at(ch, m)
                todo.append((l, m, vl, vm)); todo.append((m, u, vm, vu))
        out = [self.intern(a) for a in out]
        return sorted(out, key=lambda a: a.l)

    def sharpen(self, a):
        try:
            cs = [float(c) for c in reversed(a.p)]
            r = np.roots(cs)
            for x in r:
                if abs(x.imag) < 1e-6 * max(1.0, abs(x.real)) and float(a.l) <= x.real <= float(a.u):
                    w = max(abs(x.real), 1e-6) * 2.0 ** -36
                    l = max(a.l, F(x.real - w)); u = min(a.u, F(x.real + w))
                    if l < u:
                        sl, su = sgn(at(a.p, l)), sgn(at(a.p, u))
                        if sl * su < 0: return Alg(a.p, l, u)
        except (OverflowError, ValueError, np.linalg.LinAlgError):
            pass
        return a

    # -------------------------------------------------------------- sets
    def between(self, a, b):
        while a.u >= b.l:
            a.refine(); b.refine()
        return (a.u + b.l) / 2

    def sign_set(self, p, op):
        if not p: return list(self.full) if op != '<' else []
        if len(p) == 1:
            s = sgn(p[0])
            return list(self.full) if (s < 0 and op != '=') else []
        rs = self.roots(p)
        if op == '=': return [(r, True, r, True) for r in rs]
        ends = [self.lo] + [r for r in rs if r is not self.lo and r is not self.hi] + [self.hi]
        isroot = {id(r) for r in rs}
        out = []
        for a, b in zip(ends, ends[1:]):
            if a is b: continue
            if sgn(at(p, self.between(a, b))) < 0:
                cl = op == '<='
                out.append((a, (id(a) not in isroot) or cl, b, (id(b) not in isroot) or cl))
        if op == '<=':
            for r in rs: out.append((r, True, r, True))
        if self.lo is self.hi and not out:
            s = sgn(at(p, self.lo.l))
            if s < 0: out.append((self.lo, True, self.lo, True))
        return self.norm(out)

    def norm(self, s):
        return self.combine(s, None, lambda x, y: x)

    def combine(self, s, t, f):
        """cellwise boolean combination"""
        t = t or []
        ends = {}
        for x in (s, t):
            for a, _, b, _ in x: ends[id(a)] = a; ends[id(b)] = b
        ends[id(self.lo)] = self.lo; ends[id(self.hi)] = self.hi
        ends = sorted(ends.values(), key=lambda a: a.l)
        pos = {id(a): i for i, a in enumerate(ends)}
        n = len(ends)

        def cells(x):
            c = [False] * (2 * n - 1)          # even: points, odd: gaps
            for a, ac, b, bc in x:
                i, j = 2 * pos[id(a)], 2 * pos[id(b)]
                if i == j:
                    if ac and bc: c[i] = True
                    continue
                for k in range(i + 1, j): c[k] = True
                if ac: c[i] = True
                if bc: c[j] = True
            return c
        cs = cells(s); ct = cells(t)
        r = [f(x, y) for x, y in zip(cs, ct)]
        out = []
        k = 0
        while k < len(r):
            if not r[k]: k += 1; continue
            j = k
            while j + 1 < len(r) and r[j + 1]: j += 1
            a = ends[k // 2]; ac = k % 2 == 0
            b = ends[(j + 1) // 2]; bc = j % 2 == 0
            out.append((a, ac, b, bc))
            k = j + 1
        return out

    def inter(self, s, t): return self.combine(s, t, lambda x, y: x and y)
    def union(self, s, t): return self.combine(s, t, lambda x, y: x or y)
    def comp(self, s): return self.combine(s, None, lambda x, y: not x)

    def pick(self, s, integer):
        """('empty', None) | ('value', q) | ('point', None): only irrational points"""
        best = None; bw = None
        for a, ac, b, bc in s:
            if a is b:
                if a.p is None and not integer: q = a.l; w = F(0)
                elif a.p is None and a.l.denominator == 1: q = a.l; w = F(0)
                elif integer and self.isint(a) is not None: q = self.isint(a); w = F(0)
                else: continue
            elif integer:
                lo = math.ceil(a.u) if a.p is None else None
                if a.p is not None:
                    while math.floor(a.l) != math.floor(a.u) and a.u - a.l > F(1, 1 << 80): a.refine()
                    lo = math.floor(a.l) + 1 if math.floor(a.l) == math.floor(a.u) else math.floor(a.u)
                elif F(a.l).denominator == 1 and not ac: lo = int(a.l) + 1
                hi = math.floor(b.l) if b.p is None else None
                if b.p is not None:
                    while math.floor(b.l) != math.floor(b.u) and b.u - b.l > F(1, 1 << 80): b.refine()
                    hi = math.floor(b.l) if math.floor(b.l) == math.floor(b.u) else math.floor(b.u) - 1
                elif F(b.l).denominator == 1 and not bc: hi = int(b.l) - 1
                if lo > hi: continue
                q = F((lo + hi) // 2); w = F(hi - lo)
            else:
                q = self.between(a, b); w = b.l - a.u
                n = q.limit_denominator(1 << 20)
                if a.u < n < b.l: q = n
            if bw is None or w > bw: best = q; bw = w
        if best is not None: return 'value', best
        if not s or integer: return 'empty', None
        return 'point', None

    def isint(self, a):
        if a.p is None: return a.l if F(a.l).denominator == 1 else None
        n = round((a.l + a.u) / 2)
        return F(n) if a.l < n < a.u and at(a.p, n) == 0 else None


class Uni:
    """sets of values of one base variable for formulas over it and variables defined from it"""

    def __init__(self, T, i):
        self.T = T; self.i = i
        v = T.VARS[i]
        if v.lo is None or v.hi is None: raise No()
        self.line = Line(F(v.lo), F(v.hi))
        self.memo = {}
        self.n = 0; self.set = self.line.full
        self.steps = 0

    def of(self, c):
        k = c.key()
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self._of(c)
        return r

    def _of(self, c):
        T = self.T; k = c.__class__
        if k is T.Atom: return self.atom(c)
        if k is T.AndB:
            a = self.of(c.a)
            return self.line.inter(a, self.of(c.b)) if a else a
        if k is T.OrB: return self.line.union(self.of(c.a), self.of(c.b))
        if k is T.NotB: return self.line.comp(self.of(c.a))
        raise No()

    def form(self, c):
        if c is True: return self.line.full
        if c is False: return []
        return self.of(c)

    def atom(self, c):
        T = self.T
        self.steps += 1
        if self.steps > 20000: raise No()
        p = c.p
        ders = [j for j in p.vars() if j != self.i]
        if not ders:
            d = {}
            for m, x in p.d.items(): d[len(m)] = F(x)
            n = max(d) if d else 0
            if n > 24: raise No()
            return self.line.sign_set(ints([d.get(k, F(0)) for k in range(n + 1)]), c.op)
        j = max(ders)
        v = T.VARS[j]
        if v.div is not None:
            return self.form(T.elim_atom(c))
        if v.ite is not None:
            cc, pa, pb = v.ite
            s = self.of(cc)
            x = self.line.inter(s, self.form(T.atom(c.op, subst(T, p, j, pa)))) if s else []
            t = self.line.comp(s)
            y = self.line.inter(t, self.form(T.atom(c.op, subst(T, p, j, pb)))) if t else []
            return self.line.union(x, y)
        if v.root is not None: return self.root(c.op, p, j, v.root)
        raise No()

    def root(self, op, p, j, r):
        """p has powers of the variable j, which is the square root of r >= 0"""
        T = self.T; L = self.line
        a, b = T.Poly({}), T.Poly({})
        pw = [T.PC(1)]
        for m, c in p.d.items():
            n = m.count(j)
            while len(pw) <= n // 2: pw.append(pw[-1].mul(r))
            t = T.Poly({tuple(x for x in m if x != j): c}).mul(pw[n // 2])
            if n % 2: b = b.add(t)
            else: a = a.add(t)
        if not b.d: return self.form(T.atom(op, a))
        # a + b * s
        sq = a.mul(a).sub(b.mul(b).mul(r))              # a^2 - b^2 r
        neg = lambda q: self.form(T.atom('<', q))
        pos = lambda q: self.form(T.atom('<', q.scale(-1)))
        out = []
        if op != '=':
            an, bn = neg(a), neg(b)
            bp = L.comp(bn)                             # b >= 0
            # a < 0 and (b <= 0 or a^2 > b^2 r)
            x = L.inter(an, L.union(L.comp(pos(b)), pos(sq))) if an else []
            # a >= 0 and b < 0 and a^2 < b^2 r
            y = L.inter(L.inter(L.comp(an), bn), neg(sq)) if bn else []
            out = L.union(x, y)
        if op != '<':
            z = self.form(T.atom('=', sq))
            if z: z = L.inter(z, self.form(T.atom('<=', a.mul(b))))
            out = L.union(out, z)
        return out


def subst(T, p, j, q):
    out = T.Poly({})
    pw = [T.PC(1)]
    parts = {}
    for m, c in p.d.items():
        n = m.count(j)
        parts.setdefault(n, {})[tuple(x for x in m if x != j)] = c
    for n, d in sorted(parts.items()):
        while len(pw) <= n: pw.append(pw[-1].mul(q))
        out = out.add(T.Poly(d).mul(pw[n]))
    return out


def decide(T, S, i, cond):
    """('sat', {i: value}) | ('unsat', None) | ('unknown', None)"""
    u = S.unis.get(i)
    if u is False: return 'unknown', None
    try:
        if u is None: u = S.unis[i] = Uni(T, i)
        ks = S.by_var.get(i, ())
        while u.n < len(ks):
            u.set = u.line.inter(u.set, u.of(S.pc[ks[u.n]]))
            u.n += 1
        s = u.line.inter(u.set, u.of(cond)) if u.set else []
        r, q = u.line.pick(s, T.VARS[i].kind == 'I')
    except (No, T.Unsupported, RecursionError):
        S.unis[i] = False
        return 'unknown', None
    if r == 'empty': return 'unsat', None
    if r == 'value': return 'sat', {i: q}
    return 'unknown', None
