"""Linear programs over monomials, with branch and bound: decides conjunctions and disjunctions of polynomial
atoms over bounded variables.

Floats only guide the search. 'unsat' is answered only from Farkas combinations that are verified in exact rational
arithmetic (over the atoms, exact product and square inequalities, and the bounds of a box; the boxes of the
branches cover the whole box), 'sat' only with a point at which every constraint evaluates to true exactly."""
from fractions import Fraction
import math
import numpy as np

F = Fraction
_rows = {}


class Give(Exception):
    pass


class Row:
    """p op 0, p linear over monomials"""
    __slots__ = ('d', 'op', 'f', 'c')

    def __init__(self, d, op):
        self.d = d; self.op = op
        self.f = [(m, float(c)) for m, c in d.items() if m]
        self.c = float(d.get((), 0))


def rows_of_atom(a, T):
    k = (id(a))
    r = _rows.get(k)
    if r is not None and r[0] is a: return r[1]
    out = [Row(a.p.d, a.op)] if a.op != '=' else [Row(a.p.d, '=')]
    if len(_rows) > 20000: _rows.clear()
    _rows[k] = (a, out)
    return out


def mul_iv(a, b):
    c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return min(c), max(c)


class Problem:
    def __init__(self, VARS, budget):
        self.V = VARS; self.budget = budget

    def bound(self, m, box, memo):
        r = memo.get(m)
        if r is not None: return r
        if len(m) == 1:
            i = m[0]
            r = box.get(i)
            if r is None:
                v = self.V[i]
                if v.lo is None or v.hi is None: r = False
                else: r = box[i] = (F(v.lo), F(v.hi))
        elif len(m) == 2 and m[0] == m[1]:
            b = self.bound(m[:1], box, memo)
            if b is False: r = False
            else:
                e = (b[0] * b[0], b[1] * b[1])
                r = (F(0) if b[0] <= 0 <= b[1] else min(e), max(e))
        else:
            a = self.bound(m[:1], box, memo); b = self.bound(m[1:], box, memo)
            r = False if a is False or b is False else mul_iv(a, b)
        memo[m] = r
        return r

    def solve(self, rows, box, cuts, depth=0):
        """'unsat' | point dict over monomials | None"""
        memo = {}
        use = []
        cols = {}
        order = []

        def col(m):
            if m in cols: return
            cols[m] = len(order); order.append(m)
            if len(m) > 1: col(m[:1]); col(m[1:])
        for r in rows:
            ok = True
            for m, _ in r.f:
                if self.bound(m, box, memo) is False: ok = False; break
            if ok and all(memo[m][0] == memo[m][1] for m, _ in r.f):
                x = F(r.d.get((), 0)) + sum(F(r.d[m]) * memo[m][0] for m, _ in r.f)
                if not (x < 0 if r.op == '<' else x <= 0 if r.op == '<=' else x == 0): return 'unsat'
                ok = r.f and len(rows) < 2
            if ok:
                use.append(r)
                for m, _ in r.f: col(m)
        if not order:
            for i in self.allvars:
                if self.bound((i,), box, memo) is not False: col((i,))
        d = len(order)
        if d == 0 or d > 64: return None
        for m in order:
            b = memo.get(m) or self.bound(m, box, memo)
            if b[0] > b[1]: return 'unsat'
        # product inequalities
        for m in order:
            if len(m) < 2: continue
            x = m[:1]; y = m[1:]
            xl, xh = memo[x] if x in memo else self.bound(x, box, memo)
            yl, yh = memo[y] if y in memo else self.bound(y, box, memo)
            if x == y:
                use.append(Row({m: 1, x: -(xl + xh), (): xl * xh}, '<='))
                use.append(Row({m: -1, x: 2 * xl, (): -xl * xl}, '<='))
                use.append(Row({m: -1, x: 2 * xh, (): -xh * xh}, '<='))
                mid = (xl + xh) / 2
                use.append(Row({m: -1, x: 2 * mid, (): -mid * mid}, '<='))
            else:
                use.append(Row({m: -1, y: xl, x: yl, (): -xl * yl}, '<='))
                use.append(Row({m: -1, y: xh, x: yh, (): -xh * yh}, '<='))
                use.append(Row({m: 1, y: -xl, x: -yh, (): xl * yh}, '<='))
                use.append(Row({m: 1, y: -xh, x: -yl, (): xh * yl}, '<='))
        for m, a in cuts:
            if m in cols: use.append(Row({m: -1, m[:1]: 2 * a, (): -a * a}, '<='))
        lo = [float(memo[m][0]) for m in order]
        w = [max(float(memo[m][1]) - float(memo[m][0]), 1e-12) for m in order]
        n = d + 1
        G0 = []; h0 = []; keep = []
        for r in use:
            g = [0.0] * n
            b = r.c
            for m, c in r.f:
                k = cols[m]
                g[k] += c * w[k]
                b += c * lo[k]
            s = math.sqrt(sum(x * x for x in g))
            if not math.isfinite(s) or not math.isfinite(b): continue
            if s < 1e-14 * max(1.0, abs(b)) or s == 0.0: continue
            g = [x / s for x in g]
            if r.op == '=':
                G0.append(g); h0.append(-b / s); keep.append((r, s, 1))
                G0.append([-x for x in g]); h0.append(b / s); keep.append((r, s, -1))
            else:
                g[d] = 1.0
                G0.append(g); h0.append(-b / s); keep.append((r, s, 1))
        m_ = len(G0)
        G = np.zeros((m_ + 2 * d, n))
        if m_: G[:m_] = G0
        for k in range(d):
            G[m_ + 2 * k, k] = 1.0; G[m_ + 2 * k + 1, k] = -1.0
        G[m_:, d] = 1.0
        H = np.empty(m_ + 2 * d)
        H[:m_] = h0
        H[m_::2] = 1.0; H[m_ + 1::2] = 0.0
        B = [m_, m_ + 1] + [m_ + 2 * k for k in range(1, d)]
        rhs = np.zeros(n); rhs[d] = 1.0
        x = None; B0 = list(B); seq = []
        for it in range(80 + 8 * n):
            try:
                inv = np.linalg.inv(G[B].T)
            except np.linalg.LinAlgError:
                return None
            lam = inv @ rhs
            x = H[B] @ inv
            obj = x[d]
            if obj < -1e-7 and self.farkas(lam, B, keep, m_, order, memo, cols): return 'unsat'
            r = H - G @ x
            j = int(r.argmin())
            if r[j] > -1e-10: break
            dcol = inv @ G[j]
            best = None; bi = -1
            for k in range(n):
                if dcol[k] > 1e-11:
                    t = lam[k] / dcol[k]
                    if best is None or t < best - 1e-15: best = t; bi = k
            if bi < 0: return None
            B[bi] = j; seq.append(j)
        else:
            return None
        if x[d] < 1e-7:
            if self.farkas(lam, B, keep, m_, order, memo, cols): return 'unsat'
            if n <= 11:
                r = self.exact(B0, seq, keep, m_, order, memo, w, rows, box, depth)
                if r is not None: return r
            if x[d] < -1e-7: return None
        pt = {}
        for k, m in enumerate(order):
            u = min(max(float(x[k]), 0.0), 1.0)
            pt[m] = lo[k] + w[k] * u
        return pt

    def exact(self, B0, seq, keep, m, order, memo, w, rows, box, depth):
        """finish the dual simplex in rational arithmetic"""
        d = len(order); n = d + 1
        A = []; b = []
        for r, s, sg in keep:
            A.append([F(sg) * F(r.d.get(k, 0)) for k in order] + [F(0) if r.op == '=' else F(s)])
            b.append(-F(sg) * F(r.d.get((), 0)))
        for k in range(d):
            row = [F(0)] * n; row[k] = F(1); row[d] = F(w[k]); A.append(row); b.append(memo[order[k]][1])
            row = [F(0)] * n; row[k] = F(-1); row[d] = F(w[k]); A.append(row); b.append(-memo[order[k]][0])
        B = list(B0)
        inv = inverse([A[j] for j in B])          # rows are constraints: x = inv b, multipliers: last row of inv
        if inv is None: return None
        seq = list(seq)
        for it in range(len(seq) + 12):
            x = [sum(inv[i][k] * b[B[k]] for k in range(n) if inv[i][k]) for i in range(n)]
            bj = -1
            while seq and bj < 0:
                j = seq.pop(0)
                if j not in B and b[j] < sum(a * y for a, y in zip(A[j], x) if a): bj = j
            if bj < 0:
                bad = None
                for j in range(len(A)):
                    if j in B: continue
                    r = b[j] - sum(a * y for a, y in zip(A[j], x) if a)
                    if r < 0:
                        r = float(r) / (keep[j][1] if j < m else w[(j - m) // 2])
                        if bad is None or r < bad: bad = r; bj = j
                if bj < 0: break
            lam = inv[d]
            # enter bj: A[bj] = sum dcol_k A[B[k]]
            row = A[bj]
            dcol = [sum(row[i] * inv[i][k] for i in range(n) if row[i]) for k in range(n)]
            best = None; bi = -1
            for k in range(n):
                if dcol[k] > 0:
                    t = lam[k] / dcol[k]
                    if best is None or t < best: best = t; bi = k
            if bi < 0: return None
            B[bi] = bj
            p = dcol[bi]
            for i in range(n):
                r = inv[i]
                if r[bi]:
                    y = r[bi] / p
                    for k in range(n):
                        if k != bi and dcol[k]: r[k] -= dcol[k] * y
                    r[bi] = y
        else:
            return None
        lam = inv[d]
        if x[d] < 0 or (x[d] == 0):
            v = [(l * keep[j][2], keep[j][0]) for l, j in zip(lam, B) if j < m and l > 0]
            if v and self.combine(v, memo): return 'unsat'
        if x[d] < 0: return None
        if x[d] == 0 and depth < 4:
            # every solution has the rows with a multiplier tight
            tight = {id(keep[j][0]) for l, j in zip(lam, B) if j < m and l > 0}
            box2 = dict(box); rows2 = []; n2 = 0
            for r in rows:
                if id(r) in tight and r.op != '=': rows2.append(Row(r.d, '=')); n2 += 1
                else: rows2.append(r)
            for l, j in zip(lam, B):
                if j >= m and l > 0:
                    k = (j - m) // 2
                    if len(order[k]) > 1: return None
                    i = order[k][0]
                    if box2[i][0] != box2[i][1]: n2 += 1
                    y = memo[order[k]][(j - m + 1) % 2]
                    box2[i] = (y, y)
            if n2: return self.solve(rows2, box2, [], depth + 1)
        return {m_: x[k] for k, m_ in enumerate(order)}

    def farkas(self, lam, B, keep, m, order, memo, cols):
        """exact check: a nonnegative combination of rows is positive everywhere in the box"""
        act = [(float(l), keep[j]) for l, j in zip(lam, B) if j < m and l > 1e-13]
        if not act: return False
        if self.combine([(F(l / s) * sg, r) for l, (r, s, sg) in act], memo): return True
        # exact multipliers: the columns without an active bound have to cancel
        fixed = set()
        for j in B:
            if j >= m: fixed.add((j - m) // 2)
        act = [keep[j] for j in B if j < m]
        free = [k for k in range(len(order)) if k not in fixed]
        if len(act) != len(free) + 1 or len(act) > 12: return False
        A = [[F(sg) * F(r.d.get(order[k], 0)) for (r, s, sg) in act] for k in free]
        v = nullvec(A, len(act))
        if v is None: return False
        if any(x < 0 for x in v):
            v = [-x for x in v]
            if any(x < 0 for x in v): return False
        return self.combine([(x * sg, r) for x, (r, s, sg) in zip(v, act) if x > 0], memo)

    def combine(self, terms, memo):
        acc = {}
        strict = False
        for f, r in terms:
            if r.op == '<' and f > 0: strict = True
            for m, c in r.d.items():
                acc[m] = acc.get(m, 0) + f * F(c)
        low = acc.pop((), F(0))
        for m, c in acc.items():
            if c == 0: continue
            b = memo[m]
            low += c * (b[0] if c > 0 else b[1])
        return low > 0 or (low == 0 and strict)

    # ------------------------------------------------ branch and bound
    def node(self, T, rows, ors, box, allc, Model, depth):
        cuts = []
        for rnd in range(8):
            self.budget -= 1
            if self.budget < 0: raise Give()
            pt = self.solve(rows, box, cuts)
            if pt == 'unsat': return 'unsat', None
            if pt is None:
                # no answer: split the widest variable of a product
                vs = {i for r in rows for m, _ in r.f if len(m) > 1 for i in m if i in box}
                if not vs: return 'unknown', None
                i = max(vs, key=lambda k: self.width(k, box))
                return self.cut(T, rows, ors, box, allc, Model, depth, i, sum(box[i]) / 2)
            base = {}
            for m, x in pt.items():
                if len(m) == 1 and self.V[m[0]].ev is None:
                    v = self.V[m[0]]
                    b = box.get(m[0])
                    q = (x if isinstance(x, F) else F(x).limit_denominator(1 << 36)) if v.kind == 'R' else F(round(x))
                    base[m[0]] = min(max(q, b[0]), b[1]) if b else q
            md = Model(dict(base))
            try:
                if all(c.ev(md) for c in allc): return 'sat', md.m
            except Exception:
                pass
            # a disjunction the point misses
            for n, c in enumerate(ors):
                if not self.holds(T, c, pt): return self.split(T, rows, ors, n, box, allc, Model, depth)
            # the worst product
            worst = None; wv = 0; bad = []
            for m, x in pt.items():
                if len(m) < 2: continue
                y = float(pt[m[:1]]) * float(pt[m[1:]]); x = float(x)
                b = box_w(self, m, box)
                e = float((y - x) / b) if b else 0.0
                if abs(e) > 1e-9:
                    if abs(e) > wv: wv = abs(e); worst = m
                    if m[0] == m[1] and len(m) == 2 and e > 0: bad.append(m)
            if worst is None:
                # about right: what exactly fails?
                try:
                    for n, c in enumerate(ors):
                        if not c.ev(md): return self.split(T, rows, ors, n, box, allc, Model, depth)
                except Exception:
                    pass
                return 'unknown', None
            if bad and (worst in bad) and rnd < 5:
                for m in bad: cuts.append((m, F(pt[m[:1]]).limit_denominator(1 << 24)))
                continue
            # split the box
            i = max(set(worst), key=lambda k: (self.width(k, box)))
            return self.cut(T, rows, ors, box, allc, Model, depth, i, F(pt[(i,)]).limit_denominator(1 << 24))
        return 'unknown', None

    def cut(self, T, rows, ors, box, allc, Model, depth, i, x):
        lo, hi = box[i]
        if self.width(i, box) < 1e-9: return 'unknown', None
        s = min(max(x, lo + (hi - lo) / 5), hi - (hi - lo) / 5)
        if self.V[i].kind == 'I':
            s = F(math.floor(s))
            parts = ((lo, s), (s + 1, hi))
        else: parts = ((lo, s), (s, hi))
        res = 'unsat'
        for p in parts:
            if p[0] > p[1]: continue
            b2 = dict(box); b2[i] = p
            r, m = self.node(T, rows, ors, b2, allc, Model, depth + 1)
            if r == 'sat': return r, m
            if r == 'unknown': res = 'unknown'
        return res, None

    def split(self, T, rows, ors, n, box, allc, Model, depth):
        c = ors[n]
        worst = 'unsat'
        for half in (c.a, c.b):
            rows2 = list(rows); ors2 = ors[:n] + ors[n + 1:]
            if not self.put(T, half, rows2, ors2): continue
            r, m = self.node(T, rows2, ors2, dict(box), allc, Model, depth + 1)
            if r == 'sat': return r, m
            if r == 'unknown': worst = 'unknown'
        return worst, None

    def width(self, i, box):
        v = self.V[i]
        b = box[i]
        full = F(v.hi) - F(v.lo)
        return float((b[1] - b[0]) / full) if full else 0.0

    def holds(self, T, c, pt):
        """the atoms of c hold at a point over monomials (about)"""
        k = c.__class__
        if k is T.AndB: return self.holds(T, c.a, pt) and self.holds(T, c.b, pt)
        if k is T.OrB: return self.holds(T, c.a, pt) or self.holds(T, c.b, pt)
        if k is T.NotB: return True
        if k is not T.Atom: return True
        x = 0.0; s = 0.0
        for m, co in c.p.d.items():
            if m:
                y = pt.get(m)
                if y is None: return True
                t = float(co) * float(y)
            else: t = float(co)
            x += t; s += abs(t)
        e = 1e-9 * s
        return abs(x) <= e if c.op == '=' else x <= e

    def put(self, T, c, rows, ors):
        """False: c is never true"""
        k = c.__class__
        if k is T.Atom: rows.extend(rows_of_atom(c, T))
        elif k is T.AndB:
            return self.put(T, c.a, rows, ors) and self.put(T, c.b, rows, ors)
        elif k is T.OrB: ors.append(c)
        elif k is T.NotB:
            if c.a.__class__ is T.Atom and c.a.op == '=':
                ors.append(T.OrB(T.Atom('<', c.a.p), T.Atom('<', c.a.p.scale(-1))))
        # anything else is left out (a relaxation)
        return True


def box_w(P, m, box):
    b = P.bound(m, box, {})
    return float(b[1] - b[0])


def inverse(M):
    n = len(M)
    A = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((i for i in range(c, n) if A[i][c] != 0), None)
        if p is None: return None
        A[c], A[p] = A[p], A[c]
        x = A[c][c]
        if x != 1: A[c] = [y / x if y else y for y in A[c]]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c]
                A[i] = [a - f * b if b else a for a, b in zip(A[i], A[c])]
    return [r[n:] for r in A]


def nullvec(A, n):
    """the vector v with A v = 0 if it is unique up to scale"""
    A = [list(r) for r in A]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(A)) if A[i][c] != 0), None)
        if p is None: continue
        A[r], A[p] = A[p], A[r]
        x = A[r][c]
        A[r] = [y / x for y in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c] != 0:
                f = A[i][c]
                A[i] = [a - f * b for a, b in zip(A[i], A[r])]
        piv.append(c); r += 1
    fc = [c for c in range(n) if c not in piv]
    if len(fc) != 1: return None
    v = [F(0)] * n
    v[fc[0]] = F(1)
    for i, c in enumerate(piv): v[c] = -A[i][fc[0]]
    return v


def decide(T, cond, cons, VARS, Model, budget=120, relaxed=None):
    """('sat', model dict) | ('unsat', None) | ('unknown', None);  T: the module with Atom, AndB, OrB, NotB"""
    P = Problem(VARS, budget)
    rows = []; ors = []
    allc = [cond] + list(cons)
    vs = set()
    for c in allc: vs |= c.vars()
    P.allvars = sorted(vs)
    for c in (allc if relaxed is None else relaxed):
        if not P.put(T, c, rows, ors): return 'unsat', None
    try:
        return P.node(T, rows, ors, {}, allc, Model, 0)
    except (Give, RecursionError):
        return 'unknown', None
    except (OverflowError, FloatingPointError):
        return 'unknown', None
