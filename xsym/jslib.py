"""The parts of the JavaScript library that js.py knows, and the harness interface."""
import math
from . import sym
from .sym import S, PathEnd, Unsupported, SInt, SBool, new_var, PV


def install(cls):
    cls.builtins = builtins


def builtins(self):
    from . import js
    from .js import (U, Native, Func, JSFunc, Obj, Arr, Promise, Buf, View, Coll, Rx, SStr, Frac, Accessor, JSThrow, ITER, NAN, INF,
                     units, mkstr, slen, isstr, isnum, str_eq, in_ranges, ranges, decide, beq, conj, disj, neg, norm)
    G = self.G.v
    at = lambda a, i: a[i] if i < len(a) else U

    def method(proto, name, hidden=True):
        def d(fn):
            f = Native(self, fn, name)
            proto.props[name] = f
            if not hasattr(proto, 'hidden'): proto.hidden = set()
            proto.hidden.add(name)
            return fn
        return d

    def ctor(name, make, fn=None, proto=None):
        f = Native(self, fn or (lambda t, a: make(a)), name, make)
        if proto is not None:
            f.props['prototype'] = proto; proto.props['constructor'] = f
            if not hasattr(proto, 'hidden'): proto.hidden = set()
            proto.hidden.add('constructor')
        f.hidden = {'prototype'}
        G[name] = f
        return f

    def func(o, name):
        def d(fn):
            v = Native(self, fn, name)
            (o.props if isinstance(o, Obj) else o)[name] = v
            return fn
        return d

    call = self.call; get = self.get; tostr = self.tostr; toint = self.toint; arr = self.arr; truth = self.truth

    # ---- globals
    G['undefined'] = U; G['NaN'] = NAN; G['Infinity'] = INF
    glob = Obj(self.OP); glob.props = G
    G['globalThis'] = glob
    func(G, 'parseInt')(lambda t, a: self.parse_int(at(a, 0), at(a, 1)))
    func(G, 'parseFloat')(lambda t, a: self.parse_float(at(a, 0)))
    isnan = lambda v: v.__class__ is float and v != v
    func(G, 'isNaN')(lambda t, a: isnan(self.tonum(at(a, 0))))
    isfin = lambda v: isnum(v) and not (v.__class__ is float and (v != v or abs(v) == INF))
    func(G, 'isFinite')(lambda t, a: isfin(self.tonum(at(a, 0))))

    def settimeout(t, a):
        self.seq += 1
        f = at(a, 0); args = a[2:]
        self.macro.append((toint(at(a, 1)), self.seq, lambda: call(f, U, args)))
        return self.seq
    func(G, 'setTimeout')(settimeout)
    func(G, 'setImmediate')(lambda t, a: settimeout(t, [at(a, 0), 0]))
    func(G, 'queueMicrotask')(lambda t, a: self.micro.append(lambda: call(a[0], U, [])) or U)

    def clone(v, moved):
        c = v.__class__
        if c is Arr: return arr([clone(x, moved) for x in v.a])
        if c is Buf:
            if v.detached: raise self.error('DataCloneError', 'a detached buffer')
            n = Buf(v.n, self.BUFP, dict(v.d))
            return moved.setdefault(id(v), n)
        if c is View: return View(clone(v.buf, moved) if id(v.buf) not in moved else moved[id(v.buf)], v.off, v.n, v.kind, v.proto)
        if isinstance(v, Func): raise self.error('DataCloneError', 'a function')
        if isinstance(v, Obj):
            o = self.obj()
            for k in v.props: o.props[k] = clone(v.props[k], moved)
            return o
        return v

    def structured(t, a):
        o = at(a, 1)
        tr = [] if o is U else list(self.iterate(get(o, 'transfer'))) if get(o, 'transfer') is not U else []
        r = clone(at(a, 0), {})
        for b in tr:
            if b.__class__ is not Buf or b.detached: raise self.error('DataCloneError', 'not transferable')
            b.detached = True
        return r
    func(G, 'structuredClone')(structured)
    con = self.obj(); G['console'] = con
    for m in ('log', 'error', 'warn', 'info', 'debug', 'time', 'timeEnd', 'assert'): func(con, m)(lambda t, a: U)

    # ---- Object, Function
    O = ctor('Object', lambda a: a[0] if a and isinstance(a[0], Obj) else self.obj(), None, self.OP)
    func(O, 'keys')(lambda t, a: arr(self.keys(a[0])))
    func(O, 'values')(lambda t, a: arr([get(a[0], self.key(k)) for k in self.keys(a[0])]))
    func(O, 'entries')(lambda t, a: arr([arr([k, get(a[0], self.key(k))]) for k in self.keys(a[0])]))

    @func(O, 'assign')
    def _(t, a):
        for s in a[1:]:
            if isinstance(s, Obj):
                for k in self.keys(s): self.set(a[0], self.key(k), get(s, self.key(k)))
        return a[0]

    @func(O, 'fromEntries')
    def _(t, a):
        o = self.obj()
        for e in self.iterate(a[0]): o.props[self.key(get(e, 0))] = get(e, 1)
        return o

    def freeze(t, a):
        if isinstance(a[0], Obj): a[0].frozen = True
        return a[0]
    func(O, 'freeze')(freeze)
    func(O, 'create')(lambda t, a: Obj(a[0]))
    func(O, 'getPrototypeOf')(lambda t, a: self.protoof(a[0]))

    @func(O, 'defineProperty')
    def _(t, a):
        o, k, d = a[0], self.key(a[1]), a[2]
        if isinstance(get(d, 'get'), Func) or isinstance(get(d, 'set'), Func):
            x = Accessor()
            x.get = get(d, 'get') if isinstance(get(d, 'get'), Func) else None
            x.set = get(d, 'set') if isinstance(get(d, 'set'), Func) else None
            o.props[k] = x
        else: o.props[k] = get(d, 'value')
        return o
    has = lambda t, k: (isinstance(t, Obj) and (k in t.props or (t.__class__ is Arr and k.__class__ is int and 0 <= k < len(t.a))))
    method(self.OP, 'hasOwnProperty')(lambda t, a: has(t, self.key(at(a, 0))))
    func(O, 'hasOwn')(lambda t, a: has(a[0], self.key(at(a, 1))))
    method(self.OP, 'toString')(lambda t, a: '[object %s]' % getattr(t, 'cls', 'Object'))
    method(self.OP, 'valueOf')(lambda t, a: t)
    ctor('Function', lambda a: (_ for _ in ()).throw(Unsupported('Function')), None, self.FP)
    method(self.FP, 'call')(lambda t, a: call(t, at(a, 0), a[1:]))
    method(self.FP, 'apply')(lambda t, a: call(t, at(a, 0), list(self.iterate(a[1])) if len(a) > 1 and a[1] not in (U, None) else []))
    method(self.FP, 'bind')(lambda t, a: Native(self, lambda t2, b: call(t, at(a, 0), a[1:] + b), 'bound'))
    method(self.FP, 'toString')(lambda t, a: 'function %s() { }' % t.name)

    # ---- errors
    self.errs = {}

    def mkerr(kind, proto):
        def make(a):
            e = Obj(proto); e.cls = 'Error'
            if at(a, 0) is not U: e.props['message'] = tostr(a[0])
            e.props['stack'] = ''; e.hidden = {'message', 'stack'}
            return e
        return make
    ctor('Error', mkerr('Error', self.EP), None, self.EP)
    self.EP.props['name'] = 'Error'; self.EP.props['message'] = ''
    method(self.EP, 'toString')(lambda t, a: '%s: %s' % (get(t, 'name'), get(t, 'message')))
    for k in ('TypeError', 'RangeError', 'ReferenceError', 'SyntaxError', 'DataCloneError'):
        p = Obj(self.EP); p.props['name'] = k
        self.errs[k] = p
        ctor(k, mkerr(k, p), None, p)

    # ---- Symbol
    sy = Native(self, lambda t, a: js.Symbol(at(a, 0)), 'Symbol'); sy.props['iterator'] = ITER; G['Symbol'] = sy

    # ---- Math
    M = self.obj(); G['Math'] = M

    def num1(f):
        def g(t, a):
            v = self.tonum(at(a, 0))
            return f(v)
        return g

    def rounding(kind):
        def f(v):
            if v.__class__ is Frac:
                if kind == 'floor': return v.floor()
                if kind == 'ceil': return v.ceil()
                if kind == 'round': return (v.a * 2 + v.b).divmod(2 * v.b)[0]
                return v.floor() if decide(v.a >= 0) else v.ceil()
            if v.__class__ in (int, SInt) or v != v or abs(v) == INF: return v
            return norm({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda x: math.floor(x + 0.5)}[kind](v))
        return f
    for k in ('floor', 'ceil', 'trunc', 'round'): func(M, k)(num1(rounding(k)))
    func(M, 'abs')(num1(lambda v: (v if decide(v >= 0) else 0 - v) if v.__class__ is SInt else abs(v)))
    func(M, 'sqrt')(num1(lambda v: norm(math.sqrt(v)) if v >= 0 else NAN))
    func(M, 'sign')(num1(lambda v: 1 if decide(v > 0) else -1 if decide(v < 0) else 0))
    func(M, 'pow')(lambda t, a: self.arith('**', a[0], a[1]))
    func(M, 'log2')(num1(lambda v: norm(math.log2(v))))

    def minmax(lt, empty):
        def f(t, a):
            r = None
            for v in a:
                v = self.tonum(v)
                if isnan(v): return NAN
                if r is None or truth(self.binary('<' if lt else '>', v, r)): r = v
            return empty if r is None else r
        return f
    func(M, 'min')(minmax(True, INF)); func(M, 'max')(minmax(False, -INF))
    M.props['PI'] = math.pi

    # ---- Number, Boolean
    N = ctor('Number', lambda a: (_ for _ in ()).throw(Unsupported('new Number')), lambda t, a: rounding('trunc')(self.tonum(a[0])) if a and a[0].__class__ is Frac else self.tonum(a[0]) if a else 0, self.NP)
    N.props['MAX_SAFE_INTEGER'] = 2 ** 53 - 1; N.props['parseInt'] = G['parseInt']; N.props['parseFloat'] = G['parseFloat']
    func(N, 'isNaN')(lambda t, a: isnan(at(a, 0)))
    func(N, 'isFinite')(lambda t, a: isfin(at(a, 0)))
    isint = lambda v: v.__class__ in (int, SInt) or (v.__class__ is float and isfin(v) and v == int(v))
    func(N, 'isInteger')(lambda t, a: isint(at(a, 0)))
    func(N, 'isSafeInteger')(lambda t, a: isint(at(a, 0)))
    method(self.NP, 'toString')(lambda t, a: self.num2str(norm(t) if t.__class__ is float else t, toint(at(a, 0), 10)))
    method(self.NP, 'valueOf')(lambda t, a: t)

    @method(self.NP, 'toFixed')
    def _(t, a):
        if t.__class__ is SInt:
            if toint(at(a, 0)) == 0: return self.num2str(t, 10)
            raise Unsupported('toFixed')
        return '%.*f' % (toint(at(a, 0)), t)
    ctor('Boolean', lambda a: (_ for _ in ()).throw(Unsupported('new Boolean')), lambda t, a: self.cond(at(a, 0)), self.BP)

    # ---- String
    Sx = ctor('String', lambda a: (_ for _ in ()).throw(Unsupported('new String')), lambda t, a: tostr(a[0]) if a else '', self.SP)
    func(Sx, 'fromCharCode')(lambda t, a: mkstr([self.tonum(x) & 0xffff if self.tonum(x).__class__ is int else self.tonum(x) for x in a]))
    func(Sx, 'fromCodePoint')(lambda t, a: mkstr([self.tonum(x) for x in a]))

    def smethod(name):
        def d(fn): method(self.SP, name)(lambda t, a: fn(tostr(t), a)); return fn
        return d

    def find(s, sub, start=0):
        """first position of sub at or after start, deciding each; -1"""
        u, v = units(s), units(sub)
        for i in range(start, len(u) - len(v) + 1):
            if decide(str_eq(mkstr(u[i:i + len(v)]), mkstr(v))): return i
        return -1

    def includes(s, a):
        sub = tostr(at(a, 0)); p = toint(at(a, 1))
        u, v = units(s)[p:], units(sub)
        if len(v) == 1 and not any(x.__class__ is SInt for x in u): return in_ranges(v[0], ranges(u)) if u else False
        return disj([str_eq(mkstr(u[i:i + len(v)]), mkstr(v)) for i in range(0, len(u) - len(v) + 1)])
    smethod('includes')(includes)

    def index_of(s, a):
        sub = tostr(at(a, 0)); u, v = units(s), units(sub); p = max(0, toint(at(a, 1)))
        if len(v) == 1 and v[0].__class__ is SInt and not any(x.__class__ is SInt for x in u):
            # runs of consecutive letters: one decision each
            first = {}
            for i in range(len(u) - 1, p - 1, -1): first[u[i]] = i
            todo = sorted(first)
            while todo:
                c0 = todo.pop(0); c1 = c0
                while todo and todo[0] == c1 + 1 and first[todo[0]] == first[c1] + 1: c1 = todo.pop(0)
                if decide(in_ranges(v[0], [(c0, c1)])): return v[0] + (first[c0] - c0)
            return -1
        return find(s, sub, p)
    smethod('indexOf')(index_of)

    @smethod('lastIndexOf')
    def _(s, a):
        sub = tostr(at(a, 0)); u, v = units(s), units(sub)
        for i in range(len(u) - len(v), -1, -1):
            if decide(str_eq(mkstr(u[i:i + len(v)]), mkstr(v))): return i
        return -1
    smethod('charAt')(lambda s, a: mkstr(units(s)[toint(at(a, 0)):toint(at(a, 0)) + 1]) if toint(at(a, 0)) >= 0 else '')
    smethod('charCodeAt')(lambda s, a: units(s)[toint(at(a, 0))] if 0 <= toint(at(a, 0)) < slen(s) else NAN)

    @smethod('codePointAt')
    def _(s, a):
        i = toint(at(a, 0)); u = units(s)
        if not 0 <= i < len(u): return U
        if decide(in_ranges(u[i], [(0xd800, 0xdbff)])) and i + 1 < len(u) and decide(in_ranges(u[i + 1], [(0xdc00, 0xdfff)])):
            return (u[i] - 0xd800) * 0x400 + (u[i + 1] - 0xdc00) + 0x10000
        return u[i]

    def rel(a, i, n, d):
        v = toint(at(a, i), d)
        return max(0, n + v) if v < 0 else min(v, n)
    smethod('slice')(lambda s, a: mkstr(units(s)[rel(a, 0, slen(s), 0):rel(a, 1, slen(s), slen(s))]))
    smethod('at')(lambda s, a: mkstr([units(s)[toint(at(a, 0))]]) if -slen(s) <= toint(at(a, 0)) < slen(s) else U)

    @smethod('substring')
    def _(s, a):
        n = slen(s)
        i = min(max(0, toint(at(a, 0))), n); j = min(max(0, toint(at(a, 1), n)), n)
        return mkstr(units(s)[min(i, j):max(i, j)])

    @smethod('substr')
    def _(s, a):
        i = rel(a, 0, slen(s), 0)
        return mkstr(units(s)[i:i + max(0, toint(at(a, 1), slen(s)))])
    smethod('startsWith')(lambda s, a: str_eq(mkstr(units(s)[toint(at(a, 1)):toint(at(a, 1)) + slen(tostr(a[0]))]), tostr(a[0])))
    smethod('endsWith')(lambda s, a: slen(s) >= slen(tostr(a[0])) and str_eq(mkstr(units(s)[slen(s) - slen(tostr(a[0])):]), tostr(a[0])))
    smethod('concat')(lambda s, a: mkstr(sum([units(s)] + [units(tostr(x)) for x in a], [])))
    smethod('repeat')(lambda s, a: mkstr(units(s) * toint(at(a, 0))))

    def pad(front):
        def f(s, a):
            n = toint(at(a, 0)); f = units(tostr(at(a, 1))) if at(a, 1) is not U else [32]
            u = units(s)
            k = n - len(u)
            if k <= 0 or not f: return s
            p = (f * (k // len(f) + 1))[:k]
            return mkstr(p + list(u) if front else list(u) + p)
        return f
    smethod('padStart')(pad(True)); smethod('padEnd')(pad(False))

    def case(lower):
        def f(s, a):
            if s.__class__ is str: return s.lower() if lower else s.upper()
            out = []
            for c in s.u:
                if c.__class__ is int:
                    r = chr(c).lower() if lower else chr(c).upper()
                    out += units(r); continue
                if decide(c >= 128): raise Unsupported('case of a symbolic letter outside ASCII')
                if decide(in_ranges(c, [(65, 90)] if lower else [(97, 122)])): c = c + 32 if lower else c - 32
                out.append(c)
            return mkstr(out)
        return f
    for m in ('toLowerCase', 'toLocaleLowerCase'): smethod(m)(case(True))
    for m in ('toUpperCase', 'toLocaleUpperCase'): smethod(m)(case(False))

    def trim(l, r):
        def f(s, a):
            u = list(units(s))
            while l and u and decide(in_ranges(u[0], self.WS)): u.pop(0)
            while r and u and decide(in_ranges(u[-1], self.WS)): u.pop()
            return mkstr(u)
        return f
    smethod('trim')(trim(1, 1)); smethod('trimStart')(trim(1, 0)); smethod('trimEnd')(trim(0, 1))

    @smethod('split')
    def _(s, a):
        if at(a, 0) is U: return arr([s])
        if a[0].__class__ is Rx: raise Unsupported('split by a regular expression')
        d = tostr(a[0])
        if slen(d) == 0: return arr([mkstr([c]) for c in units(s)])
        out = []; p = 0
        while True:
            q = find(s, d, p)
            if q < 0: break
            out.append(mkstr(units(s)[p:q])); p = q + slen(d)
        out.append(mkstr(units(s)[p:]))
        return arr(out)

    @smethod('match')
    def _(s, a):
        rx = a[0] if a[0].__class__ is Rx else Rx(tostr(a[0]), '', self.RP)
        if 'g' not in rx.flags: return self.rx_exec(rx, s)
        rx.props['lastIndex'] = 0
        out = []
        while True:
            m = self.rx_exec(rx, s)
            if m is None: break
            if slen(m.a[0]) == 0: rx.props['lastIndex'] += 1
            out.append(m.a[0])
        return arr(out) if out else None
    smethod('search')(lambda s, a: (lambda m: -1 if m is None else m.props['index'])(self.rx_exec(a[0], s)))

    @smethod('matchAll')
    def _(s, a):
        out = []
        a[0].props['lastIndex'] = 0
        while True:
            m = self.rx_exec(a[0], s)
            if m is None: break
            if slen(m.a[0]) == 0: a[0].props['lastIndex'] += 1
            out.append(m)
        return arr(out)

    def replace(s, a, every=False):
        pat, rep = a[0], at(a, 1)
        out = []; p = 0
        u = units(s)
        glob_ = every or (pat.__class__ is Rx and 'g' in pat.flags)
        while p <= len(u):
            if pat.__class__ is Rx:
                m = None
                for q in range(p, len(u) + 1):
                    m = self.rx_match(pat, u, q)
                    if m is not None: break
                if m is None: break
                e = m[0]; gr = [mkstr(u[slice(*m[1][str(i)])]) if str(i) in m[1] else U for i in range(1, pat.tree.state.groups)]
            else:
                q = find(s, tostr(pat), p)
                if q < 0: break
                e = q + slen(tostr(pat)); gr = []
            w = mkstr(u[q:e])
            if isinstance(rep, Func): r = tostr(call(rep, U, [w] + gr + [q, s]))
            else:
                r = tostr(rep)
                if r.__class__ is str and '$' in r:
                    o = ''; i = 0
                    while i < len(r):
                        if r[i] == '$' and i + 1 < len(r) and r[i + 1].isdigit(): o = self.concat(o, gr[int(r[i + 1]) - 1]); i += 2
                        elif r[i:i + 2] == '$&': o = self.concat(o, w); i += 2
                        else: o = self.concat(o, r[i]); i += 1
                    r = o
            out += u[p:q] + units(r)
            p = e
            if e == q:
                out += u[q:q + 1]; p = q + 1
            if not glob_: break
        return mkstr(list(out) + list(u[p:]))
    smethod('replace')(replace); smethod('replaceAll')(lambda s, a: replace(s, a, True))
    method(self.SP, 'toString')(lambda t, a: t); method(self.SP, 'valueOf')(lambda t, a: t)
    smethod('localeCompare')(lambda s, a: 0 if decide(str_eq(s, tostr(a[0]))) else -1 if self.str_cmp('<', s, tostr(a[0])) else 1)

    # ---- RegExp
    def mkrx(a):
        if a[0].__class__ is Rx: return Rx(a[0].src, a[0].flags if at(a, 1) is U else a[1], self.RP)
        return Rx(tostr(a[0]), '' if at(a, 1) is U else tostr(a[1]), self.RP)
    ctor('RegExp', mkrx, None, self.RP)
    method(self.RP, 'test')(lambda t, a: self.rx_exec(t, tostr(at(a, 0))) is not None)
    method(self.RP, 'exec')(lambda t, a: self.rx_exec(t, tostr(at(a, 0))))

    # ---- arrays and typed arrays: methods that only read
    def mkarr(a):
        if len(a) == 1 and isnum(a[0]): return arr([U] * toint(a[0]))
        return arr(a)
    A = ctor('Array', mkarr, None, self.AP)
    func(A, 'isArray')(lambda t, a: at(a, 0).__class__ is Arr)
    func(A, 'of')(lambda t, a: arr(a))

    def listof(o):
        if isstr(o) or o.__class__ in (Arr, View, Coll): return list(self.iterate(o))
        if isinstance(o, Obj):
            if isinstance(get(o, ITER), Func): return list(self.iterate(o))
            return [get(o, i) for i in range(toint(get(o, 'length')))]
        return []

    @func(A, 'from')
    def _(t, a):
        l = listof(a[0])
        if at(a, 1) is not U: l = [call(a[1], U, [x, i]) for i, x in enumerate(l)]
        return arr(l)

    def both(name):
        def d(fn):
            method(self.AP, name)(fn); method(self.TA, name)(fn)
            return fn
        return d

    def same(t, l):
        if t.__class__ is View:
            b = Buf(len(l), self.BUFP)
            v = View(b, 0, len(l), t.kind, t.proto)
            for i, x in enumerate(l): self.set(v, i, x)
            return v
        return arr(l)
    n_ = lambda t: t.len() if t.__class__ is View else len(t.a)

    @both('forEach')
    def _(t, a):
        for i in range(n_(t)):
            if i < n_(t): call(a[0], at(a, 1), [get(t, i), i, t])
        return U
    both('map')(lambda t, a: same(t, [call(a[0], at(a, 1), [get(t, i), i, t]) for i in range(n_(t))]))
    both('filter')(lambda t, a: same(t, [x for i, x in enumerate(listof(t)) if truth(call(a[0], at(a, 1), [x, i, t]))]))
    both('some')(lambda t, a: any(truth(call(a[0], at(a, 1), [x, i, t])) for i, x in enumerate(listof(t))))
    both('every')(lambda t, a: all(truth(call(a[0], at(a, 1), [x, i, t])) for i, x in enumerate(listof(t))))

    def finder(idx, last=False):
        def f(t, a):
            l = list(enumerate(listof(t)))
            for i, x in (reversed(l) if last else l):
                if truth(call(a[0], at(a, 1), [x, i, t])): return i if idx else x
            return -1 if idx else U
        return f
    both('find')(finder(False)); both('findIndex')(finder(True)); both('findLast')(finder(False, True)); both('findLastIndex')(finder(True, True))

    @both('reduce')
    def _(t, a):
        l = listof(t); i = 0
        if len(a) > 1: r = a[1]
        else:
            if not l: raise self.error('TypeError', 'Reduce of empty array with no initial value')
            r = l[0]; i = 1
        for j in range(i, len(l)): r = call(a[0], U, [r, l[j], j, t])
        return r
    both('includes')(lambda t, a: disj([self.strict_eq(x, at(a, 0)) if not isnan(at(a, 0)) else isnan(x) for x in listof(t)]))

    @both('indexOf')
    def _(t, a):
        for i, x in enumerate(listof(t)):
            if i >= toint(at(a, 1)) and decide(self.strict_eq(x, at(a, 0))): return i
        return -1

    def join(t, a):
        s = ''
        sep = ',' if at(a, 0) is U else tostr(a[0])
        for i, x in enumerate(listof(t)):
            if i: s = self.concat(s, sep)
            if x is not U and x is not None: s = self.concat(s, tostr(x))
        return s
    both('join')(join)
    both('toString')(lambda t, a: join(t, []))
    both('slice')(lambda t, a: same(t, listof(t)[rel(a, 0, n_(t), 0):rel(a, 1, n_(t), n_(t))]))
    both('at')(lambda t, a: listof(t)[toint(at(a, 0))] if -n_(t) <= toint(at(a, 0)) < n_(t) else U)
    both('keys')(lambda t, a: arr(range(n_(t))))
    both('values')(lambda t, a: arr(listof(t)))
    both('entries')(lambda t, a: arr([arr([i, x]) for i, x in enumerate(listof(t))]))

    @both('fill')
    def _(t, a):
        n = n_(t)
        for i in range(rel(a, 1, n, 0), rel(a, 2, n, n)): self.set(t, i, at(a, 0))
        return t

    @both('reverse')
    def _(t, a):
        for i, x in enumerate(reversed(listof(t))): self.set(t, i, x)
        return t

    @both('sort')
    def _(t, a):
        import functools
        l = listof(t)
        if at(a, 0) is U: f = lambda x, y: 0 if decide(str_eq(tostr(x), tostr(y))) else -1 if self.str_cmp('<', tostr(x), tostr(y)) else 1
        else:
            def f(x, y):
                r = self.tonum(call(a[0], U, [x, y]))
                return -1 if decide(r < 0) else 1 if decide(r > 0) else 0
        for i, x in enumerate(sorted(l, key=functools.cmp_to_key(f))): self.set(t, i, x)
        return t
    am = lambda name: method(self.AP, name)
    am('push')(lambda t, a: t.a.extend(a) or len(t.a))
    am('pop')(lambda t, a: t.a.pop() if t.a else U)
    am('shift')(lambda t, a: t.a.pop(0) if t.a else U)

    @am('unshift')
    def _(t, a):
        t.a[0:0] = a
        return len(t.a)

    @am('splice')
    def _(t, a):
        n = len(t.a); i = rel(a, 0, n, 0)
        k = n - i if len(a) < 2 else min(max(0, toint(a[1])), n - i)
        out = t.a[i:i + k]
        t.a[i:i + k] = a[2:]
        return arr(out)
    am('concat')(lambda t, a: arr(t.a + sum([x.a if x.__class__ is Arr else [x] for x in a], [])))

    def flat(l, d):
        out = []
        for x in l:
            if x.__class__ is Arr and d > 0: out += flat(x.a, d - 1)
            else: out.append(x)
        return out
    am('flat')(lambda t, a: arr(flat(t.a, toint(at(a, 0), 1))))
    am('flatMap')(lambda t, a: arr(flat([call(a[0], U, [x, i, t]) for i, x in enumerate(t.a)], 1)))

    # ---- buffers
    ctor('ArrayBuffer', lambda a: Buf(toint(at(a, 0)), self.BUFP), None, self.BUFP)
    self.BUFP.props['slice'] = Native(self, lambda t, a: (lambda i, j: Buf(max(0, j - i), self.BUFP, {k - i: v for k, v in t.d.items() if i <= k < j}))(rel(a, 0, t.n, 0), rel(a, 1, t.n, t.n)))

    def mkview(kind, proto):
        def make(a):
            x = at(a, 0)
            if x.__class__ is Buf:
                if x.detached: raise self.error('TypeError', 'Cannot perform Construct on a detached ArrayBuffer')
                off = toint(at(a, 1)); n = x.n - off if at(a, 2) is U else toint(a[2])
                if off < 0 or off > x.n or n < 0 or off + n > x.n: raise self.error('RangeError', 'Invalid typed array length: %d' % n)
                return View(x, off, n, kind, proto)
            if isinstance(x, Obj):
                l = listof(x)
                v = View(Buf(len(l), self.BUFP), 0, len(l), kind, proto)
                for i, e in enumerate(l): self.set(v, i, e)
                return v
            n = toint(x)
            if n < 0 or n > 2 ** 32: raise self.error('RangeError', 'Invalid typed array length: %d' % n)
            return View(Buf(n, self.BUFP), 0, n, kind, proto)
        return make
    for nm, kind in (('Uint8ClampedArray', 'clamped'), ('Uint8Array', 'u8')):
        p = Obj(self.TA)
        f = ctor(nm, mkview(kind, p), lambda t, a: (_ for _ in ()).throw(self.error('TypeError', 'constructor needs new')), p)
        f.props['BYTES_PER_ELEMENT'] = 1
        func(f, 'from')(lambda t, a, kind=kind, p=p: mkview(kind, p)([arr([call(a[1], U, [x, i]) for i, x in enumerate(listof(a[0]))]) if at(a, 1) is not U else arr(listof(a[0]))]))
        func(f, 'of')(lambda t, a, kind=kind, p=p: mkview(kind, p)([arr(a)]))

    @method(self.TA, 'set')
    def _(t, a):
        l = listof(a[0]); o = toint(at(a, 1))
        if o < 0 or o + len(l) > t.len(): raise self.error('RangeError', 'offset is out of bounds')
        for i, x in enumerate(l): self.set(t, o + i, x)
        return U

    @method(self.TA, 'subarray')
    def _(t, a):
        n = t.len(); i = rel(a, 0, n, 0); j = max(i, rel(a, 1, n, n))
        return View(t.buf, t.off + i, j - i, t.kind, t.proto)

    @method(self.TA, 'copyWithin')
    def _(t, a): raise Unsupported('copyWithin')

    # ---- WebAssembly.Memory
    wa = self.obj(); G['WebAssembly'] = wa

    def mkmem(a):
        m = Obj(self.MEMP)
        m.props['buffer'] = Buf(65536 * toint(get(a[0], 'initial')), self.BUFP)
        return m
    wm = ctor('Memory', mkmem, None, self.MEMP); wa.props['Memory'] = wm; del G['Memory']

    @method(self.MEMP, 'grow')
    def _(t, a):
        b = t.props['buffer']
        t.props['buffer'] = Buf(b.n + 65536 * toint(at(a, 0)), self.BUFP, b.d)
        b.detached = True; b.d = {}
        return b.n // 65536

    # ---- Map, Set
    def ckey(k):
        if isstr(k) or k.__class__ is SInt or isinstance(k, SBool):
            if isstr(k) and k.__class__ is SStr: k = mkstr([S.concretize(x) if x.__class__ is SInt else x for x in k.u])
            if k.__class__ is SInt: k = S.concretize(k)
            if isinstance(k, SBool): k = S.decide(k)
        return (k.__class__ is bool, k) if not isinstance(k, Obj) else id(k)

    def mkcoll(kind, proto):
        def make(a):
            c = Coll(kind, proto)
            if at(a, 0) not in (U, None):
                for e in self.iterate(a[0]):
                    if kind == 'Map': c.d[ckey(get(e, 0))] = (get(e, 0), get(e, 1))
                    else: c.d[ckey(e)] = (e, e)
            return c
        return make
    for kind, proto in (('Map', self.MAPP), ('Set', self.SETP)):
        ctor(kind, mkcoll(kind, proto), None, proto)
        ctor('Weak' + kind, mkcoll(kind, proto), None, None)
        method(proto, 'has')(lambda t, a: ckey(at(a, 0)) in t.d)
        method(proto, 'delete')(lambda t, a: t.d.pop(ckey(at(a, 0)), None) is not None)
        method(proto, 'clear')(lambda t, a: t.d.clear() or U)
        method(proto, 'forEach')(lambda t, a: [call(a[0], U, [v, k, t]) for k, v in list(t.d.values())] and U)
        method(proto, 'keys')(lambda t, a: arr([k for k, v in t.d.values()]))
        method(proto, 'values')(lambda t, a: arr([v for k, v in t.d.values()]))
        method(proto, 'entries')(lambda t, a: arr([arr([k, v]) for k, v in t.d.values()]))
    method(self.MAPP, 'get')(lambda t, a: t.d.get(ckey(at(a, 0)), (U, U))[1])

    @method(self.MAPP, 'set')
    def _(t, a):
        t.d[ckey(at(a, 0))] = (at(a, 0), at(a, 1))
        return t

    @method(self.SETP, 'add')
    def _(t, a):
        t.d[ckey(at(a, 0))] = (at(a, 0), at(a, 0))
        return t

    # ---- Promise
    def mkprom(a):
        p = Promise(self.PP)
        try:
            call(a[0], U, [Native(self, lambda t, b: self.resolve(p, at(b, 0)) or U), Native(self, lambda t, b: self.reject(p, at(b, 0)) or U)])
        except JSThrow as e:
            self.reject(p, e.v)
        return p
    P = ctor('Promise', mkprom, lambda t, a: (_ for _ in ()).throw(self.error('TypeError', 'Promise constructor cannot be invoked without new')), self.PP)
    func(P, 'resolve')(lambda t, a: self.topromise(at(a, 0)))

    @func(P, 'reject')
    def _(t, a):
        p = Promise(self.PP); self.reject(p, at(a, 0))
        return p

    def combine(kind):
        def f(t, a):
            p = Promise(self.PP)
            l = [self.topromise(x) for x in self.iterate(a[0])]
            out = [U] * len(l); left = [len(l)]
            def put(i, v):
                out[i] = v; left[0] -= 1
                if left[0] == 0: self.resolve(p, arr(out))
            if not l and kind != 'race': self.resolve(p, arr([]))
            for i, q in enumerate(l):
                if kind == 'all': self.then(q, lambda v, i=i: put(i, v), lambda v: self.reject(p, v))
                elif kind == 'race': self.then(q, lambda v: self.resolve(p, v), lambda v: self.reject(p, v))
                else: self.then(q, lambda v, i=i: put(i, self.obj(status='fulfilled', value=v)), lambda v, i=i: put(i, self.obj(status='rejected', reason=v)))
            return p
        return f
    for k in ('all', 'race', 'allSettled'): func(P, k)(combine(k))
    method(self.PP, 'then')(lambda t, a: self.then_js(t, at(a, 0), at(a, 1)))
    method(self.PP, 'catch')(lambda t, a: self.then_js(t, U, at(a, 0)))

    @method(self.PP, 'finally')
    def _(t, a):
        q = Promise(self.PP)
        def fin(ok):
            def g(v):
                try:
                    r = self.topromise(call(a[0], U, []))
                except JSThrow as e:
                    self.reject(q, e.v); return
                self.then(r, lambda _: (self.resolve if ok else self.reject)(q, v), lambda e: self.reject(q, e))
            return g
        self.then(t, fin(True), fin(False))
        return q

    # ---- harness interface
    H = self.obj(); G['H'] = H

    def inp(a):
        i, lo, hi = toint(a[0]), toint(a[1]), toint(a[2])
        if lo == hi:
            S.inputs.append(('u64', i, new_var('I', 'c', lo, lo)))
            return lo
        v = new_var('I', 'u%d' % i, lo, hi)
        S.inputs.append(('u64', i, v))
        return SInt(PV(v))
    func(H, 'int')(lambda t, a: inp(a))
    func(H, 'choose')(lambda t, a: (lambda x: S.concretize(x) if x.__class__ is SInt else x)(inp(a)))

    @func(H, 'text')
    def _(t, a):
        """n code units"""
        return mkstr([inp([toint(a[0]) + i, 0, 65535]) for i in range(toint(a[1]))])
    func(H, 'assume')(lambda t, a: S.assume(self.cond(at(a, 0))) or U)
    func(H, 'check')(lambda t, a: S.check(self.cond(at(a, 0)), toint(a[1])) or U)
    func(H, 'reach')(lambda t, a: S.reach.add(toint(a[0])) or U)
    func(H, 'obs')(lambda t, a: S.obs.append(('u64', toint(a[0]), self.tonum(a[1]))) or U)

    @func(H, 'source')
    def _(t, a):
        with open(self.root + '/' + a[0]) as h: return h.read()
    func(H, 'load')(lambda t, a: self.load_module(self.root + '/' + a[0], a[1])[0])
    func(H, 'rejections')(lambda t, a: len([q for q in self.rejected if not q.handled]))
    func(H, 'isBuffer')(lambda t, a: a[0].__class__ is Buf)

    @func(H, 'and')
    def _(t, a): return conj([self.cond(x) for x in a])
    @func(H, 'or')
    def _(t, a): return disj([self.cond(x) for x in a])
    func(H, 'same')(lambda t, a: same_text(a[0], a[1]))

    def same_text(x, y):
        if isstr(x) and isstr(y): return str_eq(x, y)
        return False

    @func(H, 'inRange')
    def _(t, a):
        """a number between two others, without deciding"""
        v = a[0]
        if v.__class__ is float: return False
        return in_ranges(v, [(toint(a[1]), toint(a[2]))])
