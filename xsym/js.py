"""Symbolic interpreter for the JavaScript of /repo (ESTree from acorn).

Every value may hold integers of sym.py: numbers are Python ints and floats or SInt, strings are Python
strings or SStr (a fixed number of code units, each an int or SInt).  Branches on symbolic conditions go
through S.decide, which forks the path.  Async functions are Python generators driven by a microtask queue."""
import os, re, json, math, subprocess
from collections import deque
from . import sym
from .sym import S, PathEnd, Unsupported, SInt, SBool, AndB_, OrB_, new_var, PV
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre

INF = float('inf'); NAN = float('nan')


class Undef:
    def __repr__(self): return 'undefined'
    def __bool__(self): return False
U = Undef()
TDZ = object()
HOLE = U


class JSThrow(Exception):
    def __init__(self, v): self.v = v


class SStr:
    """a string with symbolic code units"""
    __slots__ = ('u',)
    def __init__(self, u): self.u = u
    def __len__(self): return len(self.u)
    def __repr__(self): return 'SStr(%r)' % (self.u,)


def units(s):
    if s.__class__ is SStr: return s.u
    if all(ord(c) < 0x10000 for c in s): return [ord(c) for c in s]
    b = s.encode('utf-16-le', 'surrogatepass')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def mkstr(u):
    if any(x.__class__ is SInt for x in u): return SStr(list(u))
    return b''.join(x.to_bytes(2, 'little') for x in u).decode('utf-16-le', 'surrogatepass')


def slen(s): return len(s) if s.__class__ is SStr else len(units(s))


def isstr(x): return x.__class__ is str or x.__class__ is SStr
def isnum(x): return x.__class__ in (int, float, SInt)


def beq(a, b):
    r = a == b
    return r if r.__class__ is bool else r


def conj(xs):
    r = True
    for x in xs:
        if x is False: return False
        if x is True: continue
        r = x if r is True else AndB_(r, x)
    return r


def disj(xs):
    r = False
    for x in xs:
        if x is True: return True
        if x is False: continue
        r = x if r is False else OrB_(r, x)
    return r


def neg(x): return (not x) if x.__class__ is bool else x.neg()


def in_ranges(c, rs):
    """c is in one of the ranges"""
    if c.__class__ is int: return any(a <= c <= b for a, b in rs)
    return disj([beq(c, a) if a == b else conj([c >= a, c <= b]) for a, b in rs])


def ranges(codes):
    out = []
    for c in sorted(set(codes)):
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c])
    return out


def decide(c):
    return c if c.__class__ is bool else S.decide(c)


def str_eq(a, b):
    if a.__class__ is str and b.__class__ is str: return a == b
    x, y = units(a), units(b)
    if len(x) != len(y): return False
    return conj([beq(p, q) if p.__class__ is SInt else beq(q, p) if q.__class__ is SInt else p == q for p, q in zip(x, y)])


class Accessor:
    __slots__ = ('get', 'set')
    def __init__(self): self.get = self.set = None


class Obj:
    cls = 'Object'
    def __init__(self, proto=None): self.props = {}; self.proto = proto; self.frozen = False


class Arr(Obj):
    cls = 'Array'
    def __init__(self, a, proto): Obj.__init__(self, proto); self.a = a


class Func(Obj):
    cls = 'Function'


class Native(Func):
    def __init__(self, it, fn, name='', ctor=None):
        Obj.__init__(self, it.FP); self.fn = fn; self.name = name; self.ctor = ctor


class JSFunc(Func):
    def __init__(self, it, node, env, this, home=None):
        Obj.__init__(self, it.FP); self.node = node; self.env = env; self.this = this; self.home = home
        self.arrow = node['type'] == 'ArrowFunctionExpression'; self.isasync = node['async']
        self.fields = None; self.derived = False; self.isclass = False
        self.name = (node.get('id') or {}).get('name', '')


class Promise(Obj):
    cls = 'Promise'
    def __init__(self, proto):
        Obj.__init__(self, proto); self.state = 'pending'; self.value = U; self.cbs = []; self.handled = False


class Buf(Obj):
    """ArrayBuffer: bytes by address"""
    cls = 'ArrayBuffer'
    def __init__(self, n, proto, d=None): Obj.__init__(self, proto); self.n = n; self.d = {} if d is None else d; self.detached = False


class View(Obj):
    cls = 'TypedArray'
    def __init__(self, buf, off, n, kind, proto): Obj.__init__(self, proto); self.buf = buf; self.off = off; self.n = n; self.kind = kind
    def len(self): return 0 if self.buf.detached else self.n


class Coll(Obj):
    """Map and Set, with concrete keys"""
    def __init__(self, kind, proto): Obj.__init__(self, proto); self.cls = kind; self.d = {}


class Rx(Obj):
    cls = 'RegExp'
    def __init__(self, src, flags, proto):
        Obj.__init__(self, proto); self.src = src; self.flags = flags
        try:
            self.tree = sre.parse(re.sub(r'\(\?<([A-Za-z])', r'(?P<\1', src), 0)
        except re.error as e:
            raise Unsupported('regular expression ' + src)


class Env:
    __slots__ = ('v', 'up', 'consts', 'fn')
    def __init__(self, up, fn=None): self.v = {}; self.up = up; self.consts = None; self.fn = fn if fn is not None else (up.fn if up is not None else None)


class Frame:
    """this, new.target and home object of the function that runs"""
    __slots__ = ('this', 'func', 'home')
    def __init__(self, this, func, home): self.this = this; self.func = func; self.home = home


class Live:
    __slots__ = ('env', 'name')
    def __init__(self, env, name): self.env = env; self.name = name


def fmt_num(x, radix=10):
    if x.__class__ is int:
        if radix == 10: return str(x)
        n, s = abs(x), ''
        while n or not s: s = '0123456789abcdefghijklmnopqrstuvwxyz'[n % radix] + s; n //= radix
        return ('-' if x < 0 else '') + s
    if x != x: return 'NaN'
    if x == INF: return 'Infinity'
    if x == -INF: return '-Infinity'
    if x == int(x) and abs(x) < 1e21: return fmt_num(int(x), radix)
    if radix != 10: raise Unsupported('fraction in another radix')
    r = repr(x)
    if 'e' in r:
        m, e = r.split('e')
        e = int(e)
        if -7 < e < 21:
            from decimal import Decimal
            return format(Decimal(r), 'f')
        return '%se%s%d' % (m[:-2] if m.endswith('.0') else m, '+' if e > 0 else '-', abs(e))
    return r


def norm(x):
    """floats that are integers become ints"""
    if x.__class__ is float and x == x and abs(x) < 2 ** 53 and x == int(x) and not (x == 0 and math.copysign(1, x) < 0): return int(x)
    return x


class Interp:
    def __init__(self, asts, root, calls=None):
        self.asts = asts; self.root = root; self.calls = calls if calls is not None else {}
        self.micro = deque(); self.macro = []; self.seq = 0
        self.rejected = []
        self.mods = {}
        self.steps = 0
        self.OP = Obj(None); self.FP = Obj(self.OP)
        mk = lambda: Obj(self.OP)
        self.AP = mk(); self.PP = mk(); self.SP = mk(); self.NP = mk(); self.BP = mk(); self.EP = mk(); self.RP = mk()
        self.BUFP = mk(); self.TA = mk(); self.MAPP = mk(); self.SETP = mk(); self.MEMP = mk()
        self.G = Env(None)
        self.E = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('e_')}
        self.X = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')}
        self.builtins()

    # ------------------------------------------------------------ errors
    def error(self, kind, msg):
        e = Obj(self.errs[kind] if kind in self.errs else self.EP); e.cls = 'Error'
        e.props['message'] = msg; e.props['name'] = kind
        return JSThrow(e)

    def describe(self, v):
        if isinstance(v, Obj) and v.cls == 'Error': return '%s: %s' % (v.props.get('name', 'Error'), v.props.get('message'))
        try:
            return str(self.tostr(v))
        except JSThrow:
            return repr(v)

    # ------------------------------------------------------------ conversions
    def truth(self, v):
        c = v.__class__
        if c is bool: return v
        if c is int or c is float: return v == v and v != 0
        if c is SInt: return S.decide(sym_ne(v, 0)) if sym_ne(v, 0).__class__ is not bool else sym_ne(v, 0)
        if v is U or v is None: return False
        if c is str: return v != ''
        if c is SStr: return len(v.u) > 0
        if isinstance(v, SBool): return S.decide(v)
        return True

    def cond(self, v):
        """truth without deciding: bool or SBool"""
        if isinstance(v, SBool): return v
        if v.__class__ is SInt: return sym_ne(v, 0)
        return self.truth(v)

    def tonum(self, v):
        c = v.__class__
        if c is int or c is float or c is SInt or c is Frac: return v
        if c is bool: return int(v)
        if v is U: return NAN
        if v is None: return 0
        if isinstance(v, SBool): return sym.bool_int(v)
        if c is str:
            t = v.strip()
            if t == '': return 0
            if re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)', t): return norm(float(t)) if not re.fullmatch(r'[+-]?\d+', t) else int(t)
            if re.fullmatch(r'0[xX][0-9a-fA-F]+', t): return int(t, 16)
            if re.fullmatch(r'[+-]?Infinity', t): return -INF if t[0] == '-' else INF
            return NAN
        if c is SStr: return self.str2num(v)
        return self.tonum(self.toprim(v, 'number'))

    def str2num(self, v):
        """Number(text): decimal digits and 0x; anything else with symbols in it has to be decided"""
        u = v.u
        if u and decide(in_ranges(u[0], [(48, 57)])) and all(decide(in_ranges(c, [(48, 57)])) for c in u):
            r = 0
            for c in u: r = r * 10 + (c - 48)
            return r
        if len(u) > 2 and decide(str_eq(mkstr(u[:2]), '0x')):
            r = 0
            for c in u[2:]:
                d = self.digit(c, 16)
                if d is None: return NAN
                r = r * 16 + d
            return r
        if all(decide(in_ranges(c, [(65, 65535)])) and not decide(in_ranges(c, [(0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000), (0xfeff, 0xfeff), (ord('I'), ord('I'))])) for c in u): return NAN
        raise Unsupported('number of a symbolic text')

    def toprim(self, v, hint='default'):
        if not isinstance(v, Obj): return v
        for m in (('toString', 'valueOf') if hint == 'string' else ('valueOf', 'toString')):
            f = self.get(v, m)
            if isinstance(f, Func):
                r = self.call(f, v, [])
                if not isinstance(r, Obj): return r
        raise self.error('TypeError', 'Cannot convert object to primitive value')

    def tostr(self, v):
        c = v.__class__
        if c is str or c is SStr: return v
        if c is bool: return 'true' if v else 'false'
        if c is int or c is float: return fmt_num(v)
        if v is U: return 'undefined'
        if v is None: return 'null'
        if c is SInt: return self.num2str(v, 10)
        if isinstance(v, SBool): return 'true' if S.decide(v) else 'false'
        return self.tostr(self.toprim(v, 'string'))

    def num2str(self, v, radix):
        """text of a symbolic integer: the number of digits is decided, each digit is an expression"""
        if v.__class__ is not SInt: return fmt_num(norm(v), radix)
        if decide(v < 0): return self.concat('-', self.num2str(0 - v, radix))
        ds = []
        while True:
            if v.__class__ is int:
                ds.append(v % radix); v = v // radix
                if v == 0: break
                continue
            if decide(v < radix): ds.append(v); break
            q, r = v.divmod(radix)
            ds.append(r); v = q
            if len(ds) > 40: raise Unsupported('text of a large number')
        u = []
        for d in reversed(ds):
            if d.__class__ is int: u.append(ord('0123456789abcdefghijklmnopqrstuvwxyz'[d]))
            elif radix <= 10 or decide(d < 10): u.append(d + 48)
            else: u.append(d + 87)
        return mkstr(u)

    def key(self, v):
        """property key: int (array index) or str"""
        c = v.__class__
        if c is int: return v
        if c is SInt: return S.concretize(v)
        if c is float:
            v = norm(v)
            return v if v.__class__ is int else fmt_num(v)
        if isinstance(v, SBool): return 'true' if S.decide(v) else 'false'
        if isinstance(v, Symbol): return v
        v = self.tostr(v)
        if v.__class__ is SStr: v = mkstr([S.concretize(x) if x.__class__ is SInt else x for x in v.u])
        if v.isdigit() and v.isascii() and (v == '0' or v[0] != '0') and len(v) < 16: return int(v)
        return v

    def concat(self, a, b):
        if a.__class__ is str and b.__class__ is str: return a + b
        return mkstr(units(a) + units(b))

    # ------------------------------------------------------------ properties
    def protoof(self, o):
        if isinstance(o, Obj): return o.proto
        if isstr(o): return self.SP
        if isnum(o): return self.NP
        if o.__class__ is bool or isinstance(o, SBool): return self.BP
        return None

    def get(self, o, k, this=None):
        if o is U or o is None: raise self.error('TypeError', "Cannot read properties of %s (reading '%s')" % ('null' if o is None else 'undefined', k))
        if this is None: this = o
        c = o.__class__
        if c is Arr:
            if k.__class__ is int:
                if 0 <= k < len(o.a): return o.a[k]
            elif k == 'length': return len(o.a)
        elif c is View:
            if k.__class__ is int: return o.buf.d.get(o.off + k, 0) if 0 <= k < o.len() else U
            if k == 'length' or k == 'byteLength': return o.len()
            if k == 'buffer': return o.buf
            if k == 'byteOffset': return o.off
            if k == 'BYTES_PER_ELEMENT': return 1
        elif c is Buf:
            if k == 'byteLength': return 0 if o.detached else o.n
        elif c is Coll:
            if k == 'size': return len(o.d)
        elif c is str or c is SStr:
            if k.__class__ is int:
                u = units(o)
                return mkstr([u[k]]) if 0 <= k < len(u) else U
            if k == 'length': return slen(o)
        elif isinstance(o, Func):
            if k == 'name': return o.name
            if k == 'prototype' and c is JSFunc and 'prototype' not in o.props and not o.arrow and not o.isasync:
                p = Obj(self.OP); p.props['constructor'] = o; o.props['prototype'] = p
            if k == 'length' and 'length' not in o.props: return len(o.node['params']) if c is JSFunc else 0
        p = o if isinstance(o, Obj) else self.protoof(o)
        while p is not None:
            if k in p.props:
                v = p.props[k]
                if v.__class__ is Accessor:
                    return self.call(v.get, this, []) if v.get is not None else U
                return v
            p = p.proto
        return U

    def set(self, o, k, v):
        if o is U or o is None: raise self.error('TypeError', "Cannot set properties of %s (setting '%s')" % ('null' if o is None else 'undefined', k))
        c = o.__class__
        if c is Arr:
            if k.__class__ is int:
                if k < len(o.a): o.a[k] = v
                else:
                    if k > len(o.a) + 100000: raise Unsupported('sparse array')
                    while len(o.a) < k: o.a.append(U)
                    o.a.append(v)
                return
            if k == 'length':
                n = self.toint(v)
                del o.a[n:]
                while len(o.a) < n: o.a.append(U)
                return
        elif c is View:
            if k.__class__ is int:
                x = self.element(o.kind, v)
                if 0 <= k < o.len(): o.buf.d[o.off + k] = x
                return
        elif not isinstance(o, Obj): return
        p = o
        while p is not None:
            a = p.props.get(k)
            if a.__class__ is Accessor:
                if a.set is None: raise self.error('TypeError', 'Cannot set property %s which has only a getter' % k)
                self.call(a.set, o, [v])
                return
            p = p.proto
        if o.frozen:
            raise self.error('TypeError', 'Cannot assign to read only property %s' % k)
        o.props[k] = v

    def element(self, kind, v):
        v = self.tonum(v)
        if v.__class__ is float:
            if v != v: return 0
            if kind == 'clamped':
                if v <= 0: return 0
                if v >= 255: return 255
                f = math.floor(v)
                return f + 1 if v - f > 0.5 or (v - f == 0.5 and f % 2) else f
            v = int(v)
        if v.__class__ is int: return max(0, min(255, v)) if kind == 'clamped' else v & 255
        lo, hi = v.iv()
        if lo >= 0 and hi <= 255: return v
        if kind == 'clamped':
            if decide(v < 0): return 0
            return 255 if decide(v > 255) else v
        return v & 255

    def toint(self, v, dflt=0):
        if v is U: return dflt
        v = self.tonum(v)
        if v.__class__ is SInt: return S.concretize(v)
        if v.__class__ is float:
            if v != v: return 0
            if v in (INF, -INF): return 2 ** 53 if v > 0 else -2 ** 53
            return int(v)
        return v

    def keys(self, o):
        if o.__class__ is Arr: return [str(i) for i in range(len(o.a))] + [k for k in o.props if k.__class__ is str]
        if o.__class__ is View: return [str(i) for i in range(o.len())]
        if isstr(o): return [str(i) for i in range(slen(o))]
        ks = [k for k in o.props if not k.__class__ is Symbol]
        hidden = getattr(o, 'hidden', ())
        return [str(k) for k in sorted(k for k in ks if k.__class__ is int)] + [k for k in ks if k.__class__ is str and k not in hidden]

    def iterate(self, o):
        c = o.__class__
        if c is Arr:
            i = 0
            while i < len(o.a): yield o.a[i]; i += 1
            return
        if c is View:
            for i in range(o.len()): yield o.buf.d.get(o.off + i, 0)
            return
        if c is str or c is SStr:
            u = units(o)
            i = 0
            while i < len(u):
                n = 1
                if u[i].__class__ is SInt and i + 1 < len(u):
                    if decide(in_ranges(u[i], [(0xd800, 0xdbff)])) and decide(in_ranges(u[i + 1], [(0xdc00, 0xdfff)])): n = 2
                elif u[i].__class__ is int and 0xd800 <= u[i] <= 0xdbff and i + 1 < len(u) and decide(in_ranges(u[i + 1], [(0xdc00, 0xdfff)])): n = 2
                yield mkstr(u[i:i + n])
                i += n
            return
        if c is Coll:
            for k, v in list(o.d.values()): yield k if o.cls == 'Set' else self.arr([k, v])
            return
        if isinstance(o, Obj):
            f = self.get(o, ITER)
            if isinstance(f, Func):
                it = self.call(f, o, [])
                nx = self.get(it, 'next')
                while True:
                    r = self.call(nx, it, [])
                    if self.truth(self.get(r, 'done')): return
                    yield self.get(r, 'value')
        raise self.error('TypeError', '%s is not iterable' % self.describe(o))

    def arr(self, a): return Arr(list(a), self.AP)
    def obj(self, **kw):
        o = Obj(self.OP); o.props.update(kw); return o

    # ------------------------------------------------------------ calls
    def call(self, f, this, args):
        if f.__class__ is Native: return f.fn(this, args)
        if f.__class__ is JSFunc:
            if f.isclass: raise self.error('TypeError', "Class constructor %s cannot be invoked without 'new'" % f.name)
            return self.invoke(f, this, args)
        raise self.error('TypeError', '%s is not a function' % self.describe(f))

    def invoke(self, f, this, args):
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 400:
            self.depth = 0
            raise self.error('RangeError', 'Maximum call stack size exceeded')
        try:
            g = self.body(f, this, args)
            if f.isasync:
                p = Promise(self.PP)
                self.drive(g, p)
                return p
            return self.run(g)
        finally:
            self.depth -= 1

    def run(self, g):
        try:
            next(g)
        except StopIteration as e:
            return e.value
        raise Unsupported('await outside of an async function')

    def drive(self, g, p):
        """run an async function up to its next await"""
        def step(send, v):
            try:
                w = g.send(v) if send else g.throw(JSThrow(v))
            except StopIteration as e:
                self.resolve(p, e.value); return
            except JSThrow as e:
                self.reject(p, e.v); return
            q = w
            if q.__class__ is not Promise:
                q = Promise(self.PP); self.resolve(q, w)
            self.then(q, lambda v: step(True, v), lambda v: step(False, v))
        try:
            w = next(g)
        except StopIteration as e:
            self.resolve(p, e.value); return
        except JSThrow as e:
            self.reject(p, e.v); return
        q = w
        if q.__class__ is not Promise:
            q = Promise(self.PP); self.resolve(q, w)
        self.then(q, lambda v: step(True, v), lambda v: step(False, v))

    def body(self, f, this, args):
        node = f.node
        n = self.calls
        nm = f.name or 'anonymous'
        loc = node.get('loc')
        n['%s:%d' % (nm, loc['start']['line']) if loc else nm] = 1
        env = Env(f.env, f.env.fn if f.arrow else Frame(this, f, f.home))
        if not f.arrow: env.v['arguments'] = self.arr(args)
        for i, p in enumerate(node['params']):
            if p['type'] == 'Identifier': env.v[p['name']] = args[i] if i < len(args) else U
            elif p['type'] == 'RestElement': yield from self.bind(p['argument'], self.arr(args[i:]), env, 'let')
            else: yield from self.bind(p, args[i] if i < len(args) else U, env, 'let')
        b = node['body']
        if b['type'] != 'BlockStatement': return (yield from self.ev(b, env))
        env2 = env
        self.hoist(b['body'], env2, True)
        for s in b['body']:
            r = yield from self.X[s['type']](s, env2)
            if r is not None: return r[1] if r[0] == 'return' else U
        return U

    def construct(self, f, args, nt=None):
        if f.__class__ is Native:
            if f.ctor is None: raise self.error('TypeError', '%s is not a constructor' % f.name)
            o = f.ctor(args)
            if nt is not None and nt is not f: o.proto = self.get(nt, 'prototype')
            return o
        if f.__class__ is not JSFunc or f.arrow or f.isasync: raise self.error('TypeError', 'not a constructor')
        nt = nt or f
        proto = self.get(nt, 'prototype')
        if f.derived:
            fr = Frame(TDZ, f, f.home)
            r = self.run(self.cbody(f, fr, args, nt))
            if isinstance(r, Obj): return r
            if fr.this is TDZ: raise self.error('ReferenceError', 'Must call super constructor')
            return fr.this
        o = Obj(proto if isinstance(proto, Obj) else self.OP)
        self.initfields(f, o)
        r = self.run(self.cbody(f, Frame(o, f, f.home), args, nt))
        return r if isinstance(r, Obj) else o

    def cbody(self, f, fr, args, nt):
        """constructor body with its own frame (which super() fills in)"""
        env = Env(f.env, fr)
        env.v['new.target'] = nt
        env.v['arguments'] = self.arr(args)
        if f.node.get('implicit'):
            if f.derived:
                fr.this = self.construct(f.proto, args, nt)
                self.initfields(f, fr.this)
            return U
        for i, p in enumerate(f.node['params']):
            if p['type'] == 'RestElement': yield from self.bind(p['argument'], self.arr(args[i:]), env, 'let')
            else: yield from self.bind(p, args[i] if i < len(args) else U, env, 'let')
        b = f.node['body']
        self.hoist(b['body'], env, True)
        for s in b['body']:
            r = yield from self.X[s['type']](s, env)
            if r is not None: return r[1] if r[0] == 'return' else U
        return U

    def initfields(self, f, o):
        for key, node, env in f.fields or ():
            e = Env(env, Frame(o, f, f.home))
            v = self.run(self.ev(node, e)) if node is not None else U
            o.props[key] = v

    # ------------------------------------------------------------ promises
    def resolve(self, p, v):
        if p.state != 'pending' or getattr(p, 'locked', False): return
        if v.__class__ is Promise:
            p.locked = True
            def fin(ok):
                def g(x):
                    p.locked = False
                    (self.resolve if ok else self.reject)(p, x)
                return g
            self.micro.append(lambda: self.then(v, fin(True), fin(False)))
            return
        if isinstance(v, Obj):
            th = self.get(v, 'then')
            if isinstance(th, Func):
                self.micro.append(lambda: self.call(th, v, [Native(self, lambda t, a: self.resolve(p, a[0] if a else U) or U), Native(self, lambda t, a: self.reject(p, a[0] if a else U) or U)]))
                return
        p.state = 'fulfilled'; p.value = v
        self.settle(p)

    def reject(self, p, v):
        if p.state != 'pending': return
        p.state = 'rejected'; p.value = v
        if not p.cbs and not p.handled: self.rejected.append(p)
        self.settle(p)

    def settle(self, p):
        cbs, p.cbs = p.cbs, []
        for ok, bad in cbs: self.schedule(p, ok, bad)

    def schedule(self, p, ok, bad):
        self.micro.append(lambda: (ok if p.state == 'fulfilled' else bad)(p.value))

    def then(self, p, ok, bad):
        p.handled = True
        if p.state == 'pending': p.cbs.append((ok, bad))
        else: self.schedule(p, ok, bad)

    def then_js(self, p, ok, bad):
        q = Promise(self.PP)
        def wrap(f, res):
            if not isinstance(f, Func): return lambda v: res(q, v)
            def g(v):
                try:
                    self.resolve(q, self.call(f, U, [v]))
                except JSThrow as e:
                    self.reject(q, e.v)
            return g
        self.then(p, wrap(ok, self.resolve), wrap(bad, self.reject))
        return q

    def topromise(self, v):
        if v.__class__ is Promise: return v
        p = Promise(self.PP); self.resolve(p, v)
        return p

    def loop(self, p):
        """the event loop, until p is settled"""
        while True:
            while self.micro: self.micro.popleft()()
            self.unhandled = [q for q in self.rejected if not q.handled]
            if p.state != 'pending': return
            if not self.macro: raise PathEnd('panic', 'the harness waits for something that never happens')
            self.macro.sort(key=lambda t: (t[0], t[1]))
            t, _, f = self.macro.pop(0)
            f()

    # ------------------------------------------------------------ scopes
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.v:
                v = e.v[name]
                if v is TDZ: raise self.error('ReferenceError', "Cannot access '%s' before initialization" % name)
                if v.__class__ is Live: return self.lookup(v.env, v.name)
                return v
            e = e.up
        raise self.error('ReferenceError', '%s is not defined' % name)

    def assign(self, env, name, v):
        e = env
        while e is not None:
            if name in e.v:
                if e.v[name] is TDZ: raise self.error('ReferenceError', "Cannot access '%s' before initialization" % name)
                if e.consts and name in e.consts: raise self.error('TypeError', 'Assignment to constant variable.')
                e.v[name] = v
                return
            e = e.up
        raise self.error('ReferenceError', '%s is not defined' % name)

    def names(self, p):
        t = p['type']
        if t == 'Identifier': return [p['name']]
        if t == 'ObjectPattern': return [x for q in p['properties'] for x in self.names(q['argument'] if q['type'] == 'RestElement' else q['value'])]
        if t == 'ArrayPattern': return [x for q in p['elements'] if q for x in self.names(q)]
        if t == 'AssignmentPattern': return self.names(p['left'])
        if t == 'RestElement': return self.names(p['argument'])
        return []

    def hoist(self, body, env, top):
        for s in body:
            if s['type'] in ('ExportNamedDeclaration', 'ExportDefaultDeclaration') and s.get('declaration'): s = s['declaration']
            t = s['type']
            if t == 'FunctionDeclaration':
                if s.get('id'): env.v[s['id']['name']] = JSFunc(self, s, env, None)
            elif t == 'VariableDeclaration' and s['kind'] != 'var':
                for d in s['declarations']:
                    for n in self.names(d['id']):
                        env.v[n] = TDZ
            elif t == 'ClassDeclaration':
                if s.get('id'): env.v[s['id']['name']] = TDZ
        if top:
            for n in vars_of(body):
                if n not in env.v: env.v[n] = U

    def block(self, body, env):
        self.hoist(body, env, False)
        for s in body:
            r = yield from self.X[s['type']](s, env)
            if r is not None: return r
        return None

    def bind(self, p, v, env, kind):
        """declare (kind let / const / var) or assign (kind None) a pattern"""
        t = p['type']
        if t == 'Identifier':
            n = p['name']
            if v.__class__ is JSFunc and not v.name: v.name = n
            if kind is None or kind == 'var': self.assign(env, n, v)
            else:
                env.v[n] = v
                if kind == 'const':
                    if env.consts is None: env.consts = set()
                    env.consts.add(n)
        elif t == 'AssignmentPattern':
            if v is U: v = yield from self.ev(p['right'], env)
            yield from self.bind(p['left'], v, env, kind)
        elif t == 'ArrayPattern':
            if v is U or v is None: raise self.error('TypeError', '%s is not iterable' % self.describe(v))
            it = self.iterate(v)
            for q in p['elements']:
                if q is None: next(it, U)
                elif q['type'] == 'RestElement': yield from self.bind(q['argument'], self.arr(it), env, kind)
                else: yield from self.bind(q, next(it, U), env, kind)
        elif t == 'ObjectPattern':
            if v is U or v is None: raise self.error('TypeError', "Cannot destructure '%s'" % self.describe(v))
            used = []
            for q in p['properties']:
                if q['type'] == 'RestElement':
                    o = self.obj()
                    for k in self.keys(v):
                        if self.key(k) not in used: o.props[self.key(k)] = self.get(v, self.key(k))
                    yield from self.bind(q['argument'], o, env, kind)
                else:
                    k = (yield from self.pkey(q, env))
                    used.append(k)
                    yield from self.bind(q['value'], self.get(v, k), env, kind)
        elif t == 'MemberExpression':
            o, k = yield from self.ref(p, env)
            self.set(o, k, v)
        elif t == 'RestElement':
            yield from self.bind(p['argument'], v, env, kind)
        else: raise Unsupported('pattern ' + t)

    def pkey(self, q, env):
        if q.get('computed'): return self.key((yield from self.ev(q['key'], env)))
        k = q['key']
        if k['type'] == 'Identifier': return k['name']
        if k['type'] == 'PrivateIdentifier': return '#' + k['name']
        return self.key(k['value'])

    # ------------------------------------------------------------ statements
    def x_ExpressionStatement(self, n, env):
        yield from self.ev(n['expression'], env)
        return None

    def x_VariableDeclaration(self, n, env):
        kind = n['kind']
        for d in n['declarations']:
            if d['init'] is None:
                if kind != 'var': env.v[d['id']['name']] = U
                continue
            v = yield from self.ev(d['init'], env)
            yield from self.bind(d['id'], v, env, kind)
        return None

    def x_FunctionDeclaration(self, n, env):
        return None
        yield

    def x_ClassDeclaration(self, n, env):
        c = yield from self.e_ClassExpression(n, env)
        if n.get('id'): env.v[n['id']['name']] = c
        return None

    def x_ReturnStatement(self, n, env):
        if n['argument'] is None: return ('return', U)
        return ('return', (yield from self.ev(n['argument'], env)))

    def x_IfStatement(self, n, env):
        if self.truth((yield from self.ev(n['test'], env))): return (yield from self.X[n['consequent']['type']](n['consequent'], env))
        if n['alternate']: return (yield from self.X[n['alternate']['type']](n['alternate'], env))
        return None

    def x_BlockStatement(self, n, env):
        return (yield from self.block(n['body'], Env(env)))

    def x_EmptyStatement(self, n, env):
        return None
        yield
    x_DebuggerStatement = x_EmptyStatement

    def tick(self):
        self.steps += 1
        if self.steps > 3000000: raise PathEnd('timeout', 'too many steps')

    def looped(self, r, n):
        """(leave the loop?, completion)"""
        if r is None: return False, None
        if r[0] == 'continue' and (r[1] is None or r[1] in n.get('labels', ())): return False, None
        if r[0] == 'break' and r[1] is None: return True, None
        return True, r

    def x_ForStatement(self, n, env):
        e = Env(env)
        init = n['init']
        names = []
        if init is not None:
            if init['type'] == 'VariableDeclaration':
                yield from self.x_VariableDeclaration(init, e if init['kind'] != 'var' else env)
                if init['kind'] == 'let': names = [x for d in init['declarations'] for x in self.names(d['id'])]
            else: yield from self.ev(init, e)
        while True:
            self.tick()
            if n['test'] is not None and not self.truth((yield from self.ev(n['test'], e))): return None
            r = yield from self.X[n['body']['type']](n['body'], e)
            stop, r = self.looped(r, n)
            if stop: return r
            if names:
                e2 = Env(env)
                e2.v.update(e.v); e2.consts = e.consts
                e = e2
            if n['update'] is not None: yield from self.ev(n['update'], e)

    def x_ForOfStatement(self, n, env):
        o = yield from self.ev(n['right'], env)
        return (yield from self.each(n, env, self.iterate(o)))

    def x_ForInStatement(self, n, env):
        o = yield from self.ev(n['right'], env)
        ks = []
        while isinstance(o, Obj) and o not in (self.OP, self.AP):
            ks += [k for k in self.keys(o) if k not in ks]
            o = o.proto
        return (yield from self.each(n, env, iter(ks)))

    def each(self, n, env, it):
        left = n['left']
        for v in it:
            self.tick()
            e = Env(env)
            if n.get('await'): v = yield v
            if left['type'] == 'VariableDeclaration':
                if left['kind'] == 'var': yield from self.bind(left['declarations'][0]['id'], v, env, 'var')
                else: yield from self.bind(left['declarations'][0]['id'], v, e, left['kind'])
            else: yield from self.bind(left, v, env, None)
            r = yield from self.X[n['body']['type']](n['body'], e)
            stop, r = self.looped(r, n)
            if stop: return r
        return None

    def x_WhileStatement(self, n, env):
        while True:
            self.tick()
            if not self.truth((yield from self.ev(n['test'], env))): return None
            r = yield from self.X[n['body']['type']](n['body'], env)
            stop, r = self.looped(r, n)
            if stop: return r

    def x_DoWhileStatement(self, n, env):
        while True:
            self.tick()
            r = yield from self.X[n['body']['type']](n['body'], env)
            stop, r = self.looped(r, n)
            if stop: return r
            if not self.truth((yield from self.ev(n['test'], env))): return None

    def x_BreakStatement(self, n, env):
        return ('break', n['label']['name'] if n['label'] else None)
        yield

    def x_ContinueStatement(self, n, env):
        return ('continue', n['label']['name'] if n['label'] else None)
        yield

    def x_LabeledStatement(self, n, env):
        b = n['body']; l = n['label']['name']
        b.setdefault('labels', []).append(l) if l not in b.get('labels', []) else None
        r = yield from self.X[b['type']](b, env)
        if r is not None and r[0] == 'break' and r[1] == l: return None
        return r

    def x_SwitchStatement(self, n, env):
        d = yield from self.ev(n['discriminant'], env)
        e = Env(env)
        self.hoist([s for c in n['cases'] for s in c['consequent']], e, False)
        start = None
        for i, c in enumerate(n['cases']):
            if c['test'] is not None and decide(self.strict_eq(d, (yield from self.ev(c['test'], e)))): start = i; break
        if start is None:
            for i, c in enumerate(n['cases']):
                if c['test'] is None: start = i
        if start is None: return None
        for c in n['cases'][start:]:
            for s in c['consequent']:
                r = yield from self.X[s['type']](s, e)
                if r is not None:
                    if r[0] == 'break' and r[1] is None: return None
                    return r
        return None

    def x_ThrowStatement(self, n, env):
        raise JSThrow((yield from self.ev(n['argument'], env)))

    def x_TryStatement(self, n, env):
        r = None; exc = None
        try:
            r = yield from self.x_BlockStatement(n['block'], env)
        except JSThrow as e:
            exc = e
        if exc is not None and n['handler'] is not None:
            h = n['handler']; ex = exc; exc = None
            e = Env(env)
            try:
                if h['param'] is not None: yield from self.bind(h['param'], ex.v, e, 'let')
                r = yield from self.x_BlockStatement(h['body'], e)
            except JSThrow as e2:
                exc = e2
        if n['finalizer'] is not None:
            f = yield from self.x_BlockStatement(n['finalizer'], env)
            if f is not None: return f
        if exc is not None: raise exc
        return r

    def x_ImportDeclaration(self, n, env):
        return None
        yield

    def x_ExportNamedDeclaration(self, n, env):
        if n.get('declaration'): return (yield from self.X[n['declaration']['type']](n['declaration'], env))
        return None

    def x_ExportDefaultDeclaration(self, n, env):
        d = n['declaration']
        if d['type'] == 'FunctionDeclaration':
            env.v['*default*'] = env.v[d['id']['name']] if d.get('id') else JSFunc(self, d, env, None)
        elif d['type'] == 'ClassDeclaration':
            env.v['*default*'] = yield from self.e_ClassExpression(d, env)
            if d.get('id'): env.v[d['id']['name']] = env.v['*default*']
        else: env.v['*default*'] = yield from self.ev(d, env)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        t = n['type']
        if t == 'Identifier':
            if n['name'] == 'undefined': return U
            return self.lookup(env, n['name'])
        if t == 'Literal': return self.literal(n)
        f = self.E.get(t)
        if f is None: raise Unsupported('JavaScript ' + t)
        return (yield from f(n, env))

    def literal(self, n):
        if 'regex' in n: return Rx(n['regex']['pattern'], n['regex']['flags'], self.RP)
        if 'bigint' in n: raise Unsupported('bigint')
        v = n['value']
        return norm(v) if v.__class__ is float else v

    def e_TemplateLiteral(self, n, env):
        s = n['quasis'][0]['value']['cooked']
        for q, e in zip(n['quasis'][1:], n['expressions']):
            s = self.concat(s, self.tostr((yield from self.ev(e, env))))
            s = self.concat(s, q['value']['cooked'])
        return s

    def e_ThisExpression(self, n, env):
        fr = env.fn
        if fr is None: return U
        if fr.this is TDZ: raise self.error('ReferenceError', 'Must call super constructor')
        return fr.this
        yield

    def e_ArrayExpression(self, n, env):
        a = []
        for e in n['elements']:
            if e is None: a.append(U)
            elif e['type'] == 'SpreadElement': a += list(self.iterate((yield from self.ev(e['argument'], env))))
            else: a.append((yield from self.ev(e, env)))
        return self.arr(a)

    def e_ObjectExpression(self, n, env):
        o = self.obj()
        for p in n['properties']:
            if p['type'] == 'SpreadElement':
                s = yield from self.ev(p['argument'], env)
                if isinstance(s, Obj):
                    for k in self.keys(s): o.props[self.key(k)] = self.get(s, self.key(k))
                continue
            k = yield from self.pkey(p, env)
            if p['kind'] in ('get', 'set'):
                a = o.props.get(k)
                if a.__class__ is not Accessor: a = o.props[k] = Accessor()
                f = JSFunc(self, p['value'], env, None, o)
                setattr(a, p['kind'], f)
            else:
                if p['value']['type'] == 'FunctionExpression':
                    v = JSFunc(self, p['value'], env, None, o); v.name = v.name or str(k)
                else: v = yield from self.ev(p['value'], env)
                if v.__class__ is JSFunc and not v.name: v.name = str(k)
                o.props[k] = v
        return o

    def e_FunctionExpression(self, n, env):
        if n.get('generator'): raise Unsupported('generator function')
        if n.get('id'):
            e = Env(env)
            f = e.v[n['id']['name']] = JSFunc(self, n, e, None)
            return f
        return JSFunc(self, n, env, None)
        yield

    def e_ArrowFunctionExpression(self, n, env):
        return JSFunc(self, n, env, None)
        yield

    def e_ClassExpression(self, n, env):
        env = Env(env)
        sup = None
        if n['superClass'] is not None:
            sup = yield from self.ev(n['superClass'], env)
            if sup is not None and not isinstance(sup, Func): raise self.error('TypeError', 'Class extends value is not a constructor')
        proto = Obj(self.OP if n['superClass'] is None else None if sup is None else self.get(sup, 'prototype'))
        ctor = None
        for m in n['body']['body']:
            if m['type'] == 'MethodDefinition' and m['kind'] == 'constructor': ctor = m['value']
        c = JSFunc(self, ctor or {'type': 'FunctionExpression', 'async': False, 'params': [], 'body': None, 'implicit': True, 'id': n.get('id')}, env, None, proto)
        c.isclass = True; c.derived = n['superClass'] is not None; c.fields = []
        c.name = (n.get('id') or {}).get('name', '')
        if sup is not None: c.proto = sup
        c.props['prototype'] = proto; proto.props['constructor'] = c
        proto.hidden = {'constructor'}
        if n.get('id'): env.v[n['id']['name']] = c
        for m in n['body']['body']:
            if m['type'] == 'StaticBlock':
                yield from self.block(m['body'], Env(env, Frame(c, c, c)))
                continue
            if m['type'] == 'MethodDefinition' and m['kind'] == 'constructor': continue
            k = yield from self.pkey(m, env)
            tgt = c if m['static'] else proto
            if m['type'] == 'MethodDefinition':
                f = JSFunc(self, m['value'], env, None, tgt); f.name = str(k)
                if tgt is proto: proto.hidden.add(k)
                if m['kind'] in ('get', 'set'):
                    a = tgt.props.get(k)
                    if a.__class__ is not Accessor: a = tgt.props[k] = Accessor()
                    setattr(a, m['kind'], f)
                else: tgt.props[k] = f
            elif m['static']:
                e = Env(env, Frame(c, c, c))
                c.props[k] = (yield from self.ev(m['value'], e)) if m['value'] else U
            else: c.fields.append((k, m['value'], env))
        return c

    def e_UnaryExpression(self, n, env):
        op = n['operator']; a = n['argument']
        if op == 'typeof':
            if a['type'] == 'Identifier':
                try:
                    v = yield from self.ev(a, env)
                except JSThrow:
                    return 'undefined'
            else: v = yield from self.ev(a, env)
            return self.typeof(v)
        if op == 'delete':
            if a['type'] != 'MemberExpression': raise Unsupported('delete')
            o, k = yield from self.ref(a, env)
            if o.__class__ is Arr and k.__class__ is int:
                if 0 <= k < len(o.a): o.a[k] = U
            elif isinstance(o, Obj): o.props.pop(k, None)
            return True
        v = yield from self.ev(a, env)
        if op == '!':
            c = self.cond(v)
            return neg(c)
        if op == '-':
            v = self.tonum(v)
            return -0.0 if v.__class__ is int and v == 0 else 0 - v if v.__class__ is SInt else norm(-v)
        if op == '+': return self.tonum(v)
        if op == 'void': return U
        if op == '~': return self.bit('^', v, -1)
        raise Unsupported(op)

    def typeof(self, v):
        if v is U: return 'undefined'
        if v is None: return 'object'
        if v.__class__ is bool or isinstance(v, SBool): return 'boolean'
        if isnum(v): return 'number'
        if isstr(v): return 'string'
        if v.__class__ is Symbol: return 'symbol'
        return 'function' if isinstance(v, Func) else 'object'

    def e_UpdateExpression(self, n, env):
        d = 1 if n['operator'] == '++' else -1
        a = n['argument']
        if a['type'] == 'Identifier':
            v = self.tonum(self.lookup(env, a['name']))
            w = norm(v + d)
            self.assign(env, a['name'], w)
        else:
            o, k = yield from self.ref(a, env)
            v = self.tonum(self.get(o, k))
            w = norm(v + d)
            self.set(o, k, w)
        return w if n['prefix'] else v

    def e_AssignmentExpression(self, n, env):
        op = n['operator']; l = n['left']
        if op == '=':
            if l['type'] == 'MemberExpression':
                o, k = yield from self.ref(l, env)
                v = yield from self.ev(n['right'], env)
                self.set(o, k, v)
                return v
            v = yield from self.ev(n['right'], env)
            yield from self.bind(l, v, env, None)
            return v
        if l['type'] == 'Identifier': old = self.lookup(env, l['name'])
        else:
            o, k = yield from self.ref(l, env)
            old = self.get(o, k)
        if op in ('&&=', '||=', '??='):
            if op == '&&=' and not self.truth(old): return old
            if op == '||=' and self.truth(old): return old
            if op == '??=' and old is not U and old is not None: return old
            v = yield from self.ev(n['right'], env)
        else: v = self.binary(op[:-1], old, (yield from self.ev(n['right'], env)))
        if l['type'] == 'Identifier': self.assign(env, l['name'], v)
        else: self.set(o, k, v)
        return v

    def e_LogicalExpression(self, n, env):
        op = n['operator']
        a = yield from self.ev(n['left'], env)
        if op == '??':
            if a is U or a is None: return (yield from self.ev(n['right'], env))
            return a
        if op == '&&':
            if not self.truth(a): return False if isinstance(a, SBool) else a
            return (yield from self.ev(n['right'], env))
        if self.truth(a): return True if isinstance(a, SBool) else a
        return (yield from self.ev(n['right'], env))

    def e_ConditionalExpression(self, n, env):
        c = self.truth((yield from self.ev(n['test'], env)))
        return (yield from self.ev(n['consequent' if c else 'alternate'], env))

    def e_SequenceExpression(self, n, env):
        for e in n['expressions']: v = yield from self.ev(e, env)
        return v

    def e_AwaitExpression(self, n, env):
        v = yield from self.ev(n['argument'], env)
        return (yield v)

    def e_ParenthesizedExpression(self, n, env): return (yield from self.ev(n['expression'], env))

    def e_ChainExpression(self, n, env):
        try:
            return (yield from self.ev(n['expression'], env))
        except Short:
            return U

    def e_MetaProperty(self, n, env):
        if n['meta']['name'] == 'new': return self.lookup(env, 'new.target')
        return self.obj(url='file:///x.js')
        yield

    def ref(self, n, env):
        """object and key of a member expression"""
        if n['object']['type'] == 'Super':
            o = env.fn.home.proto
        else: o = yield from self.ev(n['object'], env)
        if n.get('optional') and (o is U or o is None): raise Short()
        if n['computed']: k = self.key((yield from self.ev(n['property'], env)))
        else: k = ('#' if n['property']['type'] == 'PrivateIdentifier' else '') + n['property']['name']
        return o, k

    def e_MemberExpression(self, n, env):
        o, k = yield from self.ref(n, env)
        if n['object']['type'] == 'Super': return self.get(o, k, env.fn.this)
        return self.get(o, k)

    def args(self, l, env):
        a = []
        for e in l:
            if e['type'] == 'SpreadElement': a += list(self.iterate((yield from self.ev(e['argument'], env))))
            else: a.append((yield from self.ev(e, env)))
        return a

    def e_CallExpression(self, n, env):
        c = n['callee']
        if c['type'] == 'Super':
            a = yield from self.args(n['arguments'], env)
            fr = env.fn
            nt = self.lookup(env, 'new.target')
            if fr.this is not TDZ: raise self.error('ReferenceError', 'Super constructor may only be called once')
            fr.this = self.construct(fr.func.proto, a, nt)
            self.initfields(fr.func, fr.this)
            return U
        if c['type'] == 'MemberExpression':
            o, k = yield from self.ref(c, env)
            this = env.fn.this if c['object']['type'] == 'Super' else o
            f = self.get(o, k, this)
            name = k
        else:
            this = U
            f = yield from self.ev(c, env)
            name = c.get('name', 'expression')
        if n.get('optional') and (f is U or f is None): raise Short()
        a = yield from self.args(n['arguments'], env)
        if not isinstance(f, Func): raise self.error('TypeError', '%s is not a function' % name)
        return self.call(f, this, a)

    def e_NewExpression(self, n, env):
        f = yield from self.ev(n['callee'], env)
        a = yield from self.args(n['arguments'], env)
        if not isinstance(f, Func): raise self.error('TypeError', 'not a constructor')
        return self.construct(f, a)

    def e_ImportExpression(self, n, env):
        raise Unsupported('import()')
        yield

    # ------------------------------------------------------------ operators
    def e_BinaryExpression(self, n, env):
        a = yield from self.ev(n['left'], env)
        b = yield from self.ev(n['right'], env)
        return self.binary(n['operator'], a, b)

    def binary(self, op, a, b):
        if op == '===': return self.strict_eq(a, b)
        if op == '!==': return neg(self.strict_eq(a, b))
        if op == '==': return self.loose_eq(a, b)
        if op == '!=': return neg(self.loose_eq(a, b))
        if op == 'instanceof':
            if not isinstance(b, Func): raise self.error('TypeError', 'not callable')
            p = self.get(b, 'prototype')
            o = a.proto if isinstance(a, Obj) else None
            while o is not None:
                if o is p: return True
                o = o.proto
            return False
        if op == 'in':
            k = self.key(a)
            if b.__class__ is Arr and k.__class__ is int: return 0 <= k < len(b.a)
            o = b
            while o is not None:
                if k in o.props: return True
                o = o.proto
            return False
        if op == '+':
            a = self.toprim(a); b = self.toprim(b)
            if isstr(a) or isstr(b): return self.concat(self.tostr(a), self.tostr(b))
            return self.arith('+', a, b)
        if op in ('<', '>', '<=', '>='):
            a = self.toprim(a, 'number'); b = self.toprim(b, 'number')
            if isstr(a) and isstr(b): return self.str_cmp(op, a, b)
            a = self.tonum(a); b = self.tonum(b)
            if a != a if a.__class__ is float else False: return False
            if b != b if b.__class__ is float else False: return False
            if a.__class__ is SInt or b.__class__ is SInt:
                if a.__class__ is float or b.__class__ is float:
                    f = a if a.__class__ is float else b
                    if f in (INF, -INF):
                        return ({'<': -INF < f, '<=': -INF < f, '>': f < 0, '>=': f < 0} if f is b else {'<': f < 0, '<=': f < 0, '>': f > 0, '>=': f > 0})[op]
                    # an integer against a fraction
                    if f is b: b = math.ceil(f) if op in ('<', '>=') else math.floor(f)
                    else: a = math.floor(f) if op in ('<', '>=') else math.ceil(f)
                if a.__class__ is int: a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
                return a < b if op == '<' else a > b if op == '>' else a <= b if op == '<=' else a >= b
            return a < b if op == '<' else a > b if op == '>' else a <= b if op == '<=' else a >= b
        if op in ('-', '*', '/', '%', '**'): return self.arith(op, self.tonum(a), self.tonum(b))
        return self.bit(op, a, b)

    def str_cmp(self, op, a, b):
        x, y = units(a), units(b)
        for p, q in zip(x, y):
            e = beq(p, q) if p.__class__ is SInt else beq(q, p)
            if not decide(e):
                lt = decide(p < q if p.__class__ is SInt or q.__class__ is not SInt else q > p)
                return lt == (op in ('<', '<='))
        d = len(x) - len(y)
        return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]

    def arith(self, op, a, b):
        a = self.tonum(a); b = self.tonum(b)
        if a.__class__ is SInt or b.__class__ is SInt:
            if a.__class__ is float or b.__class__ is float:
                f = a if a.__class__ is float else b
                if f != f: return NAN
                raise Unsupported('fraction with a symbolic number')
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '%' and b.__class__ is int and b > 0:
                if decide(a >= 0): return a % b
                raise Unsupported('remainder of a negative number')
            if op == '/' and b.__class__ is int and b > 0:
                q, r = a.divmod(b)
                if decide(r == 0 if r.__class__ is int else beq(r, 0)): return q
                return Frac(a, b)
            if op == '**' and b.__class__ is int and 0 <= b <= 3:
                r = 1
                for _ in range(b): r = r * a
                return r
            if op == '**' and a == 2: return 1 << S.concretize(b)
            raise Unsupported('%s on symbolic numbers' % op)
        if a.__class__ is Frac or b.__class__ is Frac: raise Unsupported('symbolic fraction')
        if op == '+': return norm(a + b)
        if op == '-': return norm(a - b)
        if op == '*':
            r = a * b
            if r.__class__ is int and abs(r) > 2 ** 53: r = float(r)
            return norm(r)
        if op == '/':
            if b == 0: return NAN if a == 0 or a != a else (INF if (a > 0) == (math.copysign(1, b) > 0) else -INF)
            return norm(a / b)
        if op == '%':
            if b == 0 or a != a or b != b or abs(a) == INF: return NAN
            return norm(math.fmod(a, b))
        if op == '**':
            try:
                return norm(float(a) ** float(b))
            except OverflowError:
                return INF
        raise Unsupported(op)

    def int32(self, v):
        v = self.tonum(v)
        if v.__class__ is Frac: v = v.floor()
        if v.__class__ is SInt:
            lo, hi = v.iv()
            if lo >= -2 ** 31 and hi < 2 ** 31: return v
            raise Unsupported('32-bit wrap of a symbolic number')
        if v.__class__ is float:
            if v != v or abs(v) == INF: return 0
            v = int(v)
        v &= 0xffffffff
        return v - (1 << 32) if v >> 31 else v

    def bit(self, op, a, b):
        a = self.int32(a); b = self.int32(b)
        if op == '>>>': a = a & 0xffffffff if a.__class__ is int else a
        if a.__class__ is SInt or b.__class__ is SInt:
            if op in ('<<', '>>', '>>>'):
                b = b & 31 if b.__class__ is int else S.concretize(b) & 31
                if op == '<<': return self.int32(a << b) if a.__class__ is SInt else self.int32(a << b)
                if op == '>>>' and not decide(a >= 0): raise Unsupported('>>> of a negative number')
                return a >> b
            for x, y in ((a, b), (b, a)):
                if x.__class__ is SInt:
                    if x.iv()[0] < 0: raise Unsupported('bit operation on a negative number')
                elif x < 0:
                    if op == '^' and x == -1: return -1 - y
                    raise Unsupported('bit operation on a negative number')
            return a & b if op == '&' else a | b if op == '|' else a ^ b
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '<<': return self.int32(a << (b & 31))
        return a >> (b & 31)

    def strict_eq(self, a, b):
        if isnum(a) and isnum(b):
            if a.__class__ is SInt or b.__class__ is SInt:
                if a.__class__ is float or b.__class__ is float: return False
                return beq(a, b) if a.__class__ is SInt else beq(b, a)
            return a == b
        if isstr(a) and isstr(b): return str_eq(a, b)
        ab, bb = a.__class__ is bool or isinstance(a, SBool), b.__class__ is bool or isinstance(b, SBool)
        if ab and bb:
            if a.__class__ is bool and b.__class__ is bool: return a == b
            if a.__class__ is bool: a, b = b, a
            if b.__class__ is bool: return a if b else a.neg()
            return S.decide(a) == S.decide(b)
        if ab or bb: return False
        if a.__class__ is Frac or b.__class__ is Frac: raise Unsupported('symbolic fraction')
        return a is b

    def loose_eq(self, a, b):
        an, bn = a is U or a is None, b is U or b is None
        if an or bn: return an and bn
        ao, bo = isinstance(a, Obj), isinstance(b, Obj)
        if ao and bo: return a is b
        if ao: a = self.toprim(a)
        if bo: b = self.toprim(b)
        if isstr(a) and isstr(b): return str_eq(a, b)
        ab, bb = a.__class__ is bool or isinstance(a, SBool), b.__class__ is bool or isinstance(b, SBool)
        if ab and bb: return self.strict_eq(a, b)
        return self.strict_eq(self.tonum(a), self.tonum(b))

    def digit(self, c, radix):
        """value of a digit, None if it is not one"""
        if c.__class__ is int:
            try:
                d = int(chr(c), 36) if c < 128 else 99
            except ValueError:
                return None
            return d if d < radix else None
        if decide(in_ranges(c, [(48, 47 + min(10, radix))])): return c - 48
        if radix > 10:
            if decide(in_ranges(c, [(97, 86 + radix)])): return c - 87
            if decide(in_ranges(c, [(65, 54 + radix)])): return c - 55
        return None

    WS = [(9, 13), (32, 32), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000), (0xfeff, 0xfeff)]

    def parse_int(self, s, radix):
        u = list(units(self.tostr(s)))
        while u and decide(in_ranges(u[0], self.WS)): u.pop(0)
        sign = 1
        if u and decide(in_ranges(u[0], [(43, 43), (45, 45)])):
            sign = -1 if decide(in_ranges(u[0], [(45, 45)])) else 1
            u.pop(0)
        r = self.toint(radix)
        if r == 0 or r == 16:
            if len(u) >= 2 and decide(in_ranges(u[0], [(48, 48)])) and decide(in_ranges(u[1], [(88, 88), (120, 120)])): u = u[2:]; r = 16
            if r == 0: r = 10
        if not 2 <= r <= 36: return NAN
        v = None
        for c in u:
            d = self.digit(c, r)
            if d is None: break
            v = d if v is None else v * r + d
        return NAN if v is None else (v if sign == 1 else 0 - v if v.__class__ is SInt else -v)

    def parse_float(self, s):
        s = self.tostr(s)
        if s.__class__ is SStr: raise Unsupported('parseFloat of a symbolic text')
        m = re.match(r'\s*([+-]?(?:Infinity|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?))', s)
        if not m: return NAN
        return norm(float(m.group(1).replace('Infinity', 'inf')))

    # ------------------------------------------------------------ regular expressions
    def rx_match(self, rx, u, at):
        """(end, groups) of a match at position at, or None"""
        fl = rx.flags
        if any(f not in 'giuym' for f in fl): raise Unsupported('regular expression flags')
        icase = 'i' in fl
        n = len(u)

        def pred(items, c):
            rs = []; negate = False
            for op, av in items:
                op = str(op)
                if op == 'NEGATE': negate = True
                elif op == 'LITERAL': rs.append((av, av))
                elif op == 'RANGE': rs.append(tuple(av))
                elif op == 'CATEGORY':
                    av = str(av)
                    base = {'CATEGORY_DIGIT': [(48, 57)], 'CATEGORY_SPACE': self.WS, 'CATEGORY_WORD': [(48, 57), (65, 90), (95, 95), (97, 122)]}
                    if av in base: rs += base[av]
                    else:
                        p = 0
                        for a, b in sorted(base[av.replace('NOT_', '')]):
                            if p <= a - 1: rs.append((p, a - 1))
                            p = b + 1
                        rs.append((p, 65535))
                else: raise Unsupported('regular expression ' + op)
            if icase:
                for a, b in list(rs):
                    for x, y, d in ((65, 90, 32), (97, 122, -32)):
                        lo, hi = max(a, x), min(b, y)
                        if lo <= hi: rs.append((lo + d, hi + d))
            r = in_ranges(c, rs)
            return neg(r) if negate else r

        def seq(items, i, pos, groups, k):
            if i == len(items): return k(pos, groups)
            op, av = items[i]
            op = str(op)
            nxt = lambda p, g: seq(items, i + 1, p, g, k)
            if op in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
                if pos >= n: return None
                if op == 'LITERAL': c = pred([('LITERAL', av)], u[pos])
                elif op == 'NOT_LITERAL': c = pred([('NEGATE', None), ('LITERAL', av)], u[pos])
                elif op == 'ANY': c = pred([('NEGATE', None), ('LITERAL', 10), ('LITERAL', 13), ('RANGE', (0x2028, 0x2029))], u[pos])
                else: c = pred(av, u[pos])
                return nxt(pos + 1, groups) if decide(c) else None
            if op == 'AT':
                av = str(av)
                if av == 'AT_BEGINNING' or av == 'AT_BEGINNING_STRING':
                    if 'm' in fl: raise Unsupported('multiline')
                    return nxt(pos, groups) if pos == 0 else None
                if av == 'AT_END' or av == 'AT_END_STRING': return nxt(pos, groups) if pos == n else None
                raise Unsupported('regular expression ' + av)
            if op == 'SUBPATTERN':
                g, _, _, p = av
                return seq(list(p), 0, pos, groups, lambda e, gr: nxt(e, dict(gr, **{str(g): (pos, e)}) if g else gr))
            if op == 'BRANCH':
                for alt in av[1]:
                    r = seq(list(alt), 0, pos, groups, nxt)
                    if r is not None: return r
                return None
            if op in ('MAX_REPEAT', 'MIN_REPEAT'):
                lo, hi, p = av
                p = list(p)
                def rep(cnt, pos, groups):
                    more = lambda: seq(p, 0, pos, groups, lambda e, g: rep(cnt + 1, e, g) if e > pos or cnt < lo else None) if cnt < (hi if hi != sre.MAXREPEAT else 10 ** 9) else None
                    if cnt < lo: return more()
                    if op == 'MAX_REPEAT':
                        r = more()
                        return r if r is not None else nxt(pos, groups)
                    r = nxt(pos, groups)
                    return r if r is not None else more()
                return rep(0, pos, groups)
            raise Unsupported('regular expression ' + op)
        return seq(list(rx.tree), 0, at, {}, lambda e, g: (e, g))

    def rx_exec(self, rx, s):
        u = units(s)
        start = 0
        glob = 'g' in rx.flags or 'y' in rx.flags
        if glob: start = self.toint(rx.props.get('lastIndex', 0))
        for at in range(start, len(u) + 1):
            m = self.rx_match(rx, u, at)
            if m is not None:
                e, g = m
                if glob: rx.props['lastIndex'] = e
                out = [mkstr(u[at:e])]
                for i in range(1, rx.tree.state.groups):
                    out.append(mkstr(u[slice(*g[str(i)])]) if str(i) in g else U)
                r = self.arr(out); r.props['index'] = at; r.props['input'] = s
                gd = rx.tree.state.groupdict
                if gd:
                    o = self.obj()
                    for nm, i in gd.items(): o.props[nm] = out[i]
                    r.props['groups'] = o
                return r
            if 'y' in rx.flags: break
        if glob: rx.props['lastIndex'] = 0
        return None

    # ------------------------------------------------------------ modules
    def load_script(self, path):
        """a harness file: its declarations are global"""
        t = self.asts[path]
        if 'error' in t: raise PathEnd('panic', t['error'])
        self.hoist(t['ast']['body'], self.G, True)
        self.run(self.stmts(t['ast']['body'], self.G))

    def stmts(self, body, env):
        for s in body:
            r = yield from self.X[s['type']](s, env)
            if r is not None: return r
        return U

    def load_module(self, path, imports):
        """promise of the module's environment"""
        path = os.path.normpath(path)
        if path in self.mods: return self.mods[path]
        p = Promise(self.PP)
        env = Env(self.G)
        self.mods[path] = (p, env)
        t = self.asts.get(path)
        if t is None:
            self.reject(p, self.error('Error', 'no module ' + path).v); return p, env
        if 'error' in t:
            self.reject(p, self.error('SyntaxError', t['error']).v); return p, env
        body = t['ast']['body']
        deps = []
        for s in body:
            if s['type'] == 'ImportDeclaration' or (s['type'] in ('ExportNamedDeclaration', 'ExportAllDeclaration') and s.get('source')):
                src = s['source']['value']
                if s['type'] != 'ImportDeclaration': raise Unsupported('re-export')
                if src.startswith('.'):
                    q = os.path.join(os.path.dirname(path), src)
                    if q not in self.asts and q + '.js' in self.asts: q += '.js'
                    dp, denv = self.load_module(q, imports)
                    deps.append(dp)
                    exported = lambda nm, q=q, denv=denv: Live(denv, self.export_name(q, nm))
                    ns = None
                else:
                    ns = self.get(imports, src)
                    if ns is U: raise Unsupported('import of ' + src)
                    exported = lambda nm, ns=ns: self.get(ns, nm)
                for sp in s['specifiers']:
                    if sp['type'] == 'ImportNamespaceSpecifier':
                        if ns is None: raise Unsupported('namespace import')
                        env.v[sp['local']['name']] = ns
                    else:
                        env.v[sp['local']['name']] = exported('default' if sp['type'] == 'ImportDefaultSpecifier' else sp['imported']['name'])
        self.hoist(body, env, True)
        def run():
            for d in deps: yield d
            yield from self.stmts(body, env)
            return U
        self.drive(run(), p)
        return p, env

    def export_name(self, path, nm):
        """local name of an export"""
        if nm == 'default': return '*default*'
        for s in self.asts[os.path.normpath(path)]['ast']['body']:
            if s['type'] == 'ExportNamedDeclaration':
                for sp in s.get('specifiers') or ():
                    if sp['exported']['name'] == nm: return sp['local']['name']
        return nm


def sym_ne(v, k):
    r = v != k
    return r


class Frac:
    """a symbolic integer over a positive constant"""
    __slots__ = ('a', 'b')
    def __init__(self, a, b): self.a = a; self.b = b
    def floor(self): return self.a.divmod(self.b)[0]
    def ceil(self): return 0 - (0 - self.a).divmod(self.b)[0]


class Short(Exception): pass


class Symbol:
    def __init__(self, name): self.name = name
ITER = Symbol('iterator')


def vars_of(body):
    """names of var declarations, not in inner functions"""
    out = []
    def walk(n):
        if isinstance(n, list):
            for x in n: walk(x)
            return
        if not isinstance(n, dict): return
        t = n.get('type')
        if t in ('FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression', 'ClassDeclaration', 'ClassExpression'): return
        if t == 'VariableDeclaration' and n['kind'] == 'var':
            for d in n['declarations']: pat(d['id'])
        for k, v in n.items():
            if k not in ('loc', 'type'): walk(v)
    def pat(p):
        t = p['type']
        if t == 'Identifier': out.append(p['name'])
        elif t == 'ObjectPattern':
            for q in p['properties']: pat(q['argument'] if q['type'] == 'RestElement' else q['value'])
        elif t == 'ArrayPattern':
            for q in p['elements']:
                if q: pat(q)
        elif t == 'AssignmentPattern': pat(p['left'])
        elif t == 'RestElement': pat(p['argument'])
    walk(body)
    return out


from . import jslib  # noqa: E402
jslib.install(Interp)
