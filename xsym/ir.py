"""LLVM textual IR: module loading (lazy function bodies), types, constants."""
import re, struct

TOK = re.compile(r'''\s*(?:(c"[^"]*")|([%@](?:"[^"]*"|[\w.$-]+))|([-+]?\d+\.\d+(?:e[-+]?\d+)?)|(f?0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+)|([-+](?:inf|qnan|snan)(?:\([^)]*\))?)|(-?\d+)|(![\w.]*|\#\d+)|("[^"]*")|([A-Za-z_][\w.]*)|(\.\.\.)|([()\[\]{}<>,=*:|]))''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mm = m(s, pos)
        if mm is None:
            if s[pos:].strip() == '':
                break
            raise IRError('tokenize: %r in %r' % (s[pos:pos + 40], s[:200]))
        out.append(mm.group(mm.lastindex))
        pos = mm.end()
    return out


class T:
    """type: kind in i,ptr,f64,f32,fx,arr,struct,vec,void,label,meta,func"""
    __slots__ = ('k', 'n', 'e', 'fs', 'packed', '_lay')

    def __init__(self, k, n=0, e=None, fs=None, packed=False):
        self.k = k; self.n = n; self.e = e; self.fs = fs; self.packed = packed; self._lay = None

    def __repr__(self):
        k = self.k
        if k == 'i': return 'i%d' % self.n
        if k in ('arr', 'vec'): return '%s[%d x %r]' % (k, self.n, self.e)
        if k == 'struct': return 'struct{%s}' % ','.join(map(repr, self.fs))
        return k

    def key(self):
        return repr(self)

    def align(self):
        k = self.k
        if k == 'i':
            n = self.n
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k in ('ptr', 'f64'): return 8
        if k == 'f32': return 4
        if k == 'fx': return 16
        if k == 'arr': return self.e.align()
        if k == 'vec':
            s = self.e.n * self.n // 8 if self.e.k == 'i' else self.e.size() * self.n
            a = 1
            while a < s: a *= 2
            return max(a, 1)
        if k == 'struct':
            if self.packed or not self.fs: return 1
            return max(f.align() for f in self.fs)
        raise IRError('align of ' + k)

    def size(self):
        k = self.k
        if k == 'i':
            b = (self.n + 7) // 8
            a = self.align()
            return (b + a - 1) // a * a
        if k in ('ptr', 'f64'): return 8
        if k == 'f32': return 4
        if k == 'fx': return 16
        if k == 'arr': return self.n * self.e.size()
        if k == 'vec':
            s = (self.e.n * self.n + 7) // 8 if self.e.k == 'i' else self.e.size() * self.n
            a = self.align()
            return (s + a - 1) // a * a
        if k == 'struct':
            return self.layout()[1]
        if k == 'void': return 0
        raise IRError('size of ' + k)

    def store_size(self):
        if self.k == 'i': return (self.n + 7) // 8
        return self.size()

    def layout(self):
        if self._lay is None:
            off = 0
            offs = []
            for f in self.fs:
                if not self.packed:
                    a = f.align()
                    off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
            if not self.packed and self.fs:
                a = self.align()
                off = (off + a - 1) // a * a
            self._lay = (offs, off)
        return self._lay


VOID = T('void'); PTR = T('ptr'); F64 = T('f64'); F32 = T('f32'); LABEL = T('label'); META = T('meta')
_ITYPES = {}


def IT(n):
    t = _ITYPES.get(n)
    if t is None:
        t = _ITYPES[n] = T('i', n)
    return t


class Expr(str):
    """python source for an operand; .const holds the concrete value when known"""
    const = None


class P:
    """token cursor with type/operand parsing in the context of a module (and function)"""

    def __init__(self, toks, mod, fn=None):
        self.t = toks; self.i = 0; self.mod = mod; self.fn = fn

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.i >= len(self.t) or self.t[self.i] != x:
            raise IRError('expected %r at %r in %r' % (x, self.t[self.i:self.i + 6], ' '.join(self.t[:30])))
        self.i += 1

    def skip_paren(self):
        # at '('
        d = 0
        while True:
            x = self.next()
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0: return

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = IT(int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_paren()
        elif x == 'double': t = F64
        elif x == 'float': t = F32
        elif x == 'void': t = VOID
        elif x in ('fp128', 'x86_fp80'): t = T('fx')
        elif x == 'half': t = T('fx')
        elif x == 'label': t = LABEL
        elif x == 'metadata' or x == 'token': t = META
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = T('arr', n, e)
        elif x == '{':
            t = self._struct('}', False)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = self._struct('}', True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = T('vec', n, e)
        elif x[0] == '%':
            t = self.mod.named_type(x)
        else:
            raise IRError('type? %r in %r' % (x, ' '.join(self.t[:40])))
        return t

    def _struct(self, close, packed):
        fs = []
        if self.accept(close):
            return T('struct', fs=fs, packed=packed)
        while True:
            fs.append(self.type())
            if self.accept(close): break
            self.expect(',')
        return T('struct', fs=fs, packed=packed)

    PATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext',
              'inreg', 'returned', 'nofree', 'nest', 'swiftself', 'immarg', 'allocptr', 'allocalign', 'writable',
              'dead_on_unwind', 'dead_on_return', 'noext', 'nofpclass_'}
    PATTRS_P = {'captures', 'dereferenceable', 'dereferenceable_or_null', 'range', 'initializes', 'sret', 'byval',
                'nofpclass', 'align', 'byref', 'elementtype', 'preallocated', 'inalloca', 'memory', 'dead_on_return'}

    def attrs(self):
        got = {}
        while True:
            x = self.peek()
            if x is None: return got
            if x in self.PATTRS_P and self.peek(1) == '(':
                self.next()
                j = self.i
                if x in ('byval', 'sret'):
                    self.expect('(')
                    got[x] = self.type()
                    self.expect(')')
                else:
                    self.skip_paren()
                    got[x] = self.t[j + 1:self.i - 1]
            elif x == 'align':
                self.next(); got['align'] = int(self.next())
            elif x in self.PATTRS:
                got[x] = True
                self.next()
            elif x[0] == '#':
                self.next()
            elif x[0] == '"':
                self.next()
                if self.accept('='): self.next()
            else:
                return got

    # ---- constants / operands -------------------------------------------------
    def lit(self, v):
        if isinstance(v, float):
            if v != v: s = 'NAN'
            elif v == float('inf'): s = 'INF'
            elif v == float('-inf'): s = 'NINF'
            else: s = repr(v)
            if s[0] == '-': s = '(' + s + ')'
        else:
            s = repr(v)
            if 'nan' in s or 'inf' in s:
                s = s.replace('-inf', 'NINF').replace('inf', 'INF').replace('nan', 'NAN')
        e = Expr(s)
        e.const = v
        return e

    def operand(self, t):
        x = self.peek()
        if x[0] == '%':
            self.next()
            return Expr(self.fn.local(x))
        return self.lit(self.const(t))

    def const(self, t):
        x = self.next()
        k = t.k
        if x == 'zeroinitializer' or x in ('undef', 'poison'):
            return zero(t)
        if x == 'null': return 0
        if x == 'none': return 0
        if k == 'i':
            if x == 'true': return 1
            if x == 'false': return 0
            if x[0] == '-' or x[0].isdigit():
                return int(x) & ((1 << t.n) - 1)
        if k in ('f64', 'f32'):
            v = parse_float(x, k)
            if v is not None: return v
        if k == 'fx': return 0.0
        if x[0] == '@':
            return self.mod.addr_of(x)
        if x == 'splat':
            self.expect('('); et = self.type(); v = self.const(et); self.expect(')')
            return tuple([v] * t.n)
        if x[0] == 'c' and x[1:2] == '"':
            return tuple(cstr(x[2:-1]))
        if x == '[':
            vs = self._clist(']'); return tuple(vs)
        if x == '{':
            return tuple(self._clist('}'))
        if x == '<':
            if self.accept('{'):
                vs = self._clist('}'); self.expect('>'); return tuple(vs)
            return tuple(self._clist('>'))
        # constant expressions
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast', 'ptrtoaddr'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.expect('('); ft = self.type(); v = self.const(ft); self.expect('to'); tt = self.type(); self.expect(')')
            if x in ('trunc', 'ptrtoint', 'inttoptr') and tt.k == 'i':
                return v & ((1 << tt.n) - 1)
            if x == 'sext':
                s = 1 << (ft.n - 1)
                return ((v ^ s) - s) & ((1 << tt.n) - 1)
            if x == 'bitcast' and tt.k != ft.k:
                if ft.k == 'i' and tt.k == 'f64': return struct.unpack('<d', struct.pack('<Q', v))[0]
                raise IRError('const bitcast')
            return v
        if x in ('sub', 'add', 'xor', 'and', 'or', 'mul', 'shl', 'lshr'):
            while self.peek() in ('nuw', 'nsw', 'disjoint', 'exact'): self.next()
            self.expect('('); at = self.type(); a = self.const(at); self.expect(','); bt = self.type(); b = self.const(bt); self.expect(')')
            m = (1 << at.n) - 1
            return {'sub': a - b, 'add': a + b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'mul': a * b,
                    'shl': a << b, 'lshr': a >> b}[x] & m
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'nsw'): self.next()
            if self.peek() == 'inrange': self.next(); self.skip_paren()
            self.expect('(')
            if self.peek() == 'inrange':
                self.next(); self.skip_paren()
            bt = self.type(); self.expect(','); self.type(); a = self.const(PTR)
            first = True
            cur = bt
            while self.accept(','):
                if self.peek() == 'inrange': self.next()
                it = self.type(); idx = self.const(it)
                s = 1 << (it.n - 1)
                idx = (idx ^ s) - s
                if first:
                    a += idx * cur.size(); first = False
                elif cur.k == 'struct':
                    a += cur.layout()[0][idx]; cur = cur.fs[idx]
                else:
                    a += idx * cur.e.size(); cur = cur.e
            self.expect(')')
            return a & 0xFFFFFFFFFFFFFFFF
        if x == 'icmp':
            raise IRError('const icmp')
        if x == 'asm':
            return 0
        if x == 'blockaddress':
            raise IRError('blockaddress')
        raise IRError('const? %r : %r in %r' % (x, t, ' '.join(self.t[:40])))

    def _clist(self, close):
        vs = []
        if self.accept(close): return vs
        while True:
            t = self.type(); vs.append(self.const(t))
            if self.accept(close): return vs
            self.expect(',')

    def typed_operand(self):
        t = self.type()
        self.attrs()
        return t, self.operand(t)


def parse_float(x, k):
    if x[0] in '+-' and x[1:2] in 'iqs':
        if 'inf' in x: return float('-inf') if x[0] == '-' else float('inf')
        return float('nan')
    if x.startswith('f0x'):
        h = x[3:]
        if len(h) <= 8 and k == 'f32': return struct.unpack('>f', bytes.fromhex(h.zfill(8)))[0]
        return struct.unpack('>d', bytes.fromhex(h.zfill(16)))[0]
    if x.startswith('0x'):
        if x[2] in 'KLMHR': return 0.0
        return struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
    try:
        return float(x)
    except ValueError:
        return None


def cstr(s):
    if '\\' not in s:
        return s.encode('latin1')
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(c)); i += 1
    return bytes(out)


def zero(t):
    k = t.k
    if k in ('i', 'ptr'): return 0
    if k in ('f64', 'f32', 'fx'): return 0.0
    if k in ('arr', 'vec'):
        z = zero(t.e)
        return (z,) * t.n
    if k == 'struct': return tuple(zero(f) for f in t.fs)
    return 0


HDR_SKIP = {'private', 'internal', 'external', 'extern_weak', 'weak', 'weak_odr', 'linkonce', 'linkonce_odr', 'hidden', 'protected',
            'default', 'dso_local', 'dso_preemptable', 'unnamed_addr', 'local_unnamed_addr', 'available_externally',
            'fastcc', 'ccc', 'coldcc', 'tailcc', 'preserve_mostcc', 'preserve_allcc', 'cold', 'appending', 'common',
            'constant', 'global', 'thread_local', 'externally_initialized', 'dllexport', 'tail', 'notail', 'musttail',
            'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


class Func:
    __slots__ = ('name', 'mod', 'ret', 'params', 'pattrs', 'vararg', 'lines', 'hdr', 'py', 'addr', 'local', 'retattrs', 'pnames')


class Global:
    __slots__ = ('name', 'mod', 'type', 'init', 'align', 'local', 'addr', 'const', 'weak', 'size')


class Module:
    def __init__(self, name, text, linker):
        self.name = name
        self.linker = linker
        self.types = {}
        self.tdefs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self._parse(text)

    def named_type(self, x):
        t = self.types.get(x)
        if t is None:
            d = self.tdefs.get(x)
            if d is None: raise IRError('unknown type ' + x)
            t = T('struct', fs=[], packed=False)
            self.types[x] = t
            if d.strip() == 'opaque':
                return t
            tt = P(tokenize(d), self).type()
            t.k = tt.k; t.n = tt.n; t.e = tt.e; t.fs = tt.fs; t.packed = tt.packed
        return t

    def _parse(self, text):
        lines = re.sub(r' /\*.*?\*/', '', text).split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1; continue
            c = l[0]
            if c == 'd' and l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func()
                f.hdr = l; f.lines = lines[i + 1:j]; f.mod = self
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                f.name = m.group(1).strip('"')
                f.local = bool(re.match(r'define (private|internal) ', l))
                f.ret = None; f.py = None; f.addr = None
                self.funcs[f.name] = f
                i = j
            elif c == 'd' and l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                f = Func()
                f.hdr = l; f.lines = None; f.mod = self; f.name = m.group(1).strip('"'); f.ret = None; f.py = None; f.addr = None
                f.local = False
                self.decls[f.name] = f
            elif c == '@':
                self._global(l)
            elif c == '%':
                m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', l)
                self.tdefs[m.group(1)] = m.group(2)
            i += 1

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
        name = m.group(1).strip('"'); rest = m.group(2)
        ma = re.match(r'((?:[a-z_]+ )*)alias ', rest)
        g = Global()
        g.name = name; g.mod = self; g.addr = None; g.size = None
        if ma:
            toks = tokenize(re.sub(r', !.*$', '', rest[ma.end():]))
            p = P(toks, self)
            p.type(); p.expect(','); p.type()
            self.aliases[name] = p.next()[1:].strip('"')
            return
        words = rest
        g.local = bool(re.match(r'(private|internal) ', rest))
        g.const = ' constant ' in ' ' + rest[:120]
        g.weak = 'extern_weak' in rest[:40]
        mm = re.match(r'((?:[a-z_]+(?:\([^)]*\))? )*?)(global|constant) ', rest)
        if not mm:
            raise IRError('global: ' + l[:120])
        g.init = rest[mm.end():]
        g.type = None
        if re.search(r'\bexternal\b|\bextern_weak\b', mm.group(1)):
            g.type = 'ext'
        ma = re.search(r', align (\d+)(?:,|$)', rest)
        g.align = int(ma.group(1)) if ma else 8
        self.globals[name] = g

    def gtype(self, g):
        toks = self.gtoks(g)
        p = P(toks, self)
        t = p.type()
        return t, p

    def gtoks(self, g):
        s = g.init
        s = re.sub(r'(, (section "[^"]*"|comdat(\([^)]*\))?|align \d+|partition "[^"]*"|no_sanitize\w*|![\w.]+ ![\w.]+|code_model "[^"]*"))+$', '', s)
        return tokenize(s)

    def addr_of(self, x):
        name = x[1:]
        if name[0] == '"': name = name[1:-1]
        return self.linker.addr(self, name)

    # header parsing
    def sig(self, f):
        if f.ret is not None: return f
        h = f.hdr
        p = P(tokenize(h[h.index(' '):] if f.lines is None else h[6:]), self)
        while p.peek() in HDR_SKIP: p.next()
        while True:
            p.attrs()
            if p.peek() in HDR_SKIP: p.next()
            elif p.peek() == 'cc': p.next(); p.next()
            else: break
        f.retattrs = {}
        f.ret = p.type()
        nm = p.next()
        assert nm[0] == '@', (nm, h[:200])
        p.expect('(')
        f.params = []; f.pattrs = []; f.pnames = []; f.vararg = False
        cnt = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                else:
                    t = p.type(); a = p.attrs()
                    f.params.append(t); f.pattrs.append(a)
                    if p.peek() and p.peek()[0] == '%':
                        f.pnames.append(p.next())
                    else:
                        f.pnames.append('%%%d' % cnt)
                    if f.pnames[-1][1:].isdigit(): cnt += 1
                if p.accept(')'): break
                p.expect(',')
        return f
