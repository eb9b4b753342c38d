"""LLVM function -> Python function (symbolic-capable), compiled lazily."""
import re, sys
from .ir import *

M64MASK = (1 << 64) - 1
RE_META = re.compile(r'(?:, !(?:[a-zA-Z_.]+) (?:![\w.]*|!?DIExpression\(\)|!\{\}))+$')
SIDE = object()


class Inst:
    __slots__ = ('op', 'res', 'toks', 'line')


def strip_meta(l):
    if ', !' in l:
        l = RE_META.sub('', l)
    return l


class FnGen:
    def __init__(self, mod, f, rt):
        self.mod = mod; self.f = f; self.rt = rt
        self.names = {}
        self.used = set()
        self.nsub = 0

    def local(self, x):
        n = self.names.get(x)
        if n is None:
            if x[1:].isdigit(): n = 'v' + x[1:]
            else:
                n = 'n' + re.sub(r'\W', '_', x[1:].strip('"'))
                while n in self.used: n += '_'
            self.used.add(n)
            self.names[x] = n
        return n

    # ------------------------------------------------------------- parse blocks
    def parse(self):
        f = self.f
        self.mod.sig(f)
        blocks = {}
        order = []
        cur = None
        # entry label: explicit or next number
        cnt = sum(1 for p in f.pnames if p[1:].isdigit())
        lines = f.lines
        i = 0
        n = len(lines)
        buf = None
        while i < n:
            l = lines[i]; i += 1
            if not l.strip(): continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[\w.$-]+):', l)
                if m:
                    name = m.group(1)
                    if cur is None or True:
                        cur = '%' + name
                        blocks[cur] = []; order.append(cur)
                    continue
                if l[0] in ';': continue
            if cur is None:
                cur = '%' + str(cnt)
                blocks[cur] = []; order.append(cur)
            l = l.strip()
            if l.startswith('#dbg') or l.startswith(';'): continue
            if '; ' in l and '"' not in l: l = l[:l.index('; ')].rstrip()
            # multi-line: switch and invoke/landingpad
            if re.match(r'switch |.* = landingpad |.*\binvoke ', l) or l.startswith('invoke'):
                if l.startswith('switch'):
                    while not lines[i - 1].strip().startswith(']') and ']' not in l:
                        l += ' ' + lines[i].strip(); i += 1
                        if lines[i - 1].strip().startswith(']'): break
                elif 'landingpad' in l:
                    while i < n and re.match(r'\s+(cleanup|catch|filter)', lines[i]): i += 1
                else:
                    l = strip_meta(l)
                    while 'unwind label' not in l:
                        l += ' ' + lines[i].strip(); i += 1
            blocks[cur].append(strip_meta(l))
        return blocks, order

    def term_succs(self, l):
        if l.startswith('br '):
            return re.findall(r'label (%(?:"[^"]*"|[\w.$-]+))', l)
        if l.startswith('switch'):
            return re.findall(r'label (%(?:"[^"]*"|[\w.$-]+))', l)
        if 'unwind label' in l and 'invoke ' in l:
            return [re.search(r'to label (%(?:"[^"]*"|[\w.$-]+))', l).group(1)]
        return []

    def gen(self, pyname):
        f = self.f
        blocks, order = self.parse()
        self.blocks = blocks
        entry = order[0]
        succ = {}
        for b in order:
            succ[b] = self.term_succs(blocks[b][-1])
        # reachable
        seen = {entry}; todo = [entry]
        while todo:
            for s in succ[todo.pop()]:
                if s not in seen: seen.add(s); todo.append(s)
        preds = {b: [] for b in seen}
        for b in order:
            if b in seen:
                for s in succ[b]: preds[s].append(b)
        # phis
        self.phis = {}
        ninst = 0
        self.insts = {}
        for b in order:
            if b not in seen: continue
            ph = []; ins = []
            for l in blocks[b]:
                ninst += 1
                m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = phi ', l)
                if m:
                    l2 = re.sub(r'^(?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )+', '', l[m.end():])
                    p = P(tokenize(l2), self.mod, self)
                    t = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = p.operand(t)
                        if t.k == 'i' and t.n == 1 and v.const is not None:
                            e = Expr('True' if v.const else 'False'); e.const = bool(v.const); v = e
                        p.expect(',')
                        inc[p.next()] = v
                        p.expect(']')
                        if not p.accept(','): break
                    ph.append((self.local(m.group(1)), inc))
                else:
                    ins.append(l)
            self.phis[b] = ph; self.insts[b] = ins
        self.ninst = ninst
        # allocas in entry
        self.frame = []
        fsize = 0
        pat = bytearray()
        self.static = {}
        ent = []
        for l in self.insts[entry]:
            m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = alloca (.*)$', l)
            if m:
                p = P(tokenize(m.group(2)), self.mod, self)
                if p.peek() == 'inalloca': p.next()
                t = p.type()
                cnt = 1; al = t.align(); dyn = False
                while p.accept(','):
                    if p.accept('align'): al = int(p.next())
                    else:
                        it = p.type(); c = p.operand(it)
                        if c.const is None: dyn = True
                        else: cnt = c.const
                if not dyn:
                    sz = t.size() * cnt
                    al = max(al, 8)
                    # red zone before
                    off = len(pat) * 8 + 16
                    off = (off + al - 1) // al * al
                    pat += bytes([0xF5]) * ((off - len(pat) * 8) // 8)
                    q, r = divmod(sz, 8)
                    pat += b'\x01' * q
                    if r: pat.append(0x10 + r)
                    self.static[m.group(1)] = off
                    continue
            ent.append(l)
        self.insts[entry] = ent
        self.dyn = False
        if pat:
            pat += bytes([0xF5]) * 2
            while len(pat) % 8: pat.append(0xF5)
        self.hasframe = bool(pat)
        for b in seen:
            for l in self.insts[b]:
                if ' = alloca ' in l: self.dyn = True; self.hasframe = True
        # which blocks are dispatched
        self.disp = {}
        for b in order:
            if b in seen and (len(preds[b]) > 1 or (len(preds[b]) == 1 and preds[b][0] == b)):
                if not self.trivial_target(b):
                    self.disp[b] = None
        # entry with preds
        if preds[entry] and entry not in self.disp: self.disp[entry] = None
        # inline depth: break chains that nest too deep
        self.selfloop = set()
        while True:
            try:
                src = self.emit_all(pyname, entry, order, pat)
                break
            except TooDeep as e:
                self.disp[e.args[0]] = None
        return src

    def trivial_target(self, b):
        """blocks only consisting of unreachable / ret: duplicate instead of dispatching"""
        ins = self.insts[b]
        return not self.phis[b] and len(ins) == 1 and (ins[0].startswith('unreachable') or ins[0].startswith('ret '))

    def emit_all(self, pyname, entry, order, pat):
        f = self.f
        self.out = []
        self.nsub = 0
        k = 0
        for b in order:
            if b in self.disp: self.disp[b] = k; k += 1
        args = [self.local(p) for p in f.pnames]
        if f.vararg: args.append('*va')
        self.w(0, 'def %s(%s):' % (pyname, ', '.join(args)))
        byv = any('byval' in a for a in f.pattrs)
        if byv:
            self.w(1, '_f0 = C.sp')
        self.popname = '_f0' if byv else '_f'
        if byv: self.hasframe = True
        for p, a, t in zip(f.pnames, f.pattrs, f.params):
            if 'byval' in a:
                n = self.local(p)
                bt = a['byval']
                # copied by the caller's side: make a private copy here
                self.w(1, '%s = byval(%s, %d)' % (n, n, bt.size()))
        if self.hasframe:
            if pat:
                pn = self.rt.const_bytes(bytes(pat))
                self.w(1, '_f = push(%d, %s)' % (len(pat) * 8, pn))
            else:
                self.w(1, '_f = C.sp')
            for x, off in self.static.items():
                self.w(1, '%s = _f + %d' % (self.local(x), off))
        if not self.disp:
            self.block(1, entry, None, None)
            return '\n'.join(self.out)
        # entry prologue
        if entry in self.disp:
            self.w(1, '_b = %d' % self.disp[entry])
        else:
            # entry code inside loop as initial block
            self.w(1, '_b = -1')
        names = sorted(self.disp, key=lambda b: self.disp[b])
        self.w(1, 'while True:')
        lo = 0
        lst = ([('entry', entry)] if entry not in self.disp else []) + [('d', b) for b in names]
        # run the entry block before the loop when it only has straight code: emit as first case
        base = -1 if entry not in self.disp else 0
        self.tree(2, lst, base)
        return '\n'.join(self.out)

    def tree(self, ind, lst, base):
        if ind > 80: raise IRError('dispatch too deep')
        if len(lst) == 1:
            kind, b = lst[0]
            if kind == 'd':
                # self loop?
                save = len(self.out)
                self.jumps_self = False
                self.block(ind, b, b, None)
                if self.jumps_self:
                    del self.out[save:]
                    self.w(ind, 'while True:')
                    self.block(ind + 1, b, b, True)
            else:
                self.block(ind, b, None, None)
            return
        m = len(lst) // 2
        self.w(ind, 'if _b < %d:' % (base + m))
        self.tree(ind + 1, lst[:m], base)
        self.w(ind, 'else:')
        self.tree(ind + 1, lst[m:], base + m)

    def w(self, ind, s):
        self.out.append(' ' * ind + s)

    # ------------------------------------------------------------- jumps
    def jump(self, ind, frm, to, head, inloop):
        ph = self.phis[to]
        if ph:
            ls = []; rs = []
            for n, inc in ph:
                v = inc[frm]
                if v == n: continue
                ls.append(n); rs.append(v)
            if len(ls) == 1: self.w(ind, '%s = %s' % (ls[0], rs[0]))
            elif ls:
                # avoid the tuple when no right side uses a left side
                ss = set(ls)
                if any(r in ss for r in rs):
                    self.w(ind, '%s = %s' % (', '.join(ls), ', '.join(rs)))
                else:
                    self.w(ind, '; '.join('%s = %s' % z for z in zip(ls, rs)))
        d = self.disp.get(to)
        if to in self.disp:
            if to == head:
                self.jumps_self = True
                if inloop:
                    self.w(ind, 'continue')
                else:
                    self.w(ind, '_b = %d' % d); self.w(ind, 'continue')
            else:
                self.w(ind, '_b = %d' % d)
                self.w(ind, 'break' if inloop else 'continue')
            return
        if ind > 70:
            raise TooDeep(to)
        self.block(ind, to, head, inloop)

    def block(self, ind, b, head, inloop):
        for l in self.insts[b][:-1]:
            self.inst(ind, l)
        self.term(ind, self.insts[b][-1], b, head, inloop)

    def term(self, ind, l, b, head, inloop):
        if l.startswith('br label'):
            return self.jump(ind, b, re.search(r'label (%(?:"[^"]*"|[\w.$-]+))', l).group(1), head, inloop)
        if l.startswith('br '):
            p = P(tokenize(l[3:]), self.mod, self)
            t = p.type(); c = p.operand(t)
            p.expect(','); p.expect('label'); x = p.next(); p.expect(','); p.expect('label'); y = p.next()
            if c.const is not None:
                return self.jump(ind, b, x if c.const else y, head, inloop)
            if x == y: return self.jump(ind, b, x, head, inloop)
            self.w(ind, 'if %s:' % c)
            self.jump(ind + 1, b, x, head, inloop)
            # the true branch always ends with a jump: no else needed
            self.jump(ind, b, y, head, inloop) if self.ends() else (self.w(ind, 'else:'), self.jump(ind + 1, b, y, head, inloop))
            return
        if l.startswith('ret '):
            p = P(tokenize(l[4:]), self.mod, self)
            t = p.type()
            pop = self.hasframe
            if t.k == 'void':
                if pop: self.w(ind, 'pop(%s)' % self.popname)
                self.w(ind, 'return')
            else:
                v = p.operand(t)
                if t.k == 'i' and t.n == 1 and v.const is not None: v = 'True' if v.const else 'False'
                if pop: self.w(ind, 'pop(%s)' % self.popname)
                self.w(ind, 'return %s' % v)
            return
        if l.startswith('unreachable'):
            self.w(ind, 'return unreach(%r)' % self.f.name); return
        if l.startswith('switch'):
            p = P(tokenize(l[6:]), self.mod, self)
            t = p.type(); c = p.operand(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); v = p.const(ct); p.expect(','); p.expect('label'); cases.append((v, p.next()))
            # group by target
            tg = {}
            for v, x in cases: tg.setdefault(x, []).append(v)
            if self.phis:
                pass
            first = True
            if len(tg) > 6 and len(cases) > 6:
                # nested dispatch through a table for concrete scrutinee
                idx = {x: k for k, x in enumerate(tg)}
                tn = self.rt.const_obj({v: idx[x] for v, x in cases})
                self.nsub += 1
                s = '_s%d' % self.nsub
                self.w(ind, '%s = swt(%s, %s)' % (s, c, tn))
                items = [(k, x) for x, k in idx.items()]
                self.swtree(ind, s, items, b, head, inloop, d)
                return
            for x, vs in tg.items():
                if t.n == 1:
                    cond = c if vs[0] else '(%s) ^ True' % c
                elif len(vs) == 1: cond = '%s == %d' % (c, vs[0])
                else:
                    cond = ' | '.join('(%s == %d)' % (c, v) for v in vs)
                self.w(ind, 'if %s:' % cond)
                self.jump(ind + 1, b, x, head, inloop)
            self.jump(ind, b, d, head, inloop)
            return
        if 'invoke ' in l:
            m = re.match(r'^(.*?)\s+to label (%(?:"[^"]*"|[\w.$-]+)) unwind label', l)
            self.inst(ind, m.group(1).replace('invoke ', 'call ', 1))
            return self.jump(ind, b, m.group(2), head, inloop)
        if l.startswith('resume'):
            self.w(ind, 'return unreach("resume")'); return
        raise IRError('terminator: ' + l[:100])

    def ends(self):
        return True

    def swtree(self, ind, s, items, b, head, inloop, d):
        # default is -1
        self.w(ind, 'if %s < 0:' % s)
        self.jump(ind + 1, b, d, head, inloop)
        self.swt2(ind, s, items, b, head, inloop)

    def swt2(self, ind, s, items, b, head, inloop):
        if len(items) == 1:
            self.jump(ind, b, items[0][1], head, inloop); return
        m = len(items) // 2
        self.w(ind, 'if %s < %d:' % (s, items[m][0]))
        self.swt2(ind + 1, s, items[:m], b, head, inloop)
        self.swt2(ind, s, items[m:], b, head, inloop)

    # ------------------------------------------------------------- instructions
    FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
             'afn', 'reassoc', 'fast', 'volatile', 'atomic', 'tail', 'musttail', 'notail', 'weak'}

    def flags(self, p):
        while p.peek() in self.FLAGS: p.next()

    def inst(self, ind, l):
        m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = ', l)
        res = None
        if m:
            res = self.local(m.group(1)); body = l[m.end():]
        else:
            body = l
        op, _, rest = body.partition(' ')
        if op in ('tail', 'musttail', 'notail'):
            op, _, rest = rest.partition(' ')
        if op == 'call':
            return self.call(ind, res, rest)
        if op == 'alloca':
            p = P(tokenize(rest), self.mod, self)
            if p.peek() == 'inalloca': p.next()
            t = p.type(); cnt = '1'
            while p.accept(','):
                if p.accept('align'): p.next()
                else:
                    it = p.type(); cnt = p.operand(it)
            self.w(ind, '%s = dyn_alloca(%d * %s)' % (res, t.size(), cnt)); return
        if op == 'landingpad':
            self.w(ind, '%s = (0, 0)' % res); return
        if op == 'fence': return
        p = P(tokenize(rest), self.mod, self)
        self.flags(p)
        e = getattr(self, 'i_' + op, None)
        if e is None: raise IRError('instruction: ' + l[:120])
        r = e(p, ind)
        if r is None: return
        if res is None: raise IRError('no result: ' + l[:100])
        self.w(ind, '%s = %s' % (res, r))

    def binary(self, p):
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
        return t, a, b

    def vec(self, t, fn, a, b=None):
        """elementwise"""
        et = t.e
        if b is None:
            return 'tuple([%s for x in %s])' % (fn(et, Expr('x'), None), a)
        return 'tuple([%s for x, y in zip(%s, %s)])' % (fn(et, Expr('x'), Expr('y')), a, b)

    def bop(self, p, fn):
        t, a, b = self.binary(p)
        if t.k == 'vec': return self.vec(t, fn, a, b)
        return fn(t, a, b)

    def i_add(self, p, ind):
        def fn(t, a, b):
            if t.n == 1: return '%s ^ %s' % (bl(a), bl(b))
            m = (1 << t.n) - 1
            c = b.const
            if c is not None and c >= 1 << (t.n - 1): return '(%s - %d) & %d' % (a, (1 << t.n) - c, m)
            return '(%s + %s) & %d' % (a, b, m)
        return self.bop(p, fn)

    def i_sub(self, p, ind):
        def fn(t, a, b):
            if t.n == 1: return '%s ^ %s' % (bl(a), bl(b))
            return '(%s - %s) & %d' % (a, b, (1 << t.n) - 1)
        return self.bop(p, fn)

    def i_mul(self, p, ind):
        def fn(t, a, b):
            if t.n == 1: return '%s & %s' % (bl(a), bl(b))
            m = (1 << t.n) - 1
            if b.const == m: return '(-%s) & %d' % (a, m)
            return '(%s * %s) & %d' % (a, b, m)
        return self.bop(p, fn)

    def i_udiv(self, p, ind): return self.bop(p, lambda t, a, b: 'udiv(%s, %s)' % (a, b) if b.const in (None, 0) else '%s // %s' % (a, b))
    def i_urem(self, p, ind): return self.bop(p, lambda t, a, b: 'urem(%s, %s)' % (a, b) if b.const in (None, 0) else '%s %% %s' % (a, b))
    def i_sdiv(self, p, ind): return self.bop(p, lambda t, a, b: 'sdiv(%s, %s, %d)' % (a, b, t.n))
    def i_srem(self, p, ind): return self.bop(p, lambda t, a, b: 'srem(%s, %s, %d)' % (a, b, t.n))

    def i_shl(self, p, ind): return self.bop(p, lambda t, a, b: '(%s << (%s & %d)) & %d' % (a, b, sh_mask(t.n), (1 << t.n) - 1) if b.const is None else '(%s << %s) & %d' % (a, b, (1 << t.n) - 1))
    def i_lshr(self, p, ind): return self.bop(p, lambda t, a, b: '%s >> (%s & %d)' % (a, b, sh_mask(t.n)) if b.const is None else '%s >> %s' % (a, b))
    def i_ashr(self, p, ind): return self.bop(p, lambda t, a, b: 'ashr(%s, %s, %d)' % (a, b, t.n))

    def i_and(self, p, ind): return self.bop(p, lambda t, a, b: '%s & %s' % (bl(a, t), bl(b, t)))
    def i_or(self, p, ind): return self.bop(p, lambda t, a, b: '%s | %s' % (bl(a, t), bl(b, t)))
    def i_xor(self, p, ind): return self.bop(p, lambda t, a, b: '%s ^ %s' % (bl(a, t), bl(b, t)))

    def i_fadd(self, p, ind): return self.bop(p, lambda t, a, b: '%s + %s' % (a, b))
    def i_fsub(self, p, ind): return self.bop(p, lambda t, a, b: '%s - %s' % (a, b))
    def i_fmul(self, p, ind): return self.bop(p, lambda t, a, b: '%s * %s' % (a, b))
    def i_fdiv(self, p, ind): return self.bop(p, lambda t, a, b: 'fdiv(%s, %s)' % (a, b))
    def i_frem(self, p, ind): return self.bop(p, lambda t, a, b: 'frem(%s, %s)' % (a, b))

    def i_fneg(self, p, ind):
        t = p.type(); a = p.operand(t)
        if t.k == 'vec': return self.vec(t, lambda t, a, b: '-%s' % a, a)
        return '-%s' % a

    def i_icmp(self, p, ind):
        pred = p.next()
        self.flags(p)
        if pred == 'samesign': pred = p.next()
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)

        def fn(t, a, b):
            if pred == 'eq': return '%s == %s' % (a, b)
            if pred == 'ne': return '%s != %s' % (a, b)
            if pred[0] == 'u':
                return '%s %s %s' % (a, {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred], b)
            n = t.n if t.k == 'i' else 64
            s = 1 << (n - 1)
            o = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred]
            if b.const is not None:
                c = b.const
                if pred == 'slt' and c == 0: return '%s >= %d' % (a, s)
                if pred == 'sgt' and c == 2 * s - 1: return '%s < %d' % (a, s)
                return '(%s ^ %d) %s %d' % (a, s, o, c ^ s)
            if a.const is not None:
                return '%d %s (%s ^ %d)' % (a.const ^ s, o, b, s)
            return '(%s ^ %d) %s (%s ^ %d)' % (a, s, o, b, s)
        if t.k == 'vec': return self.vec(t, fn, a, b)
        return fn(t, a, b)

    def i_fcmp(self, p, ind):
        self.flags(p)
        pred = p.next()
        t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)

        def fn(t, a, b):
            sym = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '=='}
            inv = {'lt': '>=', 'le': '>', 'gt': '<=', 'ge': '<'}
            if pred == 'true': return 'True'
            if pred == 'false': return 'False'
            if pred == 'ord':
                if b.const is not None and b.const == b.const: return '%s == %s' % (a, a)
                return '(%s == %s) & (%s == %s)' % (a, a, b, b)
            if pred == 'uno':
                if b.const is not None and b.const == b.const: return '%s != %s' % (a, a)
                return '(%s != %s) | (%s != %s)' % (a, a, b, b)
            o, k = pred[0], pred[1:]
            if k == 'ne':
                if o == 'u': return '%s != %s' % (a, b)
                return '(%s < %s) | (%s > %s)' % (a, b, a, b)
            if o == 'o': return '%s %s %s' % (a, sym[k], b)
            if k == 'eq': return '((%s < %s) | (%s > %s)) ^ True' % (a, b, a, b)
            return '(%s %s %s) ^ True' % (a, inv[k], b)
        if t.k == 'vec': return self.vec(t, fn, a, b)
        return fn(t, a, b)

    def i_select(self, p, ind):
        self.flags(p)
        ct = p.type(); c = p.operand(ct); p.expect(',')
        t = p.type(); a = p.operand(t); p.expect(','); t2 = p.type(); b = p.operand(t2)
        if c.const is not None and ct.k != 'vec': return a if c.const else b
        if ct.k == 'vec':
            return 'tuple([ite(z, x, y) if z.__class__ is not bool else (x if z else y) for z, x, y in zip(%s, %s, %s)])' % (c, a, b)
        if t.k == 'i' and t.n == 1:
            if a.const is not None: a = Expr('True' if a.const else 'False'); a.const = a == 'True'
            if b.const is not None: b = Expr('True' if b.const else 'False'); b.const = b == 'True'
            return '(%s if %s else %s) if %s.__class__ is bool else bite(%s, %s, %s)' % (a, c, b, c, c, a, b)
        if t.k == 'ptr' or t.k == 'struct':
            return '%s if %s else %s' % (a, c, b)
        return '(%s if %s else %s) if %s.__class__ is bool else ite(%s, %s, %s)' % (a, c, b, c, c, a, b)

    def i_freeze(self, p, ind):
        t = p.type(); return p.operand(t)

    def i_zext(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        if t.k == 'vec':
            return 'tuple([+x for x in %s])' % a
        return '+%s' % a if t.n == 1 else a

    def i_sext(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()

        def fn(t, a, n2):
            if t.n == 1: return '(-(+%s)) & %d' % (a, (1 << n2) - 1)
            return 'sext(%s, %d, %d)' % (a, t.n, n2)
        if t.k == 'vec': return 'tuple([%s for x in %s])' % (fn(t.e, 'x', t2.e.n), a)
        return fn(t, a, t2.n)

    def i_trunc(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        if t2.k == 'vec':
            if t2.e.n == 1: return 'tuple([tob(x) for x in %s])' % a
            return 'tuple([x & %d for x in %s])' % ((1 << t2.e.n) - 1, a)
        if t2.n == 1: return 'tob(%s)' % a
        return '%s & %d' % (a, (1 << t2.n) - 1)

    def i_ptrtoint(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return a if t2.n >= 64 else '%s & %d' % (a, (1 << t2.n) - 1)
    i_ptrtoaddr = i_ptrtoint

    def i_inttoptr(self, p, ind):
        t = p.type(); a = p.operand(t); return a

    def i_addrspacecast(self, p, ind):
        t = p.type(); return p.operand(t)

    def i_bitcast(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return self.bitcast(t, a, t2)

    def bitcast(self, t, a, t2):
        if t.key() == t2.key() or (t.k in ('i', 'ptr') and t2.k in ('i', 'ptr')): return a
        if t.k == 'f64' and t2.k == 'i': return 'fbits(%s)' % a
        if t.k == 'i' and t2.k == 'f64': return 'bitsf(%s)' % a
        if t.k == 'f32' and t2.k == 'i': return 'fbits32(%s)' % a
        if t.k == 'i' and t2.k == 'f32': return 'bitsf32(%s)' % a
        if t.k == 'vec' and t2.k == 'i':
            return 'vpack(%s, %d, %r)' % (a, ebits(t.e), t.e.k)
        if t.k == 'i' and t2.k == 'vec':
            return 'vunpack(%s, %d, %d, %r)' % (a, ebits(t2.e), t2.n, t2.e.k)
        if t.k == 'vec' and t2.k == 'vec':
            return 'vunpack(vpack(%s, %d, %r), %d, %d, %r)' % (a, ebits(t.e), t.e.k, ebits(t2.e), t2.n, t2.e.k)
        if t.k == 'f64' and t2.k == 'vec':
            return 'vunpack(fbits(%s), %d, %d, %r)' % (a, ebits(t2.e), t2.n, t2.e.k)
        if t.k == 'vec' and t2.k == 'f64':
            return 'bitsf(vpack(%s, %d, %r))' % (a, ebits(t.e), t.e.k)
        raise IRError('bitcast %r %r' % (t, t2))

    def i_sitofp(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        if t.k == 'vec': return 'tuple([sitofp(x, %d) for x in %s])' % (t.e.n, a)
        return 'sitofp(%s, %d)' % (a, t.n)

    def i_uitofp(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        if t.k == 'vec': return 'tuple([uitofp(x) for x in %s])' % a
        return 'uitofp(%s)' % a

    def i_fptosi(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        if t.k == 'vec': return 'tuple([fptosi(x, %d) for x in %s])' % (t2.e.n, a)
        return 'fptosi(%s, %d)' % (a, t2.n)

    def i_fptoui(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return 'fptoui(%s, %d)' % (a, t2.n)

    def i_fptrunc(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return 'fptrunc(%s)' % a

    def i_fpext(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
        return a

    def i_extractvalue(self, p, ind):
        t = p.type(); a = p.operand(t)
        s = a
        while p.accept(','): s = '%s[%s]' % (s, p.next())
        return s

    def i_insertvalue(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect(','); t2 = p.type(); v = p.operand(t2)
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        n = len(t.fs) if t.k == 'struct' else t.n
        if len(idx) == 1:
            i = idx[0]
            if a.const is not None:
                parts = [str(self_lit(x)) for x in a.const]
                parts[i] = v
                return '(%s,)' % ', '.join(parts)
            if n <= 4:
                return '(%s,)' % ', '.join(v if j == i else '%s[%d]' % (a, j) for j in range(n))
        return 'insv(%s, %r, %s)' % (a, tuple(idx), v)

    def i_extractelement(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect(','); it = p.type(); i = p.operand(it)
        return '%s[%s]' % (a, i)

    def i_insertelement(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect(','); et = p.type(); v = p.operand(et); p.expect(','); it = p.type(); i = p.operand(it)
        return 'insel(%s, %s, %s)' % (a, i, v)

    def i_shufflevector(self, p, ind):
        t = p.type(); a = p.operand(t); p.expect(','); t2 = p.type(); b = p.operand(t2); p.expect(','); mt = p.type()
        m = p.const(mt)
        return 'shuf(%s, %s, %r)' % (a, b, m)

    # GEP
    def i_getelementptr(self, p, ind):
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'nsw'): p.next()
        if p.peek() == 'inrange': p.next(); p.skip_paren()
        bt = p.type(); p.expect(','); pt = p.type(); a = p.operand(pt)
        off = 0; terms = []
        cur = bt; first = True
        while p.accept(','):
            it = p.type(); x = p.operand(it)
            if not first and cur.k == 'struct':
                off += cur.layout()[0][x.const]; cur = cur.fs[x.const]; continue
            if first: sz = cur.size(); first = False
            else: cur = cur.e; sz = cur.size()
            if x.const is not None:
                c = x.const; s = 1 << (it.n - 1)
                off += ((c ^ s) - s) * sz
            elif sz:
                xs = str(x)
                if it.n < 64: xs = 'sext(%s, %d, 64)' % (x, it.n)
                terms.append(xs if sz == 1 else '%s * %d' % (xs, sz))
        if pt.k == 'vec': raise IRError('vector gep')
        if not terms:
            if off == 0: return a
            if off > 0: return '%s + %d' % (a, off)
            return '(%s - %d) & %d' % (a, -off, M64MASK)
        s = '%s + %s' % (a, ' + '.join(terms))
        if off > 0: s += ' + %d' % off
        elif off < 0: s += ' - %d' % -off
        return '(%s) & %d' % (s, M64MASK)

    # memory
    def load_expr(self, t, a):
        k = t.k
        if k == 'ptr': return 'ld8(%s)' % a
        if k == 'i':
            n = t.n
            if n == 8: return 'ld1(%s)' % a
            if n == 16: return 'ld2(%s)' % a
            if n == 32: return 'ld4(%s)' % a
            if n == 64: return 'ld8(%s)' % a
            if n == 1: return 'tob(ld1(%s))' % a
            if n % 8 == 0: return 'ldn(%s, %d)' % (a, n // 8)
            return 'ldn(%s, %d) & %d' % (a, (n + 7) // 8, (1 << n) - 1)
        if k == 'f64': return 'ldf(%s)' % a
        if k == 'f32': return 'ldf32(%s)' % a
        if k == 'vec' and t.e.k == 'i' and t.e.n == 1:
            return 'vunpack(ldn(%s, %d), 1, %d, "i")' % (a, (t.n + 7) // 8, t.n)
        if k == 'vec':
            es = t.e.size()
            return '(%s,)' % ', '.join(self.load_expr(t.e, '%s + %d' % (a, i * es)) for i in range(t.n))
        if k == 'arr':
            es = t.e.size()
            return '(%s)' % ''.join(self.load_expr(t.e, '%s + %d' % (a, i * es)) + ',' for i in range(t.n))
        if k == 'struct':
            return '(%s)' % ''.join(self.load_expr(f, '%s + %d' % (a, o)) + ',' for f, o in zip(t.fs, t.layout()[0]))
        raise IRError('load ' + k)

    def i_load(self, p, ind):
        t = p.type(); p.expect(','); pt = p.type(); a = p.operand(pt)
        return self.load_expr(t, a)

    def store_stmts(self, ind, t, v, a):
        k = t.k
        if k == 'ptr': self.w(ind, 'st8(%s, %s)' % (a, v)); return
        if k == 'i':
            n = t.n
            fn = {8: 'st1', 16: 'st2', 32: 'st4', 64: 'st8'}.get(n)
            if fn: self.w(ind, '%s(%s, %s)' % (fn, a, v))
            elif n == 1: self.w(ind, 'st1(%s, +%s)' % (a, v))
            else: self.w(ind, 'stn(%s, %s, %d)' % (a, v, (n + 7) // 8))
            return
        if k == 'f64': self.w(ind, 'stf(%s, %s)' % (a, v)); return
        if k == 'f32': self.w(ind, 'stf32(%s, %s)' % (a, v)); return
        if k == 'vec' and t.e.k == 'i' and t.e.n == 1:
            self.w(ind, 'stn(%s, vpack(%s, 1, "i"), %d)' % (a, v, (t.n + 7) // 8)); return
        if k in ('vec', 'arr'):
            es = t.e.size()
            for i in range(t.n):
                self.store_stmts(ind, t.e, '%s[%d]' % (v, i), '%s + %d' % (a, i * es))
            return
        if k == 'struct':
            for i, (f, o) in enumerate(zip(t.fs, t.layout()[0])):
                self.store_stmts(ind, f, '%s[%d]' % (v, i), '%s + %d' % (a, o))
            return
        raise IRError('store ' + k)

    def i_store(self, p, ind):
        t = p.type(); v = p.operand(t); p.expect(','); pt = p.type(); a = p.operand(pt)
        self.store_stmts(ind, t, v, a)
        return None

    def i_cmpxchg(self, p, ind):
        self.flags(p)
        pt = p.type(); a = p.operand(pt); p.expect(','); t = p.type(); c = p.operand(t); p.expect(','); t2 = p.type(); v = p.operand(t2)
        return 'cmpxchg(%s, %s, %s, %d)' % (a, c, v, t.store_size())

    def i_atomicrmw(self, p, ind):
        self.flags(p)
        op = p.next()
        pt = p.type(); a = p.operand(pt); p.expect(','); t = p.type(); v = p.operand(t)
        return 'atomicrmw(%r, %s, %s, %d)' % (op, a, v, t.store_size())

    def i_va_arg(self, p, ind):
        pt = p.type(); a = p.operand(pt); p.expect(','); t = p.type()
        return 'va_arg(%s, %r)' % (a, t.k)

    # ------------------------------------------------------------- calls
    def call(self, ind, res, rest):
        if rest.startswith('void @llvm.'):
            if re.match(r'void @llvm\.(lifetime|assume|experimental|dbg|invariant|donothing|prefetch)', rest): return
        if ' asm ' in rest:
            if res: self.w(ind, '%s = 0' % res)
            return
        p = P(tokenize(re.sub(r'metadata ![\w.]+', 'i1 0', rest)), self.mod, self)
        self.flags(p)
        while True:
            p.attrs()
            if p.peek() in HDR_SKIP: p.next()
            elif p.peek() == 'cc': p.next(); p.next()
            else: break
        rt = p.type()
        ftype = None
        if p.peek() == '(':
            # explicit function type
            j = p.i
            p.expect('(')
            ftype = []
            va = False
            if not p.accept(')'):
                while True:
                    if p.accept('...'): va = True
                    else: ftype.append(p.type())
                    if p.accept(')'): break
                    p.expect(',')
        x = p.next()
        callee = None; target = None
        if x[0] == '@':
            callee = x[1:].strip('"')
        elif x[0] == '%':
            target = self.local(x)
        else:
            p.i -= 1
            target = str(p.const(PTR))
        p.expect('(')
        args = []; types = []; cattrs = []
        if not p.accept(')'):
            while True:
                t = p.type(); at = p.attrs()
                v = p.operand(t)
                if t.k == 'i' and t.n == 1 and v.const is not None:
                    e = Expr('True' if v.const else 'False'); e.const = bool(v.const); v = e
                args.append(v); types.append(t); cattrs.append(at)
                if p.accept(')'): break
                p.expect(',')
        pre = '%s = ' % res if res else ''
        if callee is not None and callee.startswith('llvm.'):
            e = self.intrinsic(callee, rt, types, args, ind)
            if e is not None:
                self.w(ind, pre + e)
            return
        if callee is not None:
            n = self.rt.callname(self.mod, callee, rt, types)
            self.w(ind, '%s%s(%s)' % (pre, n, ', '.join(args)))
        else:
            self.w(ind, '%sicall(%s)(%s)' % (pre, target, ', '.join(args)))

    def intrinsic(self, n, rt, types, args, ind):
        a = args
        base = n[5:]
        def el(fn, k=2):
            if types[0].k == 'vec':
                if k == 1: return 'tuple([%s for x in %s])' % (fn(types[0].e, 'x', None), a[0])
                return 'tuple([%s for x, y in zip(%s, %s)])' % (fn(types[0].e, 'x', 'y'), a[0], a[1])
            return fn(types[0], a[0], a[1] if k == 2 else None)
        if base.startswith('memcpy') or base.startswith('memmove'): return 'copy(%s, %s, %s)' % (a[0], a[1], a[2])
        if base.startswith('memset'): return 'fill(%s, %s, %s)' % (a[0], a[1], a[2])
        if base.startswith(('lifetime', 'assume', 'experimental', 'dbg', 'donothing', 'prefetch', 'va_end', 'stackrestore')): return None
        if base.startswith('stacksave'): return '0'
        if base.startswith('umax'): return el(lambda t, x, y: 'umax(%s, %s)' % (x, y))
        if base.startswith('umin'): return el(lambda t, x, y: 'umin(%s, %s)' % (x, y))
        if base.startswith('smax'): return el(lambda t, x, y: 'smax(%s, %s, %d)' % (x, y, t.n))
        if base.startswith('smin'): return el(lambda t, x, y: 'smin(%s, %s, %d)' % (x, y, t.n))
        if base.startswith('abs.'): return el(lambda t, x, y: 'iabs(%s, %d)' % (x, t.n), 1)
        if base.startswith('fabs'): return el(lambda t, x, y: 'fabs_(%s)' % x, 1)
        if base.startswith('sqrt'): return el(lambda t, x, y: 'fsqrt(%s)' % x, 1)
        if base.startswith('floor'): return el(lambda t, x, y: 'floor_(%s)' % x, 1)
        if base.startswith('ceil'): return el(lambda t, x, y: 'ceil_(%s)' % x, 1)
        if base.startswith('trunc.f'): return el(lambda t, x, y: 'trunc_(%s)' % x, 1)
        if base.startswith('round.'): return el(lambda t, x, y: 'round_(%s)' % x, 1)
        if base.startswith(('rint', 'nearbyint', 'roundeven')): return el(lambda t, x, y: 'rint_(%s)' % x, 1)
        if base.startswith('copysign'): return 'copysign(%s, %s)' % (a[0], a[1])
        if base.startswith(('minnum', 'minimumnum')): return el(lambda t, x, y: 'fmin_(%s, %s)' % (x, y))
        if base.startswith(('maxnum', 'maximumnum')): return el(lambda t, x, y: 'fmax_(%s, %s)' % (x, y))
        if base.startswith(('fmuladd', 'fma.')): return '%s * %s + %s' % (a[0], a[1], a[2])
        if base.startswith('powi.'): return 'powi(%s, %s)' % (a[0], a[1])
        m = re.match(r'(pow|exp|exp2|log|log2|log10|sin|cos)\.f64', base)
        if m: return 'fmath(%r, %s)' % (m.group(1), ', '.join(a))
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow', base)
        if m: return '%s%s_o(%s, %s, %d)' % (m.group(1), m.group(2), a[0], a[1], types[0].n)
        m = re.match(r'([us])(add|sub)\.sat', base)
        if m: return el(lambda t, x, y: '%s%s_sat(%s, %s, %d)' % (m.group(1), m.group(2), x, y, t.n))
        if base.startswith('ctlz'): return 'ctlz(%s, %d)' % (a[0], types[0].n)
        if base.startswith('cttz'): return 'cttz(%s, %d)' % (a[0], types[0].n)
        if base.startswith('ctpop'): return 'ctpop(%s, %d)' % (a[0], types[0].n)
        if base.startswith('bswap'): return 'bswap(%s, %d)' % (a[0], types[0].n)
        if base.startswith('bitreverse'): return 'bitrev(%s, %d)' % (a[0], types[0].n)
        if base.startswith('fshl'): return 'fshl(%s, %s, %s, %d)' % (a[0], a[1], a[2], types[0].n)
        if base.startswith('fshr'): return 'fshr(%s, %s, %s, %d)' % (a[0], a[1], a[2], types[0].n)
        if base.startswith('ucmp'): return 'ucmp(%s, %s, %d)' % (a[0], a[1], rt.n)
        if base.startswith('scmp'): return 'scmp(%s, %s, %d, %d)' % (a[0], a[1], types[0].n, rt.n)
        if base.startswith('fptoui.sat'): return 'fptoui_sat(%s, %d)' % (a[0], rt.n)
        if base.startswith('fptosi.sat'): return 'fptosi_sat(%s, %d)' % (a[0], rt.n)
        if base.startswith('is.constant'): return 'False'
        if base.startswith('expect'): return a[0]
        if base.startswith('threadlocal.address'): return a[0]
        if base.startswith('load.relative'): return 'load_rel(%s, %s)' % (a[0], a[1])
        if base.startswith(('trap', 'ubsantrap')): return 'trap()'
        if base.startswith('objectsize'): return str(M64MASK)
        if base.startswith('va_start'): return 'va_start(%s, va)' % a[0]
        if base.startswith('va_copy'): return 'va_copy(%s, %s)' % (a[0], a[1])
        if base.startswith('is.fpclass'): return 'fpclass(%s, %s)' % (a[0], a[1])
        if base.startswith('x86.sse2.pause'): return None
        if base.startswith('x86.sse2.pmovmskb'): return 'pmovmskb(%s)' % a[0]
        m = re.match(r'vector\.reduce\.(\w+)', base)
        if m: return 'vreduce(%r, %s)' % (m.group(1), ', '.join(a))
        if base.startswith('fpext') or base.startswith('ssa.copy'): return a[0]
        if base.startswith('ptrmask'): return '%s & %s' % (a[0], a[1])
        if base.startswith(('returnaddress', 'frameaddress')): return '0'
        if base.startswith('eh.typeid'): return '0'
        return 'unsup(%r)' % n


class TooDeep(Exception):
    pass


def self_lit(v):
    return P([], None).lit(v)


def bl(a, t=None):
    if (t is None or (t.k == 'i' and t.n == 1)) and a.const is not None:
        return 'True' if a.const else 'False'
    return a


def sh_mask(n):
    m = 1
    while m < n: m *= 2
    return m - 1


def ebits(t):
    return t.n if t.k == 'i' else 64 if t.k in ('f64', 'ptr') else 32
