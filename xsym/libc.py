"""Models of the libc functions and of the harness interface."""
import re, struct, math, functools
from . import mem
from .mem import *
from .mem import C
from .sym import *
from .sym import S
from .rt import sgn, real_of, U64, Linker, fmath
from . import rt

EXT = {}


def ext(*names):
    def d(f):
        for n in names or (f.__name__,): EXT[n] = f
        return f
    return d


# ---------------------------------------------------------------- allocation
@ext('malloc')
def c_malloc(n): return mem.malloc(n)


@ext('calloc')
def c_calloc(a, b): return mem.malloc(adr(a) * adr(b), zero=True)


@ext('realloc')
def c_realloc(p, n): return mem.realloc(p, n)


@ext('free')
def c_free(p): mem.free(p)


@ext('posix_memalign')
def c_pma(pp, al, n):
    st8(pp, mem.malloc(n, max(16, adr(al))))
    return 0


@ext('aligned_alloc', 'memalign')
def c_aa(al, n): return mem.malloc(n, max(16, adr(al)))


# ---------------------------------------------------------------- memory / strings
@ext('memcpy', 'memmove')
def c_memcpy(d, s, n): copy(d, s, n); return d


@ext('memset')
def c_memset(d, b, n): fill(d, b & 255, n); return d


@ext('bcmp', 'memcmp')
def c_memcmp(a, b, n):
    n = adr(n); a = adr(a); b = adr(b)
    oa = mem.check(a, n, 'read'); ob = mem.check(b, n, 'read')
    if not oa and not ob:
        x = M8[a:a + n].tobytes(); y = M8[b:b + n].tobytes()
        return 0 if x == y else 1 if x > y else 0xFFFFFFFF
    for i in range(n):
        x = ld1(a + i); y = ld1(b + i)
        if S.decide_(x == y): continue
        return 1 if S.decide_(x > y) else 0xFFFFFFFF
    return 0


@ext()
def strlen(p): return len(cstr(p))


@ext()
def strcmp(a, b):
    x = cstr(a); y = cstr(b)
    return 0 if x == y else 1 if x > y else 0xFFFFFFFF


@ext()
def strncmp(a, b, n):
    n = adr(n)
    a = adr(a); b = adr(b)
    for i in range(n):
        x = adr(ld1(a + i)); y = adr(ld1(b + i))
        if x != y: return 1 if x > y else 0xFFFFFFFF
        if x == 0: return 0
    return 0


@ext()
def strcpy(d, s): wrbytes(d, cstr(s) + b'\0'); return d


@ext()
def strncpy(d, s, n):
    x = cstr(s)[:adr(n)]
    wrbytes(d, x + b'\0' * (adr(n) - len(x))); return d


@ext()
def strcat(d, s): wrbytes(d + len(cstr(d)), cstr(s) + b'\0'); return d


@ext()
def strncat(d, s, n): wrbytes(d + len(cstr(d)), cstr(s)[:adr(n)] + b'\0'); return d


@ext()
def strchr(p, c):
    x = cstr(p) + b'\0'
    i = x.find(bytes([c & 255]))
    return 0 if i < 0 else p + i


@ext()
def strrchr(p, c):
    x = cstr(p) + b'\0'
    i = x.rfind(bytes([c & 255]))
    return 0 if i < 0 else p + i


@ext()
def strstr(p, q):
    i = cstr(p).find(cstr(q))
    return 0 if i < 0 else p + i


@ext()
def strpbrk(p, q):
    s = cstr(q)
    for i, c in enumerate(cstr(p)):
        if c in s: return p + i
    return 0


@ext()
def strtod(p, e):
    x = cstr(p)
    m = re.match(rb'\s*([-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?))', x)
    if not m:
        if e: st8(e, p)
        return 0.0
    if e: st8(e, p + m.end())
    return float(m.group(1))


@ext('strtol', 'strtoll', 'strtoul')
def strtol(p, e, base):
    x = cstr(p)
    m = re.match(rb'\s*([-+]?\d+)', x)
    if not m:
        if e: st8(e, p)
        return 0
    if e: st8(e, p + m.end())
    return int(m.group(1)) & U64


_tab = {}


def cell(name, make):
    a = _tab.get(name)
    if a is None: a = _tab[name] = make()
    return a


def _static(n):
    # memory outside the heap accounting
    a = (C.glob + 31) // 16 * 16
    shadow(a, n); C.glob = (a + n + 7) // 8 * 8 + 16
    return a


@ext('__ctype_b_loc')
def ctype_b():
    def make():
        t = _static(8 + 384 * 2)
        for c in range(-128, 256):
            k = c & 255
            v = 0
            if c >= 0 and k < 128:
                ch = chr(k)
                if 'A' <= ch <= 'Z': v |= 0x100
                if 'a' <= ch <= 'z': v |= 0x200
                if ch.isalpha(): v |= 0x400
                if ch.isdigit(): v |= 0x800
                if ch in '0123456789abcdefABCDEF': v |= 0x1000
                if ch in ' \t\n\v\f\r': v |= 0x2000
                if 32 <= k < 127: v |= 0x4000
                if 32 < k < 127: v |= 0x8000
                if ch in ' \t': v |= 1
                if k < 32 or k == 127: v |= 2
                if 32 < k < 127 and not ch.isalnum(): v |= 4
                if ch.isalnum(): v |= 8
            M16[(t + 8 + (c + 128) * 2) >> 1] = v
        M64[t >> 3] = t + 8 + 256
        return t
    return cell('ctype_b', make)


@ext('__ctype_toupper_loc')
def ctype_up():
    def make():
        t = _static(8 + 384 * 4)
        for c in range(-128, 256):
            v = c - 32 if 97 <= c <= 122 else c
            M32[(t + 8 + (c + 128) * 4) >> 2] = v & 0xFFFFFFFF
        M64[t >> 3] = t + 8 + 512
        return t
    return cell('ctype_up', make)


@ext('__errno_location')
def errno_loc(): return cell('errno', lambda: _static(8))


def fmt_c(f, args):
    """C printf formatting on concrete arguments"""
    f = cstr(f).decode('latin1')
    args = list(args)
    out = []
    pos = 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diuoxXcsfFeEgGp%])', f):
        out.append(f[pos:m.start()]); pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == '%': out.append('%'); continue
        if w == '*': w = str(sgn(S.concretize(args.pop(0)), 32))
        if pr == '*': pr = str(sgn(S.concretize(args.pop(0)), 32))
        a = args.pop(0)
        spec = '%' + fl + (w or '') + ('.' + pr if pr is not None else '')
        if cv in 'fFeEgG':
            if a.__class__ is not float: a = 0.0
            out.append((spec + cv) % a)
        elif cv == 's':
            out.append((spec + 's') % cstr(a).decode('latin1'))
        elif cv == 'c': out.append((spec + 'c') % chr(S.concretize(a) & 255))
        elif cv == 'p': out.append('0x%x' % adr(a))
        else:
            n = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
            a = S.concretize(a) & ((1 << n) - 1)
            if cv in 'di': a = sgn(a, n); cv = 'd'
            if cv == 'u': cv = 'd'
            out.append((spec + cv) % a)
    out.append(f[pos:])
    return ''.join(out).encode('latin1')


@ext()
def sprintf(d, f, *a):
    x = fmt_c(f, a); wrbytes(d, x + b'\0'); return len(x)


@ext()
def snprintf(d, n, f, *a):
    x = fmt_c(f, a); n = adr(n)
    if n: wrbytes(d, x[:n - 1] + b'\0')
    return len(x)


@ext('fprintf', 'vfprintf', 'printf', 'puts', 'fputs', 'fputc', 'putc', 'fflush', 'fwrite', 'putchar', 'perror',
     'qh_fprintf', 'qh_fprintf_stderr', 'qh_fprintf_rbox')
def c_noop(*a): return 0


@ext('time')
def c_time(p):
    if p: st8(p, 1700000000)
    return 1700000000


@ext('clock')
def c_clock(): return 1000


@ext('localtime', 'gmtime')
def c_lt(p): return 0


@ext('getenv', 'secure_getenv')
def c_getenv(p): return 0


@ext('exit', '_exit', 'abort')
def c_exit(*a):
    if S.may_end: raise PathEnd('ended', '')
    raise PathEnd('crash', 'process exit/abort called %r' % (a,))


@ext('_setjmp', 'setjmp')
def c_setjmp(b):
    st8(b, 0x4a4d50)
    return 0


@ext('longjmp')
def c_longjmp(b, v):
    raise PathEnd('crash', 'longjmp (qhull error exit %s)' % v)


@ext('qsort')
def c_qsort(base, n, sz, cmp):
    n = adr(n); sz = adr(sz); base = adr(base)
    if n < 2: return
    fn = LINK.icall(cmp)
    tmp = mem.malloc(n * sz)
    copy(tmp, base, n * sz)
    def c(i, j):
        r = fn(tmp + i * sz, tmp + j * sz)
        r = sgn(r, 32)
        if r.__class__ is int: return r
        if S.decide_(r < 0): return -1
        return 1 if S.decide_(r > 0) else 0
    o = sorted(range(n), key=functools.cmp_to_key(c))
    for k, i in enumerate(o): copy(base + k * sz, tmp + i * sz, sz)
    mem.free(tmp)


for _n in ('pow', 'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'cbrt'):
    EXT[_n] = functools.partial(fmath, _n)
EXT['sqrt'] = rt.fsqrt; EXT['floor'] = rt.floor_; EXT['ceil'] = rt.ceil_; EXT['fabs'] = rt.fabs_; EXT['round'] = rt.round_
EXT['trunc'] = rt.trunc_; EXT['fmod'] = rt.frem
EXT['fmin'] = rt.fmin_; EXT['fmax'] = rt.fmax_


import os, sys
if os.environ.get('XSYM_QH'):
    @ext('qh_fprintf')
    def qh_fp(qh, fp, code, f, *a):
        try: sys.stderr.write(fmt_c(f, a).decode('latin1'))
        except Exception as e: sys.stderr.write(repr(e) + cstr(f).decode('latin1'))
        return 0


# ---------------------------------------------------------------- system
@ext('getrandom')
def c_getrandom(p, n, fl):
    wrbytes(p, bytes((37 * i + 11) & 255 for i in range(adr(n)))); return adr(n)


@ext('syscall')
def c_syscall(n, *a):
    n = S.concretize(n)
    if n == 318: return c_getrandom(*a[:3])
    if n == 202: return 0
    raise Unsupported('syscall %d' % n)


@ext('gettid', 'getpid')
def c_gettid(): return 1


@ext('write')
def c_write(fd, p, n): return n


@ext('__cxa_thread_atexit_impl')
def c_atexit(*a): return 0


# ---------------------------------------------------------------- panics
def location(a):
    for x in reversed(a):
        if x.__class__ is int and GLOB0 <= x < GLOB1:
            try:
                p = M64[x >> 3]; n = M64[(x >> 3) + 1]
                if GLOB0 <= p < GLOB1 and 0 < n < 300:
                    s = M8[p:p + n].tobytes()
                    if b'.rs' in s: return '%s:%d' % (s.rstrip(b'\0').decode('latin1').split('/src/')[-1], M32[(x + 16) >> 2])
            except Exception: pass
    return '?'


def panic(name, *a):
    m = re.search(r'\d\d?([a-z_]+)$', name)
    if S.may_end: raise PathEnd('ended', '')
    raise PathEnd('panic', 'panic in %s (%s)' % (location(a), m.group(1) if m else name[-40:]))


PANIC = re.compile(r'core9panicking|13unwrap_failed|13expect_failed|slice[\w$]*_fail(_\w+)?$|handle_alloc_error|raw_vec12handle_error|capacity_overflow|panic_already|len_mismatch_fail|slice_error_fail|rust_begin_unwind|9panicking11begin_panic|unreachable_display|copy_from_slice_impl|panic_misaligned|panic_nounwind')


# ---------------------------------------------------------------- harness interface
def _input(kind, iid, lo, hi):
    iid = adr(iid)
    if kind == 'f64':
        v = new_var('R', 'x%d' % iid, frac(lo) if lo > -INF else None, frac(hi) if hi < INF else None)
    else:
        v = new_var('I', 'u%d' % iid, lo, hi)
    S.inputs.append((kind, iid, v))
    return v


@ext()
def sym_f64(iid, lo, hi):
    return SReal(PV(_input('f64', iid, lo, hi)))


@ext('sym_u64', 'sym_u8', 'sym_u32')
def sym_u64(iid, lo, hi):
    lo = adr(lo); hi = adr(hi)
    if lo == hi:
        S.inputs.append(('u64', adr(iid), new_var('I', 'c', lo, lo)))
        return lo
    return SInt(PV(_input('u64', iid, lo, hi)))


@ext()
def sym_choose(iid, lo, hi):
    """a concrete value in lo..=hi, one path each"""
    x = sym_u64(iid, lo, hi)
    return S.concretize(x)


@ext()
def sym_concretize(x): return S.concretize(x)


@ext()
def sym_assume(c): S.assume(c)


@ext()
def sym_check(c, iid): S.check(c, adr(iid))


@ext()
def sym_check_close(a, b, tol, iid):
    d = a - b
    if d.__class__ is float:
        S.check(abs(d) <= tol, adr(iid)); return
    S.check(mkband(d <= tol, d >= -tol), adr(iid))


def mkband(a, b):
    return a & b if a.__class__ is not bool else (b if a else False)


@ext()
def sym_check_le(a, b, iid): S.check(a <= b, adr(iid))


@ext()
def sym_assume_lt(a, b): S.assume(a < b)


@ext()
def sym_may_end(): S.may_end = True


@ext()
def sym_reach(iid): S.reach.add(adr(iid))


@ext()
def sym_fail(iid): S.check(False, adr(iid)); raise PathEnd('failed', '')


@ext()
def sym_obs_f64(iid, x):
    S.obs.append(('f64', adr(iid), x))


@ext()
def sym_obs_u64(iid, x):
    S.obs.append(('u64', adr(iid), x))


@ext()
def sym_heap_live():
    return len(C.allocs)


@ext()
def sym_alloc(p, n, align): pass


@ext()
def sym_dealloc(p, n, align):
    """a release must name the size that was allocated"""
    a = C.allocs.get(adr(p))
    if a is not None and a[0] != adr(n): S.check(False, 899)


@ext()
def sym_is_native(): return 0


@ext()
def sym_readable(p, n):
    """memory-safety probe: touch every byte of the range"""
    p = adr(p); n = adr(n)
    mem.check(p, n, 'read')


LINK = None


def install(linker):
    global LINK
    LINK = linker
    linker.ext.update(EXT)
    linker.ext_re = [(PANIC, panic)]
    for n in ('stdin', 'stdout', 'stderr'):
        linker.extdata[n] = lambda n=n: _file(n)


def _file(n):
    def make():
        c = _static(8); f = _static(16)
        M64[c >> 3] = f
        return c
    return cell(n, make)
