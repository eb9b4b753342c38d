"""Byte-addressed memory with an 8-byte-granule shadow (addressability) and a symbolic overlay."""
import mmap, struct
from .sym import S, SInt, SReal, SBool, FBits, FOrd, FSign, FMask, PathEnd, Unsupported, f2i, i2f

SIZE = 1 << 30
OK = 1; OKV = 2                      # fully addressable, without / with overlay
# 0x10+k: first k bytes addressable; 0x20+k: same, with overlay; >= 0xF0 or 0: not addressable
RZ_HEAP = 0xF1; FREED = 0xF2; STACK_DEAD = 0xF3; RZ_GLOB = 0xF4; RZ_STACK = 0xF5

_mm = mmap.mmap(-1, SIZE, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
M8 = memoryview(_mm)
M16 = M8.cast('H'); M32 = M8.cast('I'); M64 = M8.cast('Q'); MF = M8.cast('d'); MF32 = M8.cast('f')
_sm = mmap.mmap(-1, SIZE >> 3, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
SH = memoryview(_sm)
OV = {}                              # granule -> {offset: (size, value)}

STACK0 = 0x00100000; STACK1 = 0x04000000         # 63 MB stack, grows up
GLOB0 = 0x04000000; GLOB1 = 0x08000000
HEAP0 = 0x08000000
FUNC0 = 0x7f0000000000


class Ctx:
    pass


C = Ctx()
C.sp = STACK0
C.glob = GLOB0
C.heap = HEAP0
C.allocs = {}          # live heap blocks: addr -> (size, seq)
C.freed = {}           # addr -> size
C.seq = 0
C.nloads = 0


def fault(kind, a, n):
    s = SH[a >> 3] if 0 <= a < SIZE else None
    why = {None: 'wild address', 0: 'unmapped address', RZ_HEAP: 'heap buffer overflow', FREED: 'use after free',
           STACK_DEAD: 'dead stack frame', RZ_GLOB: 'global buffer overflow', RZ_STACK: 'stack buffer overflow'}.get(s, 'buffer overflow')
    if a < 4096: why = 'null pointer dereference'
    raise PathEnd('memory', '%s of %d bytes at 0x%x: %s' % (kind, n, a, why), addr=a)


def adr(a):
    if a.__class__ is int: return a
    if a.__class__ is SInt:
        return S.concretize(a)
    if a.__class__ is bool: return int(a)
    raise Unsupported('pointer of class %s' % a.__class__.__name__)


def check(a, n, kind):
    """all n bytes at a addressable? returns True when an overlay may be present"""
    if n == 0: return False
    if not 0 < a <= SIZE - n: fault(kind, a, n)
    g0 = a >> 3; g1 = (a + n - 1) >> 3
    if g1 - g0 >= 2:
        mid = bytes(SH[g0:g1]).translate(None, b'\x01\x02')
        if mid: fault_in(a, n, g0, g1, kind)
        ov = 2 in SH[g0:g1].tobytes()
        last = SH[g1]
        if last == 1: return ov
        if last == 2: return True
        if 0x10 < last < 0x28 and ((a + n - 1) & 7) < (last & 7): return ov or last >= 0x20
        fault_in(a, n, g0, g1, kind)
    ov = False
    for g in range(g0, g1 + 1):
        s = SH[g]
        if s == 1: continue
        if s == 2: ov = True; continue
        if 0x10 < s < 0x28:
            e = ((a + n - 1) & 7) if g == g1 else 7
            if e >= (s & 7): fault(kind, a, n)
            if s >= 0x20: ov = True
            continue
        fault_in(a, n, g, g1, kind)
    return ov


def fault_in(a, n, g0, g1, kind):
    for g in range(g0, g1 + 1):
        if SH[g] not in (1, 2):
            e = max(a, g << 3)
            f = Ctx()
            if 0x10 < SH[g] < 0x28: e = (g << 3) + (SH[g] & 7)
            raise_fault(kind, a, n, e, SH[g])


def raise_fault(kind, a, n, e, s):
    why = {0: 'unmapped address', RZ_HEAP: 'heap buffer overflow', FREED: 'use after free',
           STACK_DEAD: 'dead stack frame', RZ_GLOB: 'global buffer overflow', RZ_STACK: 'stack buffer overflow'}.get(s, 'buffer overflow')
    raise PathEnd('memory', '%s of %d bytes at 0x%x: %s' % (kind, n, a, why), addr=e)


# ---------------------------------------------------------------- loads
def ld1(a):
    if a.__class__ is int:
        if SH[a >> 3] == 1: return M8[a]
    return ld_slow(a, 1)


def ld2(a):
    if a.__class__ is int and not a & 1 and SH[a >> 3] == 1: return M16[a >> 1]
    return ld_slow(a, 2)


def ld4(a):
    if a.__class__ is int and not a & 3 and SH[a >> 3] == 1: return M32[a >> 2]
    return ld_slow(a, 4)


def ld8(a):
    if a.__class__ is int and not a & 7 and SH[a >> 3] == 1: return M64[a >> 3]
    return ld_slow(a, 8)


def ldf(a):
    if a.__class__ is int and not a & 7 and SH[a >> 3] == 1: return MF[a >> 3]
    v = ld_slow(a, 8)
    k = v.__class__
    if k is int: return i2f(v)
    if k is FBits: return v.r
    return bits_to_f(v)


def bits_to_f(v):
    k = v.__class__
    if k is int: return i2f(v)
    if k is FBits: return v.r
    if k is SInt:
        return i2f(S.concretize(v))
    raise Unsupported('load double from %s' % k.__name__)


def ldf32(a):
    a = adr(a)
    check(a, 4, 'read')
    return struct.unpack('<f', M8[a:a + 4])[0]


def ldn(a, n):
    """n-byte integer load"""
    return ld_slow(a, n)


def entries(a, n):
    """pieces of [a, a+n): list of (addr, len, value or None)"""
    out = []
    p = a; e = a + n
    while p < e:
        g = p >> 3
        ge = min((g + 1) << 3, e)
        s = SH[g]
        if s == 2 or 0x20 < s < 0x28:
            d = OV.get(g)
            if d:
                for off in sorted(d):
                    sz, v = d[off]
                    x = (g << 3) + off
                    if x + sz <= p or x >= ge: continue
                    if x > p: out.append((p, x - p, None)); p = x
                    if x < p or x + sz > ge:
                        # partial overlap: take the bytes needed
                        f = max(x, p); t = min(x + sz, ge)
                        out.append((f, t - f, part(v, sz, f - x, t - f))); p = t
                    else:
                        out.append((x, sz, v)); p = x + sz
        if p < ge:
            out.append((p, ge - p, None)); p = ge
    return out


def part(v, sz, off, n):
    if v.__class__ is SReal: v = FBits(v)
    if v.__class__ is FBits:
        if off == 7 and n == 1:
            raise Unsupported('byte of a symbolic double')
        raise Unsupported('part of a symbolic double')
    if v.__class__ is not SInt: raise Unsupported('part of %s' % v.__class__.__name__)
    if off: v = v >> (8 * off)
    return v & ((1 << (8 * n)) - 1)


def ld_slow(a, n):
    a = adr(a)
    if not check(a, n, 'read'):
        return int.from_bytes(M8[a:a + n], 'little')
    ps = entries(a, n)
    if len(ps) == 1:
        x, l, v = ps[0]
        if v is None: return int.from_bytes(M8[a:a + n], 'little')
        if v.__class__ is SReal: return FBits(v)
        return v
    r = 0
    for x, l, v in ps:
        if v is None: v = int.from_bytes(M8[x:x + l], 'little')
        elif v.__class__ is SReal or v.__class__ is FBits: raise Unsupported('wide load over a symbolic double')
        sh = 8 * (x - a)
        r = r + (v << sh if sh else v)
    return r


# ---------------------------------------------------------------- stores
def st1(a, v):
    if a.__class__ is int and v.__class__ is int and SH[a >> 3] == 1: M8[a] = v
    else: st_slow(a, 1, v)


def st2(a, v):
    if a.__class__ is int and v.__class__ is int and not a & 1 and SH[a >> 3] == 1: M16[a >> 1] = v
    else: st_slow(a, 2, v)


def st4(a, v):
    if a.__class__ is int and v.__class__ is int and not a & 3 and SH[a >> 3] == 1: M32[a >> 2] = v
    else: st_slow(a, 4, v)


def st8(a, v):
    if a.__class__ is int and v.__class__ is int and not a & 7 and SH[a >> 3] == 1: M64[a >> 3] = v
    else: st_slow(a, 8, v)


def stf(a, v):
    if a.__class__ is int and v.__class__ is float and not a & 7 and SH[a >> 3] == 1: MF[a >> 3] = v
    elif v.__class__ is float: st_slow(a, 8, f2i(v))
    else: st_slow(a, 8, v)


def stf32(a, v):
    st_slow(a, 4, int.from_bytes(struct.pack('<f', v), 'little'))


def stn(a, v, n):
    st_slow(a, n, v)


def clear(a, n):
    """drop overlay entries in [a, a+n) (keeping parts outside)"""
    p = a; e = a + n
    while p < e:
        g = p >> 3
        ge = min((g + 1) << 3, e)
        s = SH[g]
        if s == 2 or 0x20 < s < 0x28:
            d = OV.get(g)
            if d:
                for off in list(d):
                    sz, v = d[off]
                    x = (g << 3) + off
                    if x + sz <= p or x >= ge: continue
                    del d[off]
                    if x < p:
                        d[off] = (p - x, part(v, sz, 0, p - x))
                    if x + sz > ge:
                        d[ge - (g << 3)] = (x + sz - ge, part(v, sz, ge - x, x + sz - ge))
            if not d:
                OV.pop(g, None)
                SH[g] = 1 if s == 2 else s - 0x10
        p = ge


def put(x, n, v):
    """symbolic entry inside one granule (range already cleared)"""
    g = x >> 3
    s = SH[g]
    if s == 1: SH[g] = 2; OV[g] = {}
    elif 0x10 < s < 0x20: SH[g] = s + 0x10; OV[g] = {}
    d = OV[g]
    d[x & 7] = (n, v)
    M8[x:x + n] = b'\xAA' * n


def st_slow(a, n, v):
    a = adr(a)
    ov = check(a, n, 'write')
    k = v.__class__
    if k is bool: v = int(v); k = int
    if k is FBits: v = v.r; k = v.__class__
    if isinstance(v, SBool): v = +v; k = SInt
    if k is float: v = f2i(v); k = int
    if ov: clear(a, n)
    if k is int:
        M8[a:a + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        return
    if (a & 7) + n <= 8:
        put(a, n, v)
        return
    if k is not SInt: raise Unsupported('unaligned store of %s' % k.__name__)
    p = a
    while p < a + n:
        ge = min(((p >> 3) + 1) << 3, a + n)
        w = part(v, n, p - a, ge - p)
        if w.__class__ is int: M8[p:ge] = w.to_bytes(ge - p, 'little')
        else: put(p, ge - p, w)
        p = ge


# ---------------------------------------------------------------- blocks
def copy(d, s, n):
    n = adr(n)
    if n == 0: return
    d = adr(d); s = adr(s)
    ovs = check(s, n, 'read')
    ovd = check(d, n, 'write')
    if not ovs:
        b = M8[s:s + n].tobytes()
        if ovd: clear(d, n)
        M8[d:d + n] = b
        return
    ps = entries(s, n)
    raw = M8[s:s + n].tobytes()
    if ovd: clear(d, n)
    M8[d:d + n] = raw
    for x, l, v in ps:
        if v is not None:
            st_slow(d + x - s, l, v)


def fill(d, b, n):
    n = adr(n)
    if n == 0: return
    d = adr(d)
    if check(d, n, 'write'): clear(d, n)
    if b.__class__ is int:
        M8[d:d + n] = bytes([b & 255]) * n
    else:
        for i in range(n): st_slow(d + i, 1, b)


def rdbytes(a, n):
    """concrete bytes (symbolic ones are concretized)"""
    a = adr(a); n = adr(n)
    if not check(a, n, 'read'): return M8[a:a + n].tobytes()
    out = bytearray(M8[a:a + n])
    for x, l, v in entries(a, n):
        if v is not None:
            if v.__class__ is not SInt: raise Unsupported('bytes of a symbolic double')
            out[x - a:x - a + l] = S.concretize(v).to_bytes(l, 'little')
    return bytes(out)


def wrbytes(a, b):
    a = adr(a)
    if not b: return
    if check(a, len(b), 'write'): clear(a, len(b))
    M8[a:a + len(b)] = b


def cstr(a):
    out = bytearray()
    a = adr(a)
    while True:
        c = ld1(a)
        if c.__class__ is not int: c = S.concretize(c)
        if c == 0: return bytes(out)
        out.append(c); a += 1


def shadow(a, n):
    """mark n bytes at the 8-aligned address a addressable"""
    g = a >> 3
    q, r = divmod(n, 8)
    if q: SH[g:g + q] = b'\x01' * q
    if r: SH[g + q] = 0x10 + r


def poison(a, n, code):
    g = a >> 3; e = (a + n + 7) >> 3
    SH[g:e] = bytes([code]) * (e - g)


# ---------------------------------------------------------------- heap
def malloc(n, align=16, zero=False):
    n = adr(n)
    if n > 0x30000000: return 0
    C.heap += 16
    h = (C.heap + align - 1) // align * align
    poison(C.heap - 16, h - C.heap + 16, RZ_HEAP)
    end = (h + n + 15) // 16 * 16
    if end + 32 > SIZE: raise Unsupported('out of model memory')
    shadow(h, n)
    if n == 0: SH[h >> 3] = RZ_HEAP
    poison((h + n + 7) // 8 * 8, end + 16 - (h + n + 7) // 8 * 8, RZ_HEAP)
    if n == 0: end += 16; poison(h, 32, RZ_HEAP)
    C.heap = end
    if not zero and n: M8[h:h + n] = b'\xA5' * n
    C.seq += 1
    C.allocs[h] = (n, C.seq)
    return h


def free(p):
    p = adr(p)
    if p == 0: return
    a = C.allocs.pop(p, None)
    if a is None:
        raise PathEnd('memory', 'double free' if p in C.freed else 'free of a pointer that is not a heap block (0x%x)' % p)
    C.freed[p] = a[0]
    n = (a[0] + 7) // 8
    g = p >> 3
    for i in [k for k in (range(g, g + n) if n < len(OV) else list(OV)) if g <= k < g + n]: OV.pop(i, None)
    poison(p, max(a[0], 1), FREED)


def realloc(p, n, align=16):
    p = adr(p); n = adr(n)
    if p == 0: return malloc(n, align)
    a = C.allocs.get(p)
    if a is None: raise PathEnd('memory', 'realloc of a pointer that is not a heap block')
    q = malloc(n, align)
    copy(q, p, min(n, a[0]))
    free(p)
    return q


# ---------------------------------------------------------------- stack
def push(n, pat):
    b = C.sp
    C.sp = b + n
    if C.sp >= STACK1: raise PathEnd('crash', 'stack overflow')
    SH[b >> 3:(b + n) >> 3] = pat
    return b


def pop(b):
    g = b >> 3; e = C.sp >> 3
    SH[g:e] = b'\xF3' * (e - g)
    C.sp = b


def dyn_alloca(n, align=16):
    n = adr(n)
    b = C.sp
    t = (n + 15) // 16 * 16
    C.sp = b + t + 16
    if C.sp >= STACK1: raise PathEnd('crash', 'stack overflow')
    shadow(b, n); poison((b + n + 7) // 8 * 8, C.sp - (b + n + 7) // 8 * 8, RZ_STACK)
    return b
