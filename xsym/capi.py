"""Writes capi_calls.h: how a C program compiled against the shipped header calls each function of the C API.
The declarations come from clang's reading of the header, the definitions from the IR of the library."""
import json, re, subprocess

P = 'ptr'
# canonical arguments of each function: (name, pattern of the header's parameter name, kind)
API = {
    'create_image_weights': ('ptr', 'image_weights *', [('w', 'wid', 'i'), ('h', 'hei', 'i'), ('bytes', 'byte|pix|data', P)]),
    'free_image_weights': ('void', 'void', [('p', '', P)]),
    'compute_palette': ('ptr', 'uint8_t *', [('w', 'wid', 'i'), ('h', 'hei', 'i'), ('bytes', 'byte|pix|data', P), ('min', 'min', 'i'), ('max', 'max', 'i'),
                                             ('bound', 'err|bound', 'f'), ('count', 'count|size|out', P)]),
    'free_computed_palette': ('void', 'void', [('p', 'byte|ptr|palette$', P), ('count', 'count|size', 'i')]),
    'create_decomposed_image': ('ptr', 'decomposed_image *', [('w', 'weight', P), ('count', 'count|size', 'i'), ('pal', 'byte|palette$', P)]),
    'free_decomposed_image': ('void', 'void', [('p', '', P)]),
    'get_decomposed_image_width': ('i', 'uint64_t', [('p', '', P)]),
    'get_decomposed_image_height': ('i', 'uint64_t', [('p', '', P)]),
    'get_decomposed_image_num_channels': ('i', 'uint64_t', [('p', '', P)]),
    'reconstruct_image': ('i', 'uint64_t', [('p', 'img|image', P), ('pal', 'palette', P), ('out', 'out|buf', P)]),
    'grayscale_image_channel': ('i', 'uint64_t', [('p', 'img|image', P), ('ch', 'channel', 'i'), ('out', 'out|buf', P)]),
}
ARG_T = {'i': 'uint64_t', 'f': 'double', P: 'const void *'}
RANGES = {'max_of_min': ('compute_palette', 'min'), 'max_of_max': ('compute_palette', 'max'),
          'max_of_count': ('create_decomposed_image', 'count'), 'max_of_channel': ('grayscale_image_channel', 'ch')}
INTS = {'_Bool': (8, 0), 'bool': (8, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'int': (32, 1), 'unsigned int': (32, 0), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
        'uint8_t': (8, 0), 'uint16_t': (16, 0), 'uint32_t': (32, 0), 'uint64_t': (64, 0), 'int8_t': (8, 1), 'int16_t': (16, 1), 'int32_t': (32, 1), 'int64_t': (64, 1),
        'size_t': (64, 0), 'uintptr_t': (64, 0), 'intptr_t': (64, 1), 'ssize_t': (64, 1)}


def ctype(t):
    t = re.sub(r'\b(const|volatile|restrict|__restrict)\b', '', t).strip()
    if '*' in t or '[' in t: return (P,)
    if t == 'void': return ('void',)
    if t in ('double', 'float'): return ('f', 64 if t == 'double' else 32)
    if t in INTS: return ('i',) + INTS[t]
    return ('other', t)


def header(path):
    t = subprocess.run(['clang-18', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-x', 'c', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
    out = {}
    for x in json.loads(t)['inner']:
        if x['kind'] != 'FunctionDecl': continue
        ps = [(p.get('name', ''), ctype(p['type'].get('desugaredQualType', p['type']['qualType']))) for p in x.get('inner', []) if p['kind'] == 'ParmVarDecl']
        out[x['name']] = (ctype(x['type']['qualType'].split('(')[0]), ps)
    return out


def irtype(s):
    t = s.split()[0] if s.split() else 'void'
    for w in s.split():
        if re.fullmatch(r'ptr|i\d+|double|float|void', w): t = w; break
    if t == 'ptr': return (P,)
    if t == 'void': return ('void',)
    if t in ('double', 'float'): return ('f', 64 if t == 'double' else 32)
    if t[0] == 'i' and t[1:].isdigit():
        n = int(t[1:])
        return ('i', 8 if n == 1 else n, 1 if 'signext' in s else 0)
    return ('other', t)


def library(ll):
    out = {}
    for m in re.finditer(r'^define ([^@\n]*)@(\w+)\((.*)\)[^()\n]*\{$', ll, re.M):
        if m.group(2) not in API: continue
        a, d, cur = [], 0, ''
        for ch in m.group(3):
            if ch in '([{<': d += 1
            if ch in ')]}>': d -= 1
            if ch == ',' and d == 0: a.append(cur); cur = ''
            else: cur += ch
        if cur.strip(): a.append(cur)
        out[m.group(2)] = (irtype(m.group(1)), [irtype(x) for x in a])
    return out


def same(a, b):
    if a[0] != b[0]: return False
    if a[0] == 'i': return a[1] == b[1] and (a[1] > 16 or a[2] == b[2])
    return a[0] == P or a == b


def roles(canon, params):
    """which canonical argument each parameter of the header is"""
    m = [None] * len(params)
    for i, (n, t) in enumerate(params):
        hit = [k for k, (c, pat, kind) in enumerate(canon) if pat and re.search(pat, n.lower()) and (t[0] == kind or t[0] == 'other')]
        hit = [k for k in hit if k not in m]
        if hit: m[i] = hit[0]
    if len(set(m)) == len(m) and None not in m: return m
    return [i if i < len(canon) else None for i in range(len(params))]


def write(hdr, ll, out):
    H = header(hdr); L = library(ll)
    s = ['/* written by xsym/capi.py */', '#define DIRTY 0xA5A5A5A500000000ull']
    shape = []
    for name in sorted(API):
        rk, rt, canon = API[name]
        args = ', '.join('%s%s' % (ARG_T[k] + (' ' if ARG_T[k][-1] != '*' else ''), c) for c, _, k in canon)
        s.append('static %s call_%s(%s) {' % (rt, name, args))
        h = H.get(name); l = L.get(name)
        shape.append(int(bool(h and l and same(h[0], l[0]) and len(h[1]) == len(l[1]) and all(same(a[1], b) for a, b in zip(h[1], l[1])))))
        if h is None or l is None:
            s.append('    sym_check(0, 99);')
            s.append('    %s}' % ('return 0; ' if rk != 'void' else ''))
            continue
        ro = roles(canon, h[1])
        ts, vs = [], []
        for (n, t), k in zip(h[1], ro):
            c = canon[k] if k is not None else None
            if t[0] == 'i':
                bits, sg = t[1], t[2]
                ts.append('uint64_t')
                v = '(uint64_t)%s' % c[0] if c else 'DIRTY'
                v = '(uint%d_t)(%s)' % (bits, v)
                if bits < 64:
                    if sg: v = '(uint32_t)(int32_t)(int%d_t)%s' % (bits, v)
                    v = '((uint64_t)(%s) | DIRTY)' % v
                vs.append(v)
            elif t[0] == 'f':
                ts.append('double' if t[1] == 64 else 'float')
                vs.append(c[0] if c and c[2] != P else '-77.0')
            else:
                ts.append('const void *')
                vs.append('(const void *)%s' % c[0] if c and c[2] != 'f' else '(const void *)DIRTY')
        hr = h[0]
        ret = {'ptr': 'void *', 'void': 'void', 'f': 'double', 'other': 'void'}.get(hr[0]) or '%sint%d_t' % ('' if hr[2] else 'u', hr[1])
        s.insert(-1, 'extern %s abi_%s(%s) __asm__("%s");' % (ret, name, ', '.join(ts) or 'void', name))
        call = 'abi_%s(%s)' % (name, ', '.join(vs))
        if rk == 'void': s.append('    %s; }' % call)
        elif ret == 'void': s.append('    %s; sym_check(0, 97); return 0; }' % call)
        else: s.append('    return (%s)%s; }' % (rt, call))
    s.append('#define SHAPES %d' % len(shape))
    s.append('static const unsigned char shape_ok[%d] = {%s};' % (len(shape), ', '.join(map(str, shape))))
    for n, (f, c) in RANGES.items():
        v = 255
        if f in H:
            canon = API[f][2]
            for (pn, t), k in zip(H[f][1], roles(canon, H[f][1])):
                if k is not None and canon[k][0] == c and t[0] == 'i': v = (1 << (t[1] - t[2])) - 1
        s.append('static const uint64_t %s = %dull;' % (n, v))
    open(out, 'w').write('\n'.join(s) + '\n')
