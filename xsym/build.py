"""Builds the symbolic and the native form of the harnesses from /repo's current source."""
import os, re, json, subprocess, sys, glob, fcntl, time, shutil
from . import capi
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OUT = os.environ.get('XSYM_BUILD', os.path.join(VERIF, '.build'))
H = os.path.join(VERIF, 'harness')
TC = 'stable-x86_64-unknown-linux-gnu'
LLVM = os.path.expanduser('~/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin' % TC)
RUSTFLAGS = '-C save-temps -C no-vectorize-loops -C no-vectorize-slp -A unexpected_cfgs'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout.decode('utf8', 'replace')


def cargo_env(tgt, feats):
    e = dict(os.environ)
    flags = RUSTFLAGS + (' --cfg ipr_verif' if 'hooks' in feats else '')
    e.update(CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TC, RUSTFLAGS=flags,
             CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')
    e.pop('CARGO_RESOLVER_LOCKFILE_PATH', None)
    return e


def crate_files():
    """the harness crate is built from a copy, so that cargo cannot touch the committed lock file"""
    d = os.path.join(OUT, 'harness')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(H, d, ignore=shutil.ignore_patterns('target'))
    return d


def clang_ir(files, inc, out, std):
    bcs = []
    procs = []
    os.makedirs(out, exist_ok=True)
    for f in files:
        o = os.path.join(out, os.path.basename(f) + '.bc')
        bcs.append(o)
        procs.append((f, subprocess.Popen(['clang-18', *std, '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-c', '-emit-llvm', '-w',
                                           *inc, f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for f, p in procs:
        t = p.communicate()[0]
        if p.returncode: raise BuildError('clang %s\n%s' % (f, t.decode('utf8', 'replace')[-3000:]))
    return bcs


def c_files():
    s = open(REPO + '/qhull-sys/build.rs').read()
    return [os.path.join(REPO, 'qhull-sys', f) for f in re.findall(r'"([^"\n]+\.c)"', s)]


# what the harnesses need from /repo: hooks (private items), the C API sources, the command line's parser
FEATURES = [('hooks', 'capi', 'cli'), ('hooks', 'capi'), ('capi', 'cli'), ('hooks', 'cli'), ('capi',), ('hooks',), ()]


def build(log=None):
    """returns {'ir': [(module name, path)], 'native': path, 'seconds': s, 'features': [...]}"""
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        first = None
        for feats in FEATURES:
            # an item that one group of harnesses refers to may be gone: go on with the others
            try:
                r = _build(t0, feats)
                r['features'] = list(feats)
                with open(os.path.join(OUT, 'info.json'), 'w') as f: json.dump(r, f)
                return r
            except BuildError as e:
                first = first or e
        raise first
    finally:
        lock.close()


def cached():
    """the result of the last build (for development only)"""
    return json.load(open(os.path.join(OUT, 'info.json')))


def _build(t0, feats):
    d = crate_files()
    tgt = os.path.join(OUT, 'target')
    for f in glob.glob(tgt + '/release/deps/ipr_harness-*') + glob.glob(tgt + '/release/deps/*ipr_harness*.a'): os.unlink(f)
    cargo = subprocess.Popen(['cargo', 'build', '--release', '--offline', '--manifest-path', d + '/Cargo.toml',
                              '--no-default-features', '--features', ','.join(feats)],
                             env=cargo_env(tgt, feats), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        inc = ['-I', REPO + '/qhull-sys/qhull/src', '-I', REPO + '/image-palette-recoloring-c']
        bcs = clang_ir(c_files(), inc, os.path.join(OUT, 'qh'), ['-ansi'])
        run(['llvm-link-18', *bcs, '-o', OUT + '/qhull.bc'])
        run(['llvm-dis-18', OUT + '/qhull.bc', '-o', OUT + '/qhull.ll'])
        ir = [('qhull', OUT + '/qhull.ll')]
    finally:
        t = cargo.communicate()[0].decode('utf8', 'replace')
    if cargo.returncode: raise BuildError(t[-6000:])
    bc = glob.glob(tgt + '/release/deps/ipr_harness-*.lto.after-restriction.bc')
    if len(bc) != 1: raise BuildError('no IR: %r' % bc)
    r1 = subprocess.Popen([LLVM + '/opt', '-passes=internalize,globaldce,default<O1>,globaldce,strip', '-internalize-public-api-list=h_*,' + ','.join(['capi_*', *capi.API]),
                           bc[0], '-o', OUT + '/rust.bc'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = r1.communicate()[0]
    if r1.returncode: raise BuildError(t.decode()[-3000:])
    run([LLVM + '/llvm-dis', OUT + '/rust.bc', '-o', OUT + '/rust.ll'])
    # the C side of the harnesses; the client of the C API knows the library by its header only
    helpers = [H + '/c/qh.c', H + '/c/fake.c'] + ([H + '/c/capi.c'] if 'capi' in feats else [])
    gen = OUT + '/gen'
    os.makedirs(gen, exist_ok=True)
    inc += ['-I', gen]
    if 'capi' in feats:
        capi.write(REPO + '/image-palette-recoloring-c/image-palette-recoloring.h', open(OUT + '/rust.ll').read(), gen + '/capi_calls.h')
    nat = OUT + '/replay'
    link = subprocess.Popen(['gcc', '-O1', '-g', '-w', '-rdynamic', '-std=gnu11', *inc, H + '/c/replay.c', *helpers, '-Wl,--whole-archive', tgt + '/release/libipr_harness.a',
                             '-Wl,--no-whole-archive', '-o', nat, '-lm', '-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        for f, bc in zip(helpers, clang_ir(helpers, inc, os.path.join(OUT, 'ch'), ['-std=gnu11'])):
            run(['llvm-dis-18', bc, '-o', bc[:-3] + '.ll'])
            ir.append((os.path.basename(f)[:-2], bc[:-3] + '.ll'))
    finally:
        t = link.communicate()[0]
    if link.returncode: raise BuildError(t.decode('utf8', 'replace')[-3000:])
    return {'ir': [('rust', OUT + '/rust.ll')] + ir, 'native': nat, 'seconds': time.time() - t0}


if __name__ == '__main__':
    print(build())
