"""Path exploration driver: runs a harness entry point over all symbolic paths using forked processes."""
import os, sys, time, json, mmap, signal, traceback, shutil, tempfile, resource
from fractions import Fraction
from . import sym, mem
from .sym import S, PathEnd, Unsupported, SBool, SInt, SReal


class Timeout(Exception):
    pass


def _vtalrm(*a):
    raise PathEnd('timeout', 'path exceeded its CPU limit')


def obs_values(m):
    out = []
    for kind, iid, x in S.obs:
        if isinstance(x, (SInt, SReal)): v = x.p.ev(m)
        elif isinstance(x, SBool): v = int(x.ev(m))
        else: v = x
        try:
            out.append([kind, iid, float(v)])
        except OverflowError:
            out.append([kind, iid, 0.0])
    return out


def run_path(fn, args):
    r = {}
    try:
        fn(*args)
        r['status'] = 'done'
    except PathEnd as e:
        r['status'] = e.status; r['msg'] = str(e.msg)
        if e.status == 'unsupported': r['tb'] = traceback.format_exc()[-700:]
        if e.status == 'memory' or e.status == 'ub': pass
    except RecursionError:
        r['status'] = 'unsupported'; r['msg'] = 'recursion'
    except IndexError as e:
        r['status'] = 'memory'; r['msg'] = 'wild address (%s)' % e
        r['tb'] = traceback.format_exc()[-600:]
    except MemoryError:
        r['status'] = 'unsupported'; r['msg'] = 'memory'
    except Exception as e:
        r['status'] = 'unsupported'; r['msg'] = 'engine: %r' % e
        r['tb'] = traceback.format_exc()[-1500:]
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return r


def finish(r):
    """collect what the path established"""
    try:
        try:
            if r['status'] != 'infeasible': S.flush()
        except PathEnd as e:
            r['finish'] = str(e.msg)
        r['checks'] = S.checks
        r['violations'] = S.violations
        r['unknown'] = S.unknown_checks
        r['reach'] = sorted(S.reach)
        r['nonlin'] = S.nonlin if hasattr(S, 'nonlin') else 0
        if r['status'] not in ('assume', 'infeasible'):
            m = None
            if r['status'] in ('done', 'failed'):
                m = S.pathmodel(Fraction(1, 10 ** 6)) if S.cfg.get('replay_margin', True) else None
                r['robust'] = m is not None
            if m is None: m = S.witness()
            if m is not None:
                r['inputs'] = S.inputs_of(m)
                r['obs'] = obs_values(m)
        r['pc'] = len(S.pc)
    except PathEnd as e:
        r['finish'] = str(e.msg)
    except Exception as e:
        r['finish'] = repr(e); r['tb2'] = traceback.format_exc()[-1500:]
    r['nlp'] = S.nlp; r['nq'] = S.nq; r['tq'] = S.tq; r['nun'] = S.nun; r['ndec'] = S.ndec; r['nfork'] = S.nfork
    return r


class Start:
    """one running exploration (in its own process group)"""
    def __init__(self, linker, fname, args, cfg, pipe=None):
        self.cfg = cfg
        self.resdir = tempfile.mkdtemp(prefix='xsym')
        self.shm = mmap.mmap(-1, 4096)
        self.t0 = time.time()
        self.killed = False; self.stopped = False; self.status = None
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                _root(linker, fname, args, cfg, self.resdir, self.shm, pipe)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)

    def poll(self):
        if self.status is not None: return True
        p, st = os.waitpid(self.pid, os.WNOHANG)
        if p:
            self.status = st
            return True
        t = time.time() - self.t0
        if t > self.cfg.get('wall', 600) and not self.stopped:
            self.stopped = True
            self.shm[8] = 1
        if t > self.cfg.get('wall', 600) + self.cfg.get('grace', 15):
            self.kill()
            return True
        return False

    def kill(self):
        self.killed = True
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError: pass
        os.waitpid(self.pid, 0)
        self.status = 0

    def results(self):
        out = []
        enc = {}
        for f in sorted(os.listdir(self.resdir)):
            try:
                with open(os.path.join(self.resdir, f)) as h: r = json.load(h)
            except ValueError:
                continue
            if f.startswith('enc'): enc.update(r); continue
            out.append(r)
        shutil.rmtree(self.resdir, ignore_errors=True)
        info = {'killed': self.killed, 'stopped': self.stopped, 'encoded': enc,
                'crashed': (not self.killed) and self.status != 0, 'wall': time.time() - self.t0}
        return out, info


def token_pipe(n):
    r, w = os.pipe()
    os.set_blocking(r, False)
    for _ in range(n): os.write(w, b't')
    return r, w


def explore(linker, fname, args, cfg):
    """returns a list of path results"""
    st = Start(linker, fname, args, cfg)
    while not st.poll(): time.sleep(0.01)
    return st.results()


def _root(linker, fname, args, cfg, resdir, shm, pipe):
    sys.setrecursionlimit(100000)
    S.cfg = cfg
    S.nl_timeout = cfg.get('nl_timeout', 20)
    S.shm = shm
    S.resdir = resdir
    # a process that runs holds a token; with a shared pipe the caller took the root's
    S.has_token = pipe is not None
    S.token_r, S.token_w = pipe or token_pipe(cfg.get('jobs', 1) - 1)
    S.children = []
    S.newpaths()
    signal.signal(signal.SIGVTALRM, _vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cfg.get('path_cpu', 300))
    mods = [m for m in linker.mods if fname in m.funcs]
    name = linker.pyname(mods[0], fname)
    fn = linker.ns[name]
    res = run_path(lambda *a: linker.ns[name](*a), args)
    finish(res)
    res['id'] = os.getpid()
    with open(os.path.join(resdir, 'p%d.json' % os.getpid()), 'w') as h: json.dump(res, h, default=str)
    with open(os.path.join(resdir, 'enc%d.json' % os.getpid()), 'w') as h: json.dump(linker.encoded, h)
    # the CPU slot is free now; children may still run
    if S.has_token:
        os.write(S.token_w, b't')
    for c in S.children:
        os.waitpid(c, 0)
