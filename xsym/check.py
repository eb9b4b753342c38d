"""check.py PROPERTY [--tier quick|thorough] [--case harness:case]...

Builds the harnesses from /repo's current tree, explores the cases of one property symbolically,
replays every candidate violation on the native build and reports those that reproduce."""
import os, sys, time, json, glob, subprocess, tempfile, shutil, random, re, signal
from collections import Counter
from . import build, checks
VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
JOBS = int(os.environ.get('XSYM_JOBS', '8'))
BAD = ('panic', 'crash', 'memory', 'ub')
QUIET = ('done', 'failed', 'assume', 'ended', 'infeasible')


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self, exe, tmp):
        self.exe = exe; self.tmp = tmp; self.n = 0; self.seconds = 0.0

    def run(self, harness, case, inputs, memory=False, leak=False, limit=60):
        """returns (verdict, text, observations); verdict: ok, check, crash, memory, hang, assume, noinput"""
        self.n += 1
        f = os.path.join(self.tmp, 'in%d' % self.n)
        with open(f, 'w') as h:
            for i in inputs:
                if i[0] == 'f64': h.write('f %s\n' % i[-1])
                else: h.write('u %d\n' % int(i[-1]))
        cmd = (self.exe if isinstance(self.exe, list) else [self.exe]) + [harness, str(case), f]
        if memory or leak:
            cmd = ['valgrind', '-q', '--error-exitcode=77', '--undef-value-errors=no'] + \
                (['--leak-check=full', '--show-leak-kinds=definite', '--errors-for-leak-kinds=definite'] if leak else []) + cmd
        t0 = time.time()
        env = dict(os.environ, RUST_BACKTRACE='0')
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return 'hang', 'no end within %d s' % limit, []
        finally:
            self.seconds += time.time() - t0
            os.unlink(f)
        out = p.stdout.decode('latin1'); err = p.stderr.decode('latin1')[-1500:]
        obs = [l.split()[1:] for l in out.splitlines() if l.startswith('OBS')]
        bad = [l for l in out.splitlines() if l.startswith('CHECK')]
        text = '\n'.join(bad[:20]) + ('\n' + err if err else '')
        if bad: return 'check', text, obs      # (also when the run would go on past the inputs that led here)
        if 'NOINPUT' in out: return 'noinput', text, obs
        if p.returncode == 77 and (memory or leak): return 'memory', text, obs
        if 'ASSUME' in out: return 'assume', text, obs
        if p.returncode < 0 or p.returncode not in (0, 1): return 'crash', 'exit status %d\n%s' % (p.returncode, text), obs
        if 'DONE' not in out: return 'crash', 'ended early, status %d\n%s' % (p.returncode, text), obs
        return 'ok', text, obs


def same_obs(a, b):
    if len(a) != len(b): return False
    for (k, i, x), y in zip(a, b):
        if int(y[0]) != i: return False
        y = float(y[1])
        if not abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)): return False
    return True


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r'known: property=(\S+) harness=(\S+) case=(\S+) kind=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out


def is_known(known, harness, case, kind):
    for h, c, k, text in known:
        if h == harness and c in ('*', str(case)) and kind in k.split(','): return text
    return None


# ------------------------------------------------------------------ exploration
def load(info):
    from . import rt, ir, libc
    L = rt.Linker()
    libc.install(L)
    for n, p in info['ir']: L.add(ir.Module(n, open(p).read(), L))
    return L


def available(L, fn):
    return any(fn in m.funcs for m in L.mods)


def explore_all(L, jobs, tier, deadline):
    """yields (job, results, info) as they finish"""
    from . import explore
    pipe = explore.token_pipe(JOBS)
    todo = list(jobs); running = []
    try:
        yield from _explore_all(todo, running, L, tier, deadline, pipe)
    finally:
        for j, st in running:
            if st.status is None: st.kill()
            shutil.rmtree(st.resdir, ignore_errors=True)


def _explore_all(todo, running, L, tier, deadline, pipe):
    from . import explore
    while todo or running:
        left = deadline - time.time()
        while todo and left > 5:
            try:
                if not os.read(pipe[0], 1): break
            except BlockingIOError:
                break
            j = todo.pop(0)
            cfg = {'path_cpu': 60 if tier == 'quick' else 600, 'wall': min(j[2], left), 'grace': 10,
                   'nl_timeout': 20 if tier == 'quick' else 120, 'max_paths': 50000}
            running.append((j, explore.Start(L, j[0], [j[1]], cfg, pipe)))
        if todo and left <= 5:
            for j in todo: yield j, None, None
            todo = []
        time.sleep(0.01)
        rest = []
        for j, st in running:
            if st.poll():
                if st.killed:
                    # tokens of killed processes are lost; give the pipe its slots back at the end
                    lost = True
                out, info = st.results()
                yield j, out, info
                if st.killed: _refill(pipe, running, j)
            else: rest.append((j, st))
        running[:] = rest


def _refill(pipe, running, j):
    # with nothing else running all tokens must be back
    others = [s for (k, s) in running if k is not j and s.status is None]
    if others:
        # at least one token was held by the killed exploration
        os.write(pipe[1], b't'); return
    n = 0
    try:
        while os.read(pipe[0], 1): n += 1
    except BlockingIOError:
        pass
    for _ in range(JOBS): os.write(pipe[1], b't')


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', action='append'); ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-build', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    spec = checks.PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    if spec.get('engine') == 'js':
        from . import jscheck
        info = {'native': jscheck.native(), 'features': ['js']}
        tb = 0.0
        L = jscheck.Loader()
    else:
        try:
            info = build.cached() if a.no_build else build.build()
        except build.BuildError as e:
            say('BUILD FAILED\n' + str(e)[-4000:])
            sys.exit(2)
        tb = time.time() - t0
        L = load(info)
    jobs = checks.jobs(prop, tier)
    if a.case:
        jobs = []
        for c in a.case:
            h, k = c.split(':')
            for r in k.split(','):
                lo, _, hi = r.partition('-')
                jobs += [(h, i, 600) for i in range(int(lo), int(hi or lo) + 1)]
    missing = sorted({j[0] for j in jobs if not available(L, j[0])})
    jobs = [j for j in jobs if j[0] not in missing]
    L.pregen(sorted({j[0] for j in jobs}))
    tl = time.time() - t0
    budget = spec.get('budget', {}).get(tier) or (500 if tier == 'quick' else 5400)
    tmp = tempfile.mkdtemp(prefix='xsymr')
    try:
        code = run(prop, tier, spec, info, L, jobs, missing, t0, tb, tl, budget, tmp, a.verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, spec, info, L, jobs, missing, t0, tb, tl, budget, tmp, verbose):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rng = random.Random(seed)
    native = Native(info['native'], tmp)
    known = known_findings(prop)
    found = []; known_hit = {}
    tot = Counter(); stat = Counter(); checks_n = Counter(); enc = {}
    per_case = []; undecided = []; unconfirmed = []; mismatches = []
    samples = []; nval = 0; tq = 0.0; uncovered = []
    maxpc = 0

    def candidate(job, kind, what, inputs, memory=False, leak=False):
        """replay; True if it reproduces"""
        h, c = job[0], job[1]
        for inp in inputs[:4]:
            v, text, _ = native.run(h, c, inp, memory=memory, leak=leak, limit=120 if memory or leak else 60)
            if v in ('check', 'crash', 'memory', 'hang'):
                k = is_known(known, h, c, kind)
                if k is not None:
                    known_hit[(h, c, kind)] = k
                    return True
                found.append({'harness': h, 'case': c, 'kind': kind, 'what': what, 'replay': v, 'inputs': inp, 'output': text})
                return True
        unconfirmed.append({'harness': h, 'case': c, 'kind': kind, 'what': what, 'inputs': inputs[:1]})
        return False

    cut = 0
    work = explore_all(L, jobs, tier, t0 + budget)
    for job, out, jinfo in work:
        if found:
            # a reproduced violation decides; the rest is not explored
            work.close()
            cut = 1
            break
        h, c = job[0], job[1]
        if out is None:
            uncovered.append('%s:%s not started' % (h, c)); continue
        enc.update(jinfo['encoded'])
        st = Counter(r['status'] for r in out)
        stat.update(st)
        reach = Counter(x for r in out for x in r.get('reach', []))
        done = st['done'] + st['failed'] + st['ended']
        ncand = 0
        seen = Counter()
        for r in out:
            tot['paths'] += 1
            tot['queries'] += r['nq']; tot['decisions'] += r['ndec']; tot['forks'] += r['nfork']; tot['unknown'] += r['nun']
            tq += r['tq']; maxpc = max(maxpc, r.get('pc', 0))
            for k, n in r.get('checks', {}).items(): checks_n[int(k)] += n; tot['discharged'] += n
            for k in r.get('unknown', []): undecided.append('%s:%s assertion %s' % (h, c, k))
            for v in r.get('violations', []):
                k = 'check%s' % v['check']
                seen[k] += 1
                if seen[k] > 3: continue
                leak = int(v['check']) >= 900
                candidate(job, k, v['msg'], v['inputs'], leak=leak); ncand += 1
            if r['status'] in BAD:
                k = r['status']
                seen[k] += 1
                if seen[k] <= 3 and r.get('inputs') is not None:
                    candidate(job, k, r.get('msg', ''), [r['inputs']], memory=k in ('memory', 'ub')); ncand += 1
                elif r.get('inputs') is None: undecided.append('%s:%s %s without a model' % (h, c, k))
            elif r['status'] == 'timeout' and r.get('inputs') is not None:
                seen['timeout'] += 1
                ok = False
                if seen['timeout'] <= 1:
                    v, text, _ = native.run(h, c, r['inputs'], limit=60)
                    if v == 'hang': ok = candidate(job, 'hang', 'does not end', [r['inputs']])
                if not ok: uncovered.append('%s:%s a path exceeded its limit' % (h, c))
            elif r['status'] not in QUIET and r['status'] not in BAD:
                uncovered.append('%s:%s %s: %s' % (h, c, r['status'], str(r.get('msg'))[:200]))
            if 'finish' in r: tot['finish'] += 1
        if jinfo['stopped'] or jinfo['killed']: uncovered.append('%s:%s out of time' % (h, c))
        if jinfo['crashed']: uncovered.append('%s:%s engine process failed' % (h, c))
        # validate the model: replay some completed paths natively and compare what they observe
        dones = [r for r in out if r['status'] == 'done' and r.get('inputs') is not None and not r.get('violations')]
        rng.shuffle(dones)
        dones.sort(key=lambda r: not r.get('robust'))
        for r in dones[:2 if tier == 'quick' else 6]:
            v, text, obs = native.run(h, c, r['inputs'])
            if v == 'ok' and same_obs(r.get('obs', []), obs): nval += 1
            else: mismatches.append({'harness': h, 'case': c, 'replay': v, 'robust': r.get('robust'), 'inputs': r['inputs'], 'output': text[:300]})
            if len(samples) < 12 and (r['inputs'] or not samples): samples.append({'harness': h, 'case': c, 'inputs': r['inputs'], 'replay': v})
        if not done and not ncand and not any(s.startswith('%s:%s ' % (h, c)) for s in uncovered): uncovered.append('%s:%s nothing satisfies the assumptions' % (h, c)) if not spec.get('vacuous_ok') else None
        per_case.append('%s:%s %.1fs %s reach %s' % (h, c, jinfo['wall'], dict(st), dict(reach)))
        if verbose: say(per_case[-1], 'CAND %d' % ncand if ncand else '')
    wall = time.time() - t0
    if cut: uncovered.append('stopped at the first reproduced violation')
    for m in missing: uncovered.append('%s not built' % m)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2),
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions'],
            'traces_validated_against_impl': nval, 'samples': samples,
            'method': spec.get('method', 'symbolic execution of the LLVM IR of /repo (regenerated in this run); z3 decides every branch and assertion'),
            'bounds': spec['bounds'], 'outside': spec['outside'],
            'cases': per_case, 'path_status': dict(stat), 'assertions_discharged': tot['discharged'],
            'assertions': {str(k): v for k, v in sorted(checks_n.items())},
            'solver_queries': tot['queries'], 'solver_seconds': round(tq, 2), 'solver_unknown': tot['unknown'],
            'longest_path_condition': maxpc,
            'functions_encoded': len(enc), 'functions': sorted(short(f) for f in enc)[:400],
            'undecided': undecided[:50], 'not_covered': uncovered[:60],
            'candidates_not_reproduced': unconfirmed[:10], 'model_mismatches': mismatches[:10], 'mismatch_count': len(mismatches),
            'native_replays': native.n, 'build_seconds': round(tb, 1), 'load_seconds': round(tl - tb, 1),
            'known_findings': ['%s:%s %s' % k for k in known_hit],
            'features': info.get('features'),
        },
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    say('%s %s: %d cases, %d paths, %d assertions discharged, %d queries, %.0f s' % (prop, tier, len(per_case), tot['paths'], tot['discharged'], tot['queries'], wall))
    if uncovered: say('not covered: ' + '; '.join(sorted(set(uncovered))[:8]))
    if undecided: say('undecided: %d' % len(undecided))
    if mismatches: say('model/native mismatches on completed paths: %d' % len(mismatches))
    if unconfirmed: say('candidates that do not reproduce natively: %d (%s)' % (len(unconfirmed), ', '.join(sorted({'%s:%s %s' % (u['harness'], u['case'], u['kind']) for u in unconfirmed})[:5])))
    for (h, c, k), text in known_hit.items():
        say('KNOWN-FINDING: property=%s %s:%s %s: %s' % (prop, h, c, k, text))
    if found:
        rd = os.path.join(EVID, 'replay'); os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, prop + '.txt')
        with open(p, 'w') as f:
            for v in found:
                f.write('property %s harness %s case %s %s: %s\nnative replay: %s\n%s\ninputs (in order of use):\n' % (prop, v['harness'], v['case'], v['kind'], v['what'], v['replay'], v['output']))
                for i in v['inputs']:
                    f.write('f %s    (%r)\n' % (i[-1], float.fromhex(i[-1])) if i[0] == 'f64' else 'u %d\n' % int(i[-1]))
                f.write('\n')
        for v in found[:3]: say('  %s:%s %s (%s) -> native %s: %s' % (v['harness'], v['case'], v['kind'], v['what'][:100], v['replay'], v['output'].strip().splitlines()[:2]))
        say('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, VERIF)))
        return 1
    return 0


def short(f):
    m = re.match(r'_ZN(.*)17h[0-9a-f]{16}E?$', f)
    if m: f = m.group(1)
    return f[:90]


if __name__ == '__main__':
    main()
