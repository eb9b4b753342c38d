"""The JavaScript front end of the checks: syntax trees from /repo's current sources, harnesses from harness/js."""
import os, json, glob, subprocess
from . import js
from .sym import S, PathEnd
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness', 'js')
REPO = os.environ.get('IPR_REPO', '/repo')
WEB = 'image-palette-recoloring-web/src/js'


class Module:
    def __init__(self, funcs): self.funcs = funcs


class Loader:
    """what explore.py needs of a linker"""
    def __init__(self):
        files = sorted(glob.glob(HARNESS + '/*.js')) + sorted(glob.glob(os.path.join(REPO, WEB, '**', '*.js'), recursive=True))
        p = subprocess.run(['node', os.path.join(HARNESS, 'parse.cjs')] + files, stdout=subprocess.PIPE, check=True)
        self.asts = json.loads(p.stdout)
        self.scripts = [f for f in files if f.startswith(HARNESS)]
        self.encoded = {}
        names = set()
        for f in self.scripts:
            for s in self.asts[f]['ast']['body']:
                if s['type'] == 'ExpressionStatement' and s['expression']['type'] == 'AssignmentExpression' and s['expression']['left'].get('type') == 'MemberExpression':
                    names.add(s['expression']['left']['property']['name'])
        self.mods = [Module(names)]
        self.ns = {n: (lambda case, n=n: self.run(n, case)) for n in names}

    def pyname(self, mod, fn): return fn

    def pregen(self, names): pass

    def run(self, name, case):
        it = js.Interp(self.asts, REPO, self.encoded)
        for f in self.scripts: it.load_script(f)
        try:
            p = it.call(it.G.v[name], js.U, [case])
            it.loop(p)
        except js.JSThrow as e:
            raise PathEnd('panic', it.describe(e.v))
        if p.state == 'rejected': raise PathEnd('panic', it.describe(p.value))


def native():
    return ['node', '--experimental-vm-modules', '--no-warnings', os.path.join(HARNESS, 'run.cjs'), REPO]
