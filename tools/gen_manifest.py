"""writes MANIFEST.json from xsym/checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from xsym import checks
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
}
out = {
    'version': 1,
    'setup_cmd': 'python3-vt -m xsym.build',
    'hooks': {'guard': 'cfg(ipr_verif)', 'enable': 'RUSTFLAGS="--cfg ipr_verif" when the harness crate is built', 'source_commits': ['c35a0f5', '1e57d52']},
    'checks': [], 'not_applicable': [],
}
for p in props:
    s = checks.PROPS.get(p)
    if s is None:
        out['not_applicable'].append({'property': p, 'reason': NA[p]})
        continue
    out['checks'].append({
        'property': p,
        'quick_cmd': 'python3-vt -m xsym.check %s --tier quick' % p,
        'thorough_cmd': 'python3-vt -m xsym.check %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': s.get('technique', 'symbolic execution of the LLVM IR (Rust and C) with SMT and exact linear / univariate decisions'),
        'level': 'model_checking',
        'level_note': 'Within the bounds: ' + s['bounds'] + '. Outside: ' + s['outside'] +
        ' Trusted: the executor (checked by replaying completed paths natively), clang/rustc IR, z3 (exact Farkas / Sturm decisions are self-checked).',
    })
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(out, f, indent=1); f.write('\n')
