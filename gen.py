"""Regenerate properties.jsonl and MANIFEST.json from the META of props/*.py (run by hand: python3 gen.py)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props, checks = [], []
for path in sorted(glob.glob(os.path.join(HERE, 'props', 'C*.py'))):
    tree = ast.parse(open(path).read())
    d = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('META', 'BOUNDS', 'ASSUMPTIONS'):
            d[n.targets[0].id] = eval(compile(ast.Expression(n.value), path, "eval"))
    if 'META' not in d:
        print('no META', path)
        continue
    m, pid = d['META'], os.path.basename(path)[:-3]
    assert len(m['title']) <= 80, (pid, len(m['title']))
    props.append({
        'id': pid, 'title': m['title'], 'statement': ' '.join(m['statement'].split()),
        'quantifier': {'over': m.get('over', ['inputs']), 'text': m['quant']},
        'why_tests_cant': m['why'],
        'anchors': {'files': m['files'], 'mechanism': [{'name': a, 'where': b} for a, b in m['mechanism']],
                    'observe_at': m.get('observe', []), 'hook_needed': None},
    })
    checks.append({
        'property': pid, 'quick_cmd': f'./check {pid}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {pid}',
        'evidence_file': f'evidence/{pid}.json',
        'technique': m.get('technique', 'symbolic execution of the imported Python modules on z3 terms, SMT deciding each assertion'),
        'level': 'model_checking',
        'level_note': ('Every assertion is decided by z3 (or by exact polynomial normal form) for all values of the symbolic '
                       'inputs on every explored path. Bounds: ' + d.get('BOUNDS', '') + '. Trusted: real arithmetic stands in '
                       'for floats, the primitives of engine/shims.py stand in for math/numpy. '
                       + ' '.join(d.get('ASSUMPTIONS', []))).strip(),
    })
na_path = os.path.join(HERE, 'not_applicable.json')
na = json.load(open(na_path)) if os.path.exists(na_path) else []
for n in na:
    props.append(n['property_record'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': n['property_record']['id'], 'reason': n['reason']} for n in na],
           'notes': 'No hook in /repo: the checks import /repo through an import hook (engine/loader.py).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')
