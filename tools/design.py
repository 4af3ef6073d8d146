"""Development aid: regenerate the per property section of DESIGN.md."""
import ast, glob, json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(HERE, 'DESIGN.md')).read().split('\n## Properties\n')[0]
out = [head, '\n## Properties\n', '\nAll checks: exact reals, oracle = the mathematical definition written in the harness.\n']
for path in sorted(glob.glob(os.path.join(HERE, 'props', 'C*.py'))):
    tree = ast.parse(open(path).read())
    d = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('META', 'BOUNDS', 'ASSUMPTIONS'):
            d[n.targets[0].id] = eval(compile(ast.Expression(n.value), path, 'eval'))
    m, pid = d['META'], os.path.basename(path)[:-3]
    hs = [f.name + (': ' + ast.get_docstring(f).split('\n')[0] if ast.get_docstring(f) else '') for f in tree.body
          if isinstance(f, ast.FunctionDef) and any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'harness' for x in f.decorator_list)]
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    out.append(f"\n### {pid} — {m['title']}\n\nQuantified over {m['quant']}. Bounds: {d.get('BOUNDS', '')}.\n")
    for a in d.get('ASSUMPTIONS', []):
        out.append(f'Assumption: {a}\n')
    out.append(f"Why tests cannot: {m['why']}.\nHarnesses: " + '; '.join(hs) + '.\n')
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out.append('\n' + open(tail).read())
    out.append('| bug | property | what it breaks | needs |\n|---|---|---|---|\n')
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(f))
        out.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |\n")
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
