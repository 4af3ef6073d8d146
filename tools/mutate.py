"""Development aid, not used by any check: mutation testing of the checks.

usage: mutate.py PROP N [SEED]: N random mutants of the files of the property in scratch copies of $VERIF_REPO; the mutants which pass
the stable tests and the check are printed with their change, for triage (many are equivalent)."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
BASE = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SKIP = {'__repr__', '__str__', 'dump', '_logger', 'rotate_text'}

OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*', ast.BitOr: '&'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


class Finder(ast.NodeVisitor):
    """-> (lineno, col, end_lineno, end_col, new text)"""

    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        self.lines = src.splitlines(keepends=True)

    def text(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, n, new):
        self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new))

    def visit_FunctionDef(self, n):
        if n.name in SKIP:
            return
        self.stack.append(n)
        for x in n.body:
            self.visit(x)
            self.drop(x)
        self.stack.pop()

    def drop(self, x):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and 'logger' not in self.text(x) and 'print' not in self.text(x) and '__init__' not in self.text(x):
            self.add(x, 'pass')
        if isinstance(x, (ast.If, ast.For, ast.While, ast.With)):
            for y in x.body + getattr(x, 'orelse', []):
                self.drop(y)
        if isinstance(x, ast.AugAssign):
            self.add(x, 'pass')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if 'logger' in (self.text(n) or '') or 'print' in (self.text(n) or ''):
            return
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not self.stack:
            return
        op = OPS.get(type(n.op))
        if op and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            l, r = self.text(n.left), self.text(n.right)
            self.add(n, f'(({l}) {op} ({r}))')
            self.add(n, f'({l})')
            if isinstance(n.op, (ast.Sub, ast.Div)):
                self.add(n, f'(({r}) {"-" if isinstance(n.op, ast.Sub) else "/"} ({l}))')

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not self.stack:
            return
        if len(n.ops) == 1:
            self.add(n, f'({self.text(n.left)} {CMP[type(n.ops[0])]} {self.text(n.comparators[0])})')
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.add(n, f'(abs({self.text(n.left)}) {">" if isinstance(n.ops[0], (ast.Gt, ast.GtE)) else "<"} {self.text(n.comparators[0])})')

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if not self.stack:
            return
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join(f'({self.text(v)})' for v in n.values) + ')')
        self.add(n, f'({self.text(n.values[0])})')
        self.add(n, f'({self.text(n.values[-1])})')

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if self.stack:
            self.add(n, f'({self.text(n.operand)})')

    def visit_Constant(self, n):
        if not self.stack:
            return
        if isinstance(n.value, bool):
            self.add(n, repr(not n.value))
        elif isinstance(n.value, (int, float)):
            self.add(n, f'({n.value} + 1)')
            if n.value not in (0,):
                self.add(n, '0')

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.stack:
            self.add(n, f'({self.text(n.body)})')
            self.add(n, f'({self.text(n.orelse)})')

    def visit_If(self, n):
        self.generic_visit(n)
        if self.stack:
            self.add(n.test, 'False')
            if n.orelse:
                self.add(n.test, 'True')

    def visit_Call(self, n):
        self.generic_visit(n)
        if not self.stack:
            return
        t = self.text(n)
        if 'logger' in t:
            return
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and self.text(n.func) not in ('isinstance', 'getattr', 'hasattr', 'zip'):
            a, b = map(self.text, n.args)
            self.add(n, f'{self.text(n.func)}({b}, {a})')
        if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ('clone', 'normalise', 'to_normalised', 'copy', 'lower', 'upper', 'reverse', 'strip'):
            self.add(n, self.text(n.func.value))
        if isinstance(n.func, ast.Name) and n.func.id in ('abs', 'float', 'int', 'sorted', 'reversed', 'max', 'min', 'bool'):
            self.add(n, f'({self.text(n.args[0])})' if n.func.id not in ('max', 'min') else {'max': 'min', 'min': 'max'}[n.func.id] + t[3:])


def mutants(rel):
    src = open(os.path.join(BASE, rel)).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    return [(rel,) + m for m in f.out]


def apply(src, m):
    _, l1, c1, l2, c2, new = m
    lines = [x.encode() for x in src.splitlines(keepends=True)]
    tail = lines[l2 - 1][c2:]
    head = lines[l1 - 1][:c1]
    lines[l1 - 1:l2] = [head + new.encode() + tail]
    return b''.join(lines).decode()


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    only = sys.argv[4] if len(sys.argv) > 4 else ''
    import json
    files = None
    for line in open('/verif/properties.jsonl'):
        d = json.loads(line)
        if d['id'] == prop:
            files = d['anchor'] if isinstance(d.get('anchor'), list) else None
            break
    import re
    src = open(f'/verif/props/{prop}.py').read()
    files = sorted(set(re.findall(r"'(Patro/[\w/]+\.py)'", src)))
    if not files:
        files = []
    users = {}
    for x in sorted(os.listdir('/verif/props')):
        if re.match(r'C\d\d\.py$', x):
            for f in set(re.findall(r"'(Patro/[\w/]+\.py)'", open('/verif/props/' + x).read())):
                users.setdefault(f, []).append(x[:3])
    for f, qs in (('Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py', ['C36', 'C37']), ('Patro/GraphicEngine/GraphicScene/GraphicItem.py', ['C36', 'C37']),
                  ('Patro/GeometryEngine/Segment.py', ['C04', 'C08']), ('Patro/GeometryEngine/Transformation.py', ['C04', 'C21']), ('Patro/GeometryEngine/Conic.py', ['C04', 'C19']),
                  ('Patro/GeometryEngine/Mixin.py', ['C04', 'C19']), ('Patro/GeometryEngine/Path.py', ['C19', 'C20'])):
        users[f] = users.get(f, []) + [q for q in qs if q not in users.get(f, [])]
    pool = [m for f in files if os.path.exists(os.path.join(BASE, f)) for m in mutants(f) if only in f]
    rnd.shuffle(pool)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    done = killed = tests = 0
    for m in pool:
        if done >= n:
            break
        tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp')
        copy = tmp + '/repo'
        subprocess.run(['cp', '-a', BASE, copy], check=True)
        p = os.path.join(copy, m[0])
        s = open(p).read()
        t = apply(s, m)
        try:
            ast.parse(t)
        except SyntaxError:
            shutil.rmtree(tmp)
            continue
        open(p, 'w').write(t)
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE='1', QT_QPA_PLATFORM='offscreen', MPLBACKEND='Agg')
        r = subprocess.run([PY, '-m', 'pytest', 'unit-test', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                            f'--junitxml={tmp}/j.xml'], cwd=copy, env=env, capture_output=True, text=True)
        import xml.etree.ElementTree as ET
        try:
            ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(f'{tmp}/j.xml').iter('testcase') if not len(c)}
        except Exception:
            ok = set()
        if stable - ok:
            tests += 1
            shutil.rmtree(tmp)
            continue
        rc, by = 0, None
        for q in [prop] + [x for x in users.get(m[0], []) if x != prop]:
            try:
                r = subprocess.run(['./check', q], cwd='/verif', env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=tmp, VERIF_FAST='1'), capture_output=True, text=True, timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
                continue
            if rc == 1 and 'VIOLATION' in r.stdout:
                by = q
                break
        done += 1
        if by:
            killed += 1
        else:
            diff = subprocess.run(['git', 'diff', '-U1'], cwd=copy, capture_output=True, text=True).stdout
            lines = [x for x in diff.splitlines() if x[:1] in '+-@' and x[:3] not in ('+++', '---')]
            print(f'SURVIVED {prop} {m[0]}:{m[1]} rc={rc} {users.get(m[0])}', *lines, sep='\n  ', flush=True)
        shutil.rmtree(tmp)
    print(f'{prop}: {killed}/{done} killed, {tests} by the tests, {len(pool)} possible', flush=True)


main()
