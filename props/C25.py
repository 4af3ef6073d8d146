"""Measurements and expressions."""
import itertools
import os
import tempfile

from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import sympy_expr
    STUBS['sympy'] = sympy_expr.MODULE
    STUBS['ast'] = sympy_expr.AST
except ImportError:     # replay
    sympy_expr = None

MODULES = ['Patro.Measurement.Measurement', 'Patro.Measurement.ValentinaMeasurement', 'Patro.Measurement.PersonalData', 'Patro.Pattern', 'Patro.Pattern.Calculator', 'Patro.Pattern.Pattern']
BOUNDS = ('sets of 3 measurements (4 in the thorough tier) with every assignment of names and every order of registration; expressions of at most 3 terms over '
          'points, measurements and custom measurements whose names are prefixes of each other; values of magnitude <= 10')
BOUNDS += '; also a chain of twelve measurements in three orders'
ASSUMPTIONS = ['sympy is modelled by exact arithmetic on expression trees: subs replaces the symbols one after the other in the order of their names, evalf(n) is exact up to 10^-n relative for n < 15',
               'names which sympy predefines (E, I, pi...) are not used']
META = dict(
    title='Measurements and expressions evaluate to the value of their formula',
    statement="""The value of a measurement given by a number or a formula over other measurements is the value of the formula, to full floating point precision, whatever the names of the
    measurements and the order of their registration (a formula can use measurements registered later); invalid and duplicate names are rejected. A set saved to YAML and loaded again has the same
    names, values, full names and descriptions. Custom Valentina measurements (@name) can be used in formulas by their name. An expression of a sketch evaluates to its formula over
    the measurements, custom measurements, Line_A_B (distance), AngleLine_A_B (direction in degrees) and CurrentLength, even when a name is the beginning of another one, and its dependencies are the
    points it uses; an unknown name gives None.""",
    quant='all values, names, registration orders and combinations of terms',
    why='textual substitutions of names go wrong for particular combinations of names; precision losses are below the tolerance of tests',
    files=['Patro/Measurement/Measurement.py', 'Patro/Measurement/ValentinaMeasurement.py', 'Patro/Pattern/Calculator.py'],
    mechanism=[('Measurement.value, MeasurementSet.subs', 'Patro/Measurement/Measurement.py'), ('Expression._compile', 'Patro/Pattern/Calculator.py')])
P = 'C25'
PERM3 = list(itertools.permutations(range(3)))


def mset():
    from Patro.Measurement.Measurement import MeasurementSet
    return MeasurementSet()


def close(ctx, a, b, label):
    if ctx.symbolic:
        ctx.eq(a, b, label)
    else:
        ctx.check(abs(a - b) <= 1e-9 * max(1, abs(b)), label)


@harness(P, params=[{'p': p} for p in PERM3], budget=20)
def chain(ctx, p):
    """r0 a number, r1 in function of r0, r2 of both: names and order of registration"""
    from Patro.Measurement.Measurement import MeasurementSet
    names = [ctx.choose('names', [('a', 'b', 'c'), ('hip', 'hip_b', 'h')])[i] for i in p]
    x, k = ctx.real('x', 0.1, 10), ctx.real('k', 0.1, 10)
    how = ctx.choose('how', ['number', 'text'])
    r1 = x * k + 1
    want = [x, r1, 2 * r1 - x / 3]
    defs = [x if how == 'number' else str(x), f'{names[0]}*{k} + 1', f'2*{names[1]} - {names[0]}/3']
    s = MeasurementSet()
    for i in ctx.choose('order', PERM3):
        s.add(names[i], defs[i])
    for i in ctx.choose('evaluation', [(0, 1, 2), (2, 1, 0)]):
        close(ctx, s[names[i]].value, want[i], f'value {i}')
        close(ctx, s[names[i]].__float__(), want[i], f'float {i}')
    ctx.is_([m.name for m in s.sorted_iter()], sorted(names), 'names')
    ctx.is_(len(list(s)), 3, 'number of measurements')


@harness(P, params=[{'p': p, '_tier': 'thorough'} for p in itertools.permutations(range(4))], budget_thorough=120)
def chain4(ctx, p):
    from Patro.Measurement.Measurement import MeasurementSet
    names = ['abcd'[i] for i in p]
    x, k = ctx.real('x', 0.1, 10), ctx.real('k', 0.1, 10)
    want = [x, k * x, k * x + x, (k * x + x) / 2 - k * x]
    defs = [x, f'{k}*{names[0]}', f'{names[1]} + {names[0]}', f'{names[2]}/2 - {names[1]}']
    s = MeasurementSet()
    for i in ctx.choose('order', list(itertools.permutations(range(4)))):
        s.add(names[i], defs[i])
    for i in range(4):
        close(ctx, s[names[i]].value, want[i], f'value {i}')


@harness(P, params=[{'order': o} for o in ('forward', 'reverse', 'shuffled')])
def chain12(ctx, order):
    """twelve measurements, each one in function of the previous ones; m1 is the beginning of m10"""
    from Patro.Measurement.Measurement import MeasurementSet
    x, k = ctx.real('x', 0.1, 10), ctx.real('k', 0.1, 10)
    want, defs = [x, k * x], [f'{x}', f'{k}*m1']
    for i in range(2, 12):
        want.append(want[i - 1] / 2 + want[i - 2])
        defs.append(f'm{i}/2 + m{i - 1}' if i % 2 else f'm{i - 1} + m{i}/2')
    r = list(range(12))
    r = dict(forward=r, reverse=r[::-1], shuffled=[5 * i % 12 for i in r])[order]
    s = MeasurementSet()
    for i in r:
        s.add(f'm{i + 1}', defs[i])
    for i in ctx.choose('evaluation', [(11, 0, 1, 9), (0, 9, 10, 11)]):
        close(ctx, s[f'm{i + 1}'].value, want[i], f'value {i + 1}')
    for i in range(12):
        close(ctx, s[f'm{i + 1}'].value, want[i], f'value {i + 1}')
    ctx.is_([m.name for m in s.sorted_iter()], sorted(f'm{i + 1}' for i in range(12)), 'names')


@harness(P)
def late(ctx):
    """evaluated before a measurement is registered: an error, then the value"""
    s = mset()
    x = ctx.real('x', -10, 10)
    s.add('b', 'a*2')
    if ctx.choose('twice', [False, True]):
        s.add('c', 'b+1')
    ctx.raises((TypeError, KeyError, NameError, ValueError), lambda: s.b.value, 'not yet defined')
    s.add('a', x)
    close(ctx, s.b.value, 2 * x, 'value')


@harness(P)
def names(ctx):
    s = mset()
    x = ctx.real('x', -10, 10)
    k = ctx.choose('k', ['space', 'invalid', 'duplicate'])
    if k == 'space':
        m = s.add('hip  line', x, 'full', 'text')
        ctx.is_((m.name, m.full_name, m.description), ('hip__line', 'full', 'text'), 'name')
        close(ctx, s['hip__line'].value, x, 'item')
        close(ctx, s.hip__line.value, x, 'attribute')
    elif k == 'invalid':
        for n in ('a-b', 'a.b', '@a', 'a+b', 'a('):
            ctx.raises(ValueError, lambda: s.add(n, x), n)
    else:
        s.add('a b', x)
        ctx.raises(NameError, lambda: s.add('a_b', 1), 'duplicate')
        close(ctx, s.a_b.value, x, 'unchanged')


@harness(P)
def yaml(ctx):
    from Patro.Measurement.Measurement import MeasurementSet
    if ctx.symbolic:
        sympy_expr.yaml_numbers()
    x, k = ctx.real('x', 0.1, 10), ctx.real('k', 0.1, 10)
    s = MeasurementSet()
    s.add('b', ctx.choose('how', [False, True]) and str(x) or x, 'Bé', '')
    s.add('a', f'b*{k}', '', 'desc')
    s.add('c', ctx.choose('integer', [3, '4']))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'm.yaml')
        s.save_as_yaml(p)
        r = MeasurementSet()
        r.load_yaml(p)
    ctx.is_([(m.name, m.full_name, m.description) for m in r], [('a', '', 'desc'), ('b', 'Bé', ''), ('c', '', '')], 'texts')
    close(ctx, r.b.value, x, 'number')
    close(ctx, r.a.value, x * k, 'formula')
    close(ctx, r.c.value, s.c.value, 'integer')


@harness(P)
def personal(ctx):
    """the data of the set are its own"""
    from Patro.Measurement.PersonalData import PersonalData, Gender
    from datetime import date, datetime
    s, t = mset(), mset()
    s.personal.first_name = 'Ann'
    ctx.is_((s.personal.first_name, t.personal.first_name), ('Ann', ''), 'first name')
    g = ctx.choose('gender', ['male', 'FEMALE', 'Unknown', 'particular'])
    how = ctx.choose('how', ['text', 'enum'])
    p = PersonalData(first_name='a', last_name='b', birth_date='1970-03-01', measurement_date='2018-01-02T12:00:00.5Z', gender=g if how == 'text' else Gender[g.upper()], email='e', comment='c')
    ctx.is_((p.first_name, p.last_name, p.birth_date, p.measurement_date, p.gender, p.email, p.comment),
            ('a', 'b', date(1970, 3, 1), datetime(2018, 1, 2, 12, 0, 0, 500000), Gender[g.upper()], 'e', 'c'), 'data')
    p.birth_date = date(2000, 1, 1)
    ctx.is_(p.birth_date, date(2000, 1, 1), 'date')
    p.birth_date = None
    ctx.is_(p.birth_date, None, 'no date')


def sketch(ctx, points, **measurements):
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.Pattern.Pattern import Pattern
    from Patro.GeometryEngine.Vector import Vector2D
    m = ValentinaMeasurements()
    for k, v in measurements.items():
        m.add(k, v if isinstance(v, str) else str(v))
    s = Pattern(m, 'cm').add_scope('p').sketch
    o = Vector2D(0, 0)
    for n, p in points.items():
        s.SinglePoint(n, p[0], p[1], o)
    s.eval()
    return s


@harness(P)
def custom_measurements(ctx):
    """formulas over custom measurements, iteration"""
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    m = ValentinaMeasurements()
    a, b = ctx.choose('names', [('@a', '@ab'), ('@ab', '@a')])
    m.add(a, str(x))
    m.add(b, f'{a}*2 + h')
    m.add('h', str(y))
    close(ctx, m[a].value, x, 'number')
    close(ctx, m[b].value, 2 * x + y, 'formula')
    ctx.is_((m[a].is_custom(), m['h'].is_custom()), (True, False), 'custom')
    ctx.is_(m[a].valentina_name, a, 'name')


# lists of points whose names are prefixes, suffixes of others
POINTS = [('A', 'A1', 'B'), ('B', 'A', 'BA'), ('A1', 'A11', 'A')]
TERMS = ['Line 0 1', 'Line 0 2', 'Line 2 1', 'm', '@c', '@cc', 'x']


@harness(P, params=[{'first': t} for t in TERMS], budget=30)
def expression(ctx, first):
    """two or three terms"""
    from Patro.Pattern.Calculator import Expression
    names = ctx.choose('points', POINTS)
    pts = {n: (ctx.real(f'x{i}', -10, 10), ctx.choose(f'y{i}', [i])) for i, n in enumerate(names)}
    val = {'m': ctx.real('m', -10, 10), '@c': ctx.real('c', -10, 10), '@cc': ctx.real('cc', -10, 10), 'x': ctx.real('number', 0, 10)}
    s = sketch(ctx, pts, **{k: v for k, v in val.items() if k != 'x'})
    text, want, used = '', 0, set()
    square = None
    for i in range(ctx.choose('n', [1, 2, 3])):
        t = first if i == 0 else ctx.choose(f't{i}', [u for u in TERMS if i == 1 or u.startswith('Line') or u == '@c'])
        coef = (1, -2, 3)[i]
        if t.startswith('Line'):
            a, b = [names[int(j)] for j in t.split()[1:]]
            text += f' {coef:+d} * Line_{a}_{b}'
            want = want + coef * ctx.sqrt((pts[a][0] - pts[b][0]) * (pts[a][0] - pts[b][0]) + (pts[a][1] - pts[b][1]) * (pts[a][1] - pts[b][1]))
            used |= {a, b}
        else:
            text += f' {coef:+d} * ' + (str(val['x']) if t == 'x' else t)
            want = want + coef * val[t]
    e = Expression(text.strip(), s.calculator)
    close(ctx, e.value, want, 'value')
    ctx.is_({p.name for p in e.dependencies}, used, 'dependencies')
    e.set_dirty()
    close(ctx, e.value, want, 'value again')
    ctx.is_(e.is_float(), False, 'not a number')


@harness(P, params=[{'other': k} for k in ('none', 'Line', 'reverse', 'alone')], budget=20)
def angle(ctx, other):
    from Patro.Pattern.Calculator import Expression
    names = ctx.choose('points', POINTS)
    pts = {n: (ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i, n in enumerate(names)}
    s = sketch(ctx, pts)
    a, b, c = names
    v = (pts[b][0] - pts[a][0], pts[b][1] - pts[a][1])
    ctx.assume(v[0] * v[0] + v[1] * v[1] > 1)
    text = {'none': f'AngleLine_{a}_{b}', 'Line': f'Line_{a}_{b} + AngleLine_{a}_{b}', 'reverse': f'AngleLine_{b}_{a} + 180', 'alone': f'AngleLine_{a}_{b} + 0*Line_{a}_{c}'}[other]
    e = Expression(text, s.calculator)
    r = e.value
    if other == 'Line':
        r = r - ctx.sqrt(v[0] * v[0] + v[1] * v[1])
    cs, sn = ctx.deg_cs(r)
    ctx.eq(v[0] * sn, v[1] * cs, 'parallel')
    ctx.check(v[0] * cs + v[1] * sn > 0, 'direction')
    ctx.is_({p.name for p in e.dependencies}, set(names if other == 'alone' else names[:2]), 'dependencies')


@harness(P)
def current_length(ctx):
    from Patro.Pattern.Calculator import Expression
    from Patro.GeometryEngine.Vector import Vector2D
    x, y, k = ctx.real('x', -10, 10), ctx.real('y', -10, 10), ctx.real('k', -10, 10)
    s = sketch(ctx, {'A': (0, 0), 'B': (3, 4)}, k=k)
    s.calculator.set_current_segment(Vector2D(x, y))
    e = Expression('CurrentLength*k + Line_A_B - CurrentLength/2', s.calculator)
    close(ctx, e.value, ctx.sqrt(x * x + y * y) * (k - 0.5) + 5, 'value')


@harness(P)
def unknown(ctx):
    from Patro.Pattern.Calculator import Expression, NamedExpression
    x = ctx.real('x', -10, 10)
    s = sketch(ctx, {'A': (0, 0)}, m=x)
    e = Expression('m + n', s.calculator)
    ctx.is_(e.value, None, 'unknown name')
    ctx.is_(e.value, None, 'unknown name, again')
    e = NamedExpression('name', ctx.choose('number', ['12', '-1.5', '1e1']), s.calculator)
    ctx.is_((e.name, e.is_float()), ('name', True), 'number')
    ctx.eq(e.value, float(str(e)), 'value of a number')
    ctx.is_(Expression('m', s.calculator).is_float(), False, 'not a number')


@harness(P)
def two_sketches(ctx):
    """the same expressions and names in two sketches"""
    from Patro.Pattern.Calculator import Expression
    sk, pts = [], []
    m = [ctx.real(f'm{i}', -10, 10) for i in (0, 1)]
    for i in (0, 1):
        pts.append({'A': (ctx.real(f'x{i}', -10, 10), 1), 'B': (ctx.real(f'u{i}', -10, 10), 1 + 3 * i)})
        sk.append(sketch(ctx, pts[i], m=m[i], **{'@c': m[1 - i]}))
    text, f = ctx.choose('text', [('Line_A_B + m', lambda i, l: l + m[i]), ('2*m', lambda i, l: 2 * m[i]), ('@c - m', lambda i, l: m[1 - i] - m[i])])
    e = [Expression(text, s.calculator) for s in sk]
    for i in ctx.choose('order', [(0, 1), (1, 0, 1)]):
        a, b = pts[i]['A'], pts[i]['B']
        want = f(i, ctx.sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])))
        close(ctx, e[i].value, want, f'value {i}')
        close(ctx, Expression(text, sk[i].calculator).value, want, f'value {i}, same expression')
        ctx.check(set(e[i].dependencies) == ({sk[i].get_operation(n) for n in 'AB'} if 'Line' in text else set()), f'dependencies {i}')
