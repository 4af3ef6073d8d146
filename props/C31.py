"""Sketch operations."""
from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import sympy_expr, rtree_stub
    STUBS['sympy'] = sympy_expr.MODULE
    STUBS['ast'] = sympy_expr.AST
    STUBS['rtree'] = rtree_stub.MODULE
except ImportError:     # replay
    sympy_expr = None

MODULES = ['Patro.Pattern', 'Patro.Pattern.Calculator', 'Patro.Pattern.Pattern', 'Patro.Pattern.Sketch', 'Patro.Pattern.SketchOperation', 'Patro.Pattern.SketchStyle',
           'Patro.Measurement.Measurement', 'Patro.Measurement.ValentinaMeasurement', 'Patro.GraphicEngine.GraphicScene.Scene', 'Patro.GraphicEngine.GraphicScene.GraphicItem']
BOUNDS = 'sketches of at most 7 operations over points of coordinates <= 10, lengths in [-10, 10], any angle in degrees; expressions over one measurement and the distance of two points'
BOUNDS += '; also a chain of a dozen operations'
ASSUMPTIONS = ['sympy is modelled by exact arithmetic on expression trees', 'the rtree package is modelled by a list of boxes', 'the lines of an intersection are not parallel (sine of the angle > 1/100)']
META = dict(
    title='Sketch operations construct the points and curves they describe',
    statement="""After eval, a point along a line is at its length from the first point towards the second one, an end of line at its length and angle from the base point, a normal point at
    its length from the first point in the direction of the normal turned by its angle, an intersection lies on both lines, a point of contact on the circle and on the line, and on the segment if it
    meets the circle (None when the line does not), a point of intersection has the x of the first and the y of the second; a spline joins its points with the control points of its angles and lengths. Points can be
    referenced by object, name or id; dependencies (also of expressions) are recorded and give an order of evaluation; ids are unique in a pattern; evaluating twice changes nothing; to_python gives
    the code of an identical operation; the bounding box is the union of those of the operations; the detail scene contains the coordinates, points, labels and lines with their styles and operations.""",
    quant='all positions, lengths, angles, ways of referencing',
    why='constructions are wrong for particular quadrants, orders of the points or forms of the expressions',
    files=['Patro/Pattern/SketchOperation.py', 'Patro/Pattern/Sketch.py', 'Patro/Pattern/Pattern.py', 'Patro/Pattern/SketchStyle.py'],
    mechanism=[('eval_internal, to_python', 'Patro/Pattern/SketchOperation.py'), ('eval, bounding_box, detail_scene', 'Patro/Pattern/Sketch.py')])
P = 'C31'


def v2(x, y):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(x, y)


def pattern(ctx, **measurements):
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.Pattern.Pattern import Pattern
    m = ValentinaMeasurements()
    for k, v in measurements.items():
        m.add(k, str(v))
    return Pattern(m, 'cm')


class S:
    """a sketch and its points"""

    def __init__(self, ctx, names='AB', distinct=('AB',), fixed=None, **measurements):
        self.ctx = ctx
        self.pattern = pattern(ctx, **measurements)
        self.sketch = self.pattern.add_scope('p').sketch
        self.p, self.op = {}, {}
        for n in names:
            self.p[n] = (fixed or {}).get(n) or (ctx.real('x' + n, -10, 10), ctx.real('y' + n, -10, 10))
            self.op[n] = self.sketch.SinglePoint(n, *self.p[n], v2(0, 0))
        for a, b in distinct:
            x, y = self.d(a, b)
            ctx.assume(x * x + y * y > 0.01)

    def d(self, a, b):
        return self.p[b][0] - self.p[a][0], self.p[b][1] - self.p[a][1]

    def ref(self, n, how):
        op = self.op[n]
        return {'object': op, 'name': n, 'id': op.id}[how]


REFS = ['object', 'name', 'id']


def length(ctx, s, how, current=None):
    """expression, value, names of the points it uses"""
    k = ctx.real('length', -10, 10)
    if how == 'number':
        return k, k, set()
    if how == 'text':
        return str(k), k, set()
    if how == 'measurement':
        return 'm + 1', s.m + 1, set()
    if how == 'Line':
        x, y = s.d('A', 'C')
        return f'Line_A_C*{k}', ctx.sqrt(x * x + y * y) * k, {'A', 'C'}
    if how == 'current':
        return f'CurrentLength*{k}', ctx.sqrt(current[0] * current[0] + current[1] * current[1]) * k, set()


def deps(ctx, op, names):
    ctx.is_({o.name for o in op.dependencies}, set(names), 'dependencies')
    ctx.is_({n.data.name for n in op._dag_node.ancestor}, set(names), 'ancestors in the graph')


HOW = ['number', 'text', 'measurement', 'Line', 'current']


@harness(P, params=[{'how': h} for h in HOW], budget=30)
def along_line(ctx, how):
    m = ctx.real('m', -10, 10)
    s = S(ctx, 'ABC', m=m)
    s.m = m
    d = s.d('A', 'B')
    expr, value, used = length(ctx, s, how, d)
    ref = ctx.choose('ref', REFS)
    p = s.sketch.AlongLinePoint('P', s.ref('A', ref), s.ref('B', ref), expr, v2(1, 1))
    for i in ctx.choose('evals', [(1,), (1, 2)]):
        s.sketch.eval()
    x, y = p.vector.x - s.p['A'][0], p.vector.y - s.p['A'][1]
    n = ctx.sqrt(d[0] * d[0] + d[1] * d[1])
    ctx.eq(x * n, d[0] * value, 'x')
    ctx.eq(y * n, d[1] * value, 'y')
    deps(ctx, p, {'A', 'B'} | used)


@harness(P, params=[{'how': h} for h in HOW[:4]], budget=30)
def end_line(ctx, how):
    m = ctx.real('m', -10, 10)
    s = S(ctx, 'AC', (), m=m)
    s.m = m
    expr, value, used = length(ctx, s, how)
    a = ctx.angle('a')
    ref = ctx.choose('ref', REFS)
    p = s.sketch.EndLinePoint('P', s.ref('A', ref), ctx.choose('angle', [False, True]) and str(a) or a, expr, v2(1, 1))
    s.sketch.eval()
    cs, sn = ctx.deg_cs(a)
    ctx.eq(p.vector.x, s.p['A'][0] + value * cs, 'x')
    ctx.eq(p.vector.y, s.p['A'][1] + value * sn, 'y')
    deps(ctx, p, {'A'} | used)


@harness(P)
def angle_of_line(ctx):
    """an angle which is the one of a line"""
    s = S(ctx, 'ABC')
    k = ctx.real('length', 0.1, 10)
    p = s.sketch.EndLinePoint('P', 'C', 'AngleLine_A_B', k, v2(1, 1))
    s.sketch.eval()
    d, q = s.d('A', 'B'), (p.vector.x - s.p['C'][0], p.vector.y - s.p['C'][1])
    ctx.eq(q[0] * d[1], q[1] * d[0], 'parallel')
    ctx.check(q[0] * d[0] + q[1] * d[1] > 0, 'direction')
    ctx.eq(q[0] * q[0] + q[1] * q[1], k * k, 'length')
    deps(ctx, p, 'ABC')


@harness(P, params=[{'ref': r} for r in REFS], budget=30)
def line_intersection(ctx, ref):
    s = S(ctx, 'ABCD', ('AB', 'CD'))
    a, b = s.d('A', 'B'), s.d('C', 'D')
    ctx.assume(ctx.cross(a, b) * ctx.cross(a, b) > 0.01)
    p = s.sketch.LineIntersectPoint('P', *[s.ref(n, ref) for n in 'ABCD'], v2(1, 1))
    s.sketch.eval()
    for n, d in (('A', a), ('C', b)):
        ctx.eq((p.vector.x - s.p[n][0]) * d[1], (p.vector.y - s.p[n][1]) * d[0], 'on the line')
    deps(ctx, p, 'ABCD')
    ctx.is_([o.name for o in (p.point1_line1, p.point2_line1, p.point1_line2, p.point2_line2)], list('ABCD'), 'points')


@harness(P, params=[{'how': h} for h in HOW], budget=40)
def normal(ctx, how):
    m = ctx.real('m', -10, 10)
    s = S(ctx, 'ABC', m=m)
    s.m = m
    d = s.d('A', 'B')
    expr, value, used = length(ctx, s, how, d)
    a = ctx.choose('angle', ['any', 0, 180, -90])
    if a == 'any':
        a = ctx.angle('a')
    p = s.sketch.NormalPoint('P', 'A', s.op['B'], a, expr, v2(1, 1))
    s.sketch.eval()
    x, y = p.vector.x - s.p['A'][0], p.vector.y - s.p['A'][1]
    n = ctx.sqrt(d[0] * d[0] + d[1] * d[1])
    cs, sn = ctx.deg_cs(a)
    # normal (-dy, dx) turned by a
    ctx.eq(x * n, (-d[1] * cs - d[0] * sn) * value, 'x')
    ctx.eq(y * n, (-d[1] * sn + d[0] * cs) * value, 'y')
    deps(ctx, p, {'A', 'B'} | used)


@harness(P, params=[{'vertical': v, 'center': c} for v in (False, True) for c in (False, True)], budget=40)
def contact(ctx, vertical, center):
    """a circle centered on the origin and a segment parallel to an axis"""
    s = S(ctx, '', ())
    sk = s.sketch
    if center:      # through the center
        c, a, b = 0, ctx.real('a', -5, 5), ctx.real('b', -5, 5)
    else:
        c = ctx.real('c', -5, 5)
        a, b = ctx.choose('segment', [(-5, 5), (1, -5), (-1, 2), (4, 1)])
    r = ctx.real('r', 0.1, 5)
    if center:
        ctx.assume(ctx.or_(a - b > 0.1, b - a > 0.1))
    p, q = ((c, a), (c, b)) if vertical else ((a, c), (b, c))
    sk.SinglePoint('A', *p, v2(0, 0))
    sk.SinglePoint('B', *q, v2(0, 0))
    sk.SinglePoint('O', 0, 0, v2(0, 0))
    P_ = sk.PointOfContact('P', 'A', 'B', 'O', r, v2(0, 0))
    s.sketch.eval()
    deps(ctx, P_, 'ABO')
    h2 = r * r - c * c
    ctx.assume(ctx.or_(h2 > 0.01, h2 < -0.01))
    v = P_.vector
    if v is None:
        ctx.check(h2 < 0, 'the line does not meet the circle')
        return
    ctx.check(h2 > 0, 'the line meets the circle')
    x, y = (v.y, v.x) if vertical else (v.x, v.y)
    ctx.eq(x * x + y * y, r * r, 'on the circle')
    ctx.eq(y, c, 'on the line')
    # on the segment if it meets the circle
    lo, hi = ctx.ite(a < b, a, b), ctx.ite(a < b, b, a)
    h = ctx.sqrt(h2)
    meets = ctx.or_(*[ctx.and_(z > lo + 1e-3, z < hi - 1e-3) for z in (h, -h)])
    ctx.check(ctx.implies(meets, ctx.and_(x > lo - 1e-3, x < hi + 1e-3)), 'on the segment')


@harness(P)
def intersection(ctx):
    s = S(ctx, 'AB', ())
    ref = ctx.choose('ref', REFS)
    p = s.sketch.PointOfIntersection('P', s.ref('A', ref), s.ref('B', ref), v2(1, 1))
    line = s.sketch.Line(s.ref('A', ref), 'P')
    s.sketch.eval()
    ctx.eq(p.vector.x, s.p['A'][0], 'x')
    ctx.eq(p.vector.y, s.p['B'][1], 'y')
    deps(ctx, p, 'AB')
    deps(ctx, line, 'AP')
    g = line.geometry()
    ctx.eq(g.p0, s.op['A'].vector, 'start')
    ctx.eq(g.p1, p.vector, 'end')


@harness(P)
def spline(ctx):
    s = S(ctx, 'ABC', (), m=2)
    a, b = ctx.angle('a'), ctx.angle('b')
    k, l = ctx.real('k', -10, 10), ctx.real('l', -10, 10)
    ref = ctx.choose('ref', REFS)
    op = s.sketch.SimpleInteractiveSpline(s.ref('A', ref), s.ref('B', ref), a, k, str(b), f'm*{l} + 0*Line_A_C')
    ctx.raises(NameError, op.geometry, 'not evaluated')
    s.sketch.eval()
    g = op.geometry()
    ca, sa = ctx.deg_cs(a)
    cb, sb = ctx.deg_cs(b)
    (x, y), (z, t) = s.p['A'], s.p['B']
    for i, (u, w) in enumerate([(x, y), (x + k * ca, y + k * sa), (z + 2 * l * cb, t + 2 * l * sb), (z, t)]):
        q = list(g.points)[i]
        ctx.eq(q.x, u, f'x {i}')
        ctx.eq(q.y, w, f'y {i}')
    ctx.eq(op.control_point1, g.p1, 'control point')
    ctx.eq(op.control_point2, g.p2, 'control point')
    deps(ctx, op, 'ABC')


@harness(P)
def order(ctx):
    """the graph gives an order of evaluation, whatever the way the points depend on each other"""
    s = S(ctx, 'AB', ())
    sk = s.sketch
    names = ['A', 'B']
    need = {'A': set(), 'B': set()}
    for i, n in enumerate('CDE'):
        a, b = ctx.choose('refs' + n, [(x, y) for x in names for y in names if x != y])
        sk.PointOfIntersection(n, a, b, v2(0, 0))
        need[n] = {a, b}
        names.append(n)
        if i == 1:
            break
    c, d = ctx.choose('line', [('A', 'C'), ('C', 'D'), ('D', 'B')])
    sk.AlongLinePoint('F', 'A', 'B', f'Line_{c}_{d}', v2(0, 0))
    need['F'] = {'A', 'B', c, d}
    x, y = s.d('A', 'B')
    ctx.assume(x * x + y * y > 0.01)
    sk.eval()
    rank = [n.data.name for n in sk.calculator.dag.topological_sort()]
    ctx.is_(sorted(rank), sorted(need), 'operations')
    for n, used in need.items():
        for u in used:
            ctx.check(rank.index(u) < rank.index(n), f'{u} before {n}')
    ctx.is_({n.data.name for n in sk.calculator.dag.roots()}, {'A', 'B'}, 'roots')


@harness(P)
def ids(ctx):
    pat = pattern(ctx)
    s, t = pat.add_scope('s').sketch, pat.add_scope('t').sketch
    x = ctx.real('x', -10, 10)
    a = s.SinglePoint('A', x, 0, v2(0, 0))
    b = t.SinglePoint('A', x + 1, 0, v2(0, 0))
    i = ctx.choose('id', [2, 7])
    c = s.SinglePoint('C', x + 2, 0, v2(0, 0), id=i)
    d = t.SinglePoint('D', 0, 0, v2(0, 0))
    l = s.Line('A', 'C')
    ctx.is_([o.id for o in (a, b, c, d, l)], [0, 1, i, i + 1, i + 2], 'ids')
    ctx.raises(NameError, lambda: s.SinglePoint('E', 0, 0, v2(0, 0), id=ctx.choose('dup', [0, 1, 2, 3])) if i == 2 else s.SinglePoint('E', 0, 0, v2(0, 0), id=7), 'duplicate id')
    ctx.is_([s.has_operation_id(k) for k in (0, 1, i, i + 1, 'A', 'C', 'D', 'E')], [True, False, True, False, True, True, False, False], 'has_operation_id')
    ctx.check(s.get_operation('A') is a and t.get_operation('A') is b and s.get_operation(i) is c and s.get_operation(i + 2) is l, 'get_operation')
    ctx.is_([o.id for o in s.operations], [0, i, i + 2], 'operations')
    ctx.raises(KeyError, lambda: s.Line('A', 'D'), 'point of an other sketch')
    s.eval()
    t.eval()
    ctx.eq(s.get_operation('A').vector.x, x, 'first sketch')
    ctx.eq(t.get_operation('A').vector.x, x + 1, 'second sketch')


@harness(P)
def scopes(ctx):
    p = pattern(ctx)
    names = ctx.choose('names', ['ab', 'ba', 'abc'])
    added = [p.add_scope(n) for n in names]
    ctx.is_(p.scope_names(), list(names), 'names')
    for i, n in enumerate(names):
        ctx.check(p.scope(n) is added[i] and p.scope(i) is added[i], 'scope')
    ctx.check(len({id(s.sketch) for s in added}) == len(names), 'a sketch each')
    ctx.check(all(s.measurements is p.measurements and s.unit == p.unit == 'cm' and s.sketch.unit == 'cm' for s in added), 'measurements and unit')
    ctx.is_(p.scope('z'), None, 'unknown')
    r = ctx.choose('removed', ['a', 'b', 'z'])
    p.remove_scope(r)
    ctx.is_(p.scope_names(), [n for n in names if n != r], 'removed')
    ctx.is_([s.name for s in p.scopes], [n for n in names if n != r], 'scopes')


KINDS = ['SinglePoint', 'AlongLinePoint', 'EndLinePoint', 'LineIntersectPoint', 'NormalPoint', 'PointOfContact', 'PointOfIntersection', 'Line', 'SimpleInteractiveSpline']


def build(ctx, s, kind, style=None, offset=None, simple=False):
    from Patro.GraphicStyle import StrokeStyle, Colors
    sk = s.sketch
    k, a = ctx.real('k', -10, 10), 90 if simple else ctx.real('a', -180, 180)
    expr = 'number' if simple else ctx.choose('expr', ['number', 'expression'])
    l = k if expr == 'number' else f'Line_A_B*{k}'
    off = v2(ctx.real('ox', -3, 3), ctx.real('oy', -3, 3)) if offset is None else offset
    if style is None:
        style = ctx.choose('style', ['default', 'given'])
    line = dict(line_style=StrokeStyle.DashDotLine, line_color=Colors.green) if style == 'given' else {}
    n = 'P' if simple else ctx.choose('name', ['P', 'P_1', "P'"])
    if kind == 'SinglePoint':
        return sk.SinglePoint(n, k, l, off)
    if kind == 'AlongLinePoint':
        return sk.AlongLinePoint(n, 'A', 'B', l, off, **line)
    if kind == 'EndLinePoint':
        return sk.EndLinePoint(n, 'A', a, l, off, **line)
    if kind == 'LineIntersectPoint':
        return sk.LineIntersectPoint(n, 'A', 'B', 'C', 'D', off)
    if kind == 'NormalPoint':
        return sk.NormalPoint(n, 'A', 'B', a, l, off, **line)
    if kind == 'PointOfContact':
        return sk.PointOfContact(n, 'A', 'B', 'C', l, off)
    if kind == 'PointOfIntersection':
        return sk.PointOfIntersection(n, 'A', 'B', off)
    if kind == 'Line':
        return sk.Line('A', 'B', **line)
    return sk.SimpleInteractiveSpline('A', 'B', a, k, a, l, **line)


def execute(ctx, source, namespace):
    if ctx.symbolic:
        from engine import shims
        tree = sympy_expr.AST.parse(source)
        exec(compile(tree, '<to_python>', 'exec'), dict(namespace, float=shims.FloatShim))
    else:
        exec(source, dict(namespace))


@harness(P, params=[{'kind': k} for k in KINDS], budget=30)
def to_python(ctx, kind):
    """the code gives the same operation in an other sketch"""
    from Patro.GraphicStyle import StrokeStyle
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.Pattern.Calculator import Expression
    s, t = S(ctx, 'ABCD', ('AB',)), S(ctx, 'ABCD', (), {n: (i, 0) for i, n in enumerate('ABCD')})
    op = build(ctx, s, kind)
    source = op.to_python()
    execute(ctx, source, dict({k: getattr(type(t.sketch), k) for k in KINDS}, sketch=t.sketch, Vector2D=Vector2D, StrokeStyle=StrokeStyle))
    new = t.sketch.operations[-1]
    for o in s.sketch.operations[:4]:
        s.sketch.calculator.add_point(o)
        o.eval()
    ctx.is_(type(new).__name__, kind, 'type')
    ctx.is_(len(t.sketch.operations), 5, 'one operation')
    for k, v in vars(op).items():
        w = getattr(new, k)
        c = type(v).__name__
        if k in ('_sketch', '_dag_node', '_dependencies', '_id'):
            continue
        ctx.check(type(w).__name__ == c, f'type of {k}')
        if c == 'Expression':
            ctx.is_(v.is_float(), w.is_float(), f'form of {k}')
            ctx.eq(v.value, Expression(str(w), s.sketch.calculator).value, f'expression {k}')
        elif c == 'Vector2D':
            ctx.eq(w, v, f'vector {k}')
        elif c.endswith('Point'):
            ctx.is_(w.name, v.name, f'point {k}')
        else:
            ctx.check(v == w, f'attribute {k}')


@harness(P)
def bounding_box(ctx):
    s = S(ctx, 'AB', ())
    sk = s.sketch
    kind = ctx.choose('kind', ['points', 'line', 'spline'])
    if kind == 'line':
        sk.Line('A', 'B')
    k = 0
    if kind == 'spline':
        k = ctx.real('k', -5, 5)
        sk.SimpleInteractiveSpline('A', 'B', 0, k, 90, 0)
    sk.eval()
    box = sk.bounding_box
    xs, ys = [s.p[n][0] for n in 'AB'], [s.p[n][1] for n in 'AB']
    for v in xs:
        ctx.check(box.x.inf <= v, 'x inf')
        ctx.check(box.x.sup >= v, 'x sup')
    for v in ys:
        ctx.check(box.y.inf <= v, 'y inf')
        ctx.check(box.y.sup >= v, 'y sup')
    if kind != 'spline':
        for i, zs in (('x', xs), ('y', ys)):
            b = getattr(box, i)
            ctx.check(ctx.or_(*[ctx.eq_(b.inf, v) for v in zs]), f'{i} inf tight')
            ctx.check(ctx.or_(*[ctx.eq_(b.sup, v) for v in zs]), f'{i} sup tight')
    else:
        boxes = [o.geometry().bounding_box for o in sk.operations]
        for i in 'xy':
            b, us = getattr(box, i), [getattr(u, i) for u in boxes]
            ctx.check(ctx.and_(*[ctx.and_(b.inf <= u.inf, b.sup >= u.sup) for u in us]), f'{i}: contains the one of each operation')
            ctx.check(ctx.or_(*[ctx.eq_(b.inf, u.inf) for u in us]), f'{i} inf: the one of an operation')
            ctx.check(ctx.or_(*[ctx.eq_(b.sup, u.sup) for u in us]), f'{i} sup: the one of an operation')


STYLED = ['AlongLinePoint', 'EndLinePoint', 'NormalPoint']


@harness(P, params=[{'kind': k} for k in KINDS if k != 'PointOfContact'], budget=40, witnesses=2)
def detail_scene(ctx, kind):
    """items of one operation and its points"""
    from Patro.GraphicStyle import StrokeStyle, Colors
    from Patro.Pattern.SketchStyle import DetailSketchStyle
    s = S(ctx, 'ABCD', ('AB',), dict({'C': (-1000, -1000), 'D': (1000, 1001)},     # the bounding box
                                                **({'A': (1, 2), 'B': (8, 5)} if kind == 'SimpleInteractiveSpline' else {})))
    if kind == 'LineIntersectPoint':
        a, b = s.d('A', 'B'), s.d('C', 'D')
        ctx.assume(ctx.or_(ctx.cross(a, b) > 1000, ctx.cross(a, b) < -1000))
    given = ctx.choose('given', [False, True]) if kind in STYLED + ['Line', 'SimpleInteractiveSpline'] else False
    offset = ctx.choose('offset', ['null', 'any'])
    off = v2(0, 0) if offset == 'null' else v2(ctx.real('ox', 0.5, 3), ctx.real('oy', -3, 3))
    op = build(ctx, s, kind, 'given' if given else 'default', off, True)
    s.sketch.eval()
    custom = ctx.choose('custom style', [False, True]) if offset == 'any' else False
    w, w2, w3 = ctx.real('w', 0.1, 5), ctx.real('w2', 0.1, 5), ctx.real('w3', 0.1, 5)
    size = ctx.real('size', 0.1, 5)
    if custom:
        style = DetailSketchStyle(point_size=size, line_width=w, construction_line_width=w2, label_line_width=w3, point_color='red', font_size=12)
        color, font_size = 'red', 12
    else:
        style, size, w, w2, w3, color, font_size = None, .2, 3, 1.5, 2, 'black', 16
    scene = s.sketch.detail_scene(style=style)
    items = [i for i in scene if i.user_data is op]
    base = [i for i in scene if i.user_data is not op]
    ctx.is_([(type(i).__name__, i.user_data.name) for i in base], [('CircleItem', n) for n in 'ABCD'], 'items of the points')
    for n in 'ABCD':
        ctx.eq(scene.coordinate(n).position, s.op[n].vector, 'coordinate')
    for i in base:
        ctx.is_(i.position, i.user_data.name, 'position of a point')
    point = kind not in ('Line', 'SimpleInteractiveSpline')
    want = []
    if point:
        want += ['CircleItem']
        if offset == 'any':
            want += ['SegmentItem', 'TextItem']
        if kind in STYLED:
            want += ['SegmentItem']
        ctx.eq(scene.coordinate(op.name).position, op.vector, 'coordinate of the point')
    else:
        want = ['SegmentItem' if kind == 'Line' else 'CubicBezierItem']
    ctx.is_([type(i).__name__ for i in items], want, 'items')
    if point:
        c = items[0]
        ctx.eq(c.casted_position, op.vector, 'circle')
        ctx.eq(c.radius, size, 'size of the circle')
        ctx.check(c.path_style.fill_color == Colors.ensure_color(color), 'color of the circle')
        if offset == 'any':
            a, b = items[1].casted_positions
            ctx.eq(a, op.vector, 'label line')
            ctx.eq(b.x, op.vector.x + off.x, 'label x')
            ctx.eq(b.y, op.vector.y - off.y, 'label y')
            ctx.eq(items[1].path_style.line_width, w3, 'width of the label line')
            ctx.eq(items[2].casted_position, b, 'label')
            ctx.is_((items[2].text, items[2].font.point_size), (op.name, font_size), 'text')
    if kind in STYLED or not point:
        l = items[-1]
        q = list(l.casted_positions)
        ctx.eq(q[0], s.op['A'].vector, 'start of the line')
        ctx.eq(q[-1], op.vector if point else s.op['B'].vector, 'end of the line')
        if len(q) == 4:
            ctx.eq(q[1], op.control_point1, 'control point')
            ctx.eq(q[2], op.control_point2, 'control point')
        st = l.path_style
        ctx.eq(st.line_width, w2 if point else w, 'width of the line')
        if given:
            ctx.check(st.stroke_style == StrokeStyle.DashDotLine and st.stroke_color == Colors.green, 'style of the line')
        else:
            ctx.check(st.stroke_style == (StrokeStyle.NoPen if point else StrokeStyle.SolidLine), 'default style of the line')
    box, want = scene.bounding_box, s.sketch.bounding_box
    ctx.eq(box.x.inf, want.x.inf, 'bounding box')
    ctx.eq(box.y.sup, want.y.sup, 'bounding box')


@harness(P)
def unsorted_ids(ctx):
    """an operation can have any free id, the next ones without id have a new one"""
    pat = pattern(ctx)
    s, t = pat.add_scope('s').sketch, pat.add_scope('t').sketch
    x = ctx.real('x', -10, 10)
    order = ctx.choose('order', [(5, 3), (9, 3), (3, 9), (8, 1)])
    a, b = s.SinglePoint('A', x, 0, v2(0, 0), id=order[0]), t.SinglePoint('B', 0, x, v2(0, 0), id=order[1])
    c = s.SinglePoint('C', x, x, v2(0, 0))
    d = s.SinglePoint('D', 2 * x, x, v2(0, 0), id=2)
    e = t.SinglePoint('E', x, x, v2(0, 0))
    ids = [o.id for o in (a, b, c, d, e)]
    ctx.is_(ids, [*order, max(order) + 1, 2, max(order) + 2], 'ids')
    for k in ids:
        ctx.raises(NameError, lambda: t.SinglePoint('F', 0, 0, v2(0, 0), id=k), 'duplicate id')
    ctx.check(s.get_operation(order[0]) is a and t.get_operation(order[1]) is b and s.get_operation(2) is d, 'get_operation')
    ctx.is_([o.id for o in s.operations], [order[0], max(order) + 1, 2], 'operations')
    s.eval()
    ctx.eq([s.get_operation(2).vector.x, c.vector.y], [2 * x, x], 'vectors')


@harness(P, params=[{'ref': r} for r in REFS], budget=60)
def chain12(ctx, ref):
    """a dozen of operations, each one from the two previous points; P1 is the beginning of P10"""
    s = S(ctx, 'AB', (), fixed={'A': (1, 2), 'B': (-6, 3)})
    names, p = ['A', 'B'], [s.p['A'], s.p['B']]
    k = ctx.real('k', -10, 10)
    for i in range(1, 13):
        f, g = names[-2], names[-1]
        if i % 4 == 0:      # x of the first, y of the second
            op = s.sketch.PointOfIntersection(f'P{i}', s.ref(f, ref), s.ref(g, ref), v2(i, i))
            q = p[-2][0], p[-1][1]
        elif i % 4 == 2 or i == 11:     # to the right or upwards
            op = s.sketch.EndLinePoint(f'P{i}', s.ref(g, ref), 90 * (i % 3), f'{k} + {i}', v2(i, i))
            d = ((1, 0), (0, 1), (-1, 0))[i % 3]
            q = p[-1][0] + (k + i) * d[0], p[-1][1] + (k + i) * d[1]
        else:
            op = s.sketch.SinglePoint(f'P{i}', k * i, f'{k} - {i}', v2(i, i))
            q = k * i, k - i
        s.op[f'P{i}'] = op
        names.append(f'P{i}')
        p.append(q)
    before = ctx.choose('evals', [1, 2])
    for _ in range(before):
        s.sketch.eval()
    ctx.is_([o.name for o in s.sketch.operations], names, 'operations in order')
    ctx.is_(len({o.id for o in s.sketch.operations}), 14, 'ids')
    for o, q in zip(s.sketch.operations, p):
        ctx.eq([o.vector.x, o.vector.y], list(q), o.name)
    box = s.sketch.bounding_box
    for q in p:
        ctx.check(ctx.and_(box.x.inf <= q[0] + 1e-9, q[0] <= box.x.sup + 1e-9, box.y.inf <= q[1] + 1e-9, q[1] <= box.y.sup + 1e-9), 'bounding box')


@harness(P)
def two_patterns(ctx):
    """the same operations in two patterns, and in two pieces of a pattern"""
    m = [ctx.real(f'm{i}', -10, 10) for i in (0, 1)]
    same = ctx.choose('same pattern', [False, True])
    s = [S(ctx, 'ABC', ('AC',), m=m[0], fixed={'B': (1, 5)})]
    s[0].m = m[0]
    if same:
        t = S.__new__(S)
        t.ctx, t.pattern, t.p, t.op, t.m = ctx, s[0].pattern, {}, {}, m[0]
        t.sketch = t.pattern.add_scope('q').sketch
        for n in 'ABC':
            t.p[n] = (ctx.real('u' + n, -10, 10), 7) if n != 'B' else (4, 4)
            t.op[n] = t.sketch.SinglePoint(n, *t.p[n], v2(0, 0))
        x, y = t.d('A', 'C')
        ctx.assume(x * x + y * y > 0.01)
    else:
        t = S(ctx, 'ABC', (), m=m[1], fixed={'A': (0, 1), 'B': (2, 2), 'C': (4, 4)})
        t.m = m[1]
    s.append(t)
    ops = []
    for q in s:
        ops.append([q.sketch.EndLinePoint('P', 'B', 0, 'Line_A_C + m', v2(1, 1)), q.sketch.EndLinePoint('Q', 'P', '90', '2*m', v2(1, 1))])
    for q in s:
        q.sketch.eval()
    for q, (a, b) in zip(s, ops):
        d = q.d('A', 'C')
        l = ctx.sqrt(d[0] * d[0] + d[1] * d[1])
        p = q.p['B'][0] + l + q.m, q.p['B'][1]
        ctx.eq([a.vector.x, a.vector.y], list(p), 'point')
        ctx.eq([b.vector.x, b.vector.y], [p[0], p[1] + 2 * q.m], 'next point')
        deps(ctx, a, 'ABC')
        ctx.check(set(a.dependencies) == {q.op[n] for n in 'ABC'}, 'the dependencies are in the same sketch')
        deps(ctx, b, 'P')
        ctx.check(set(b.dependencies) == {a}, 'the dependencies are in the same sketch')
