"""Bounding boxes of primitives."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.' + m for m in ('BoundingBox', 'Segment', 'Triangle', 'Rectangle', 'Polygon', 'Polyline', 'Bezier', 'Spline', 'Transformation')]
BOUNDS = ('lists of 0 to 4 (quick) or 6 (thorough) points; primitives of 2 to 4 points; points anywhere in [-10, 10]², one axis at a time beyond three points; curve parameters anywhere in [0, 1]')
BOUNDS += '; also a dozen of points, one coordinate symbolic'
META = dict(
    title='Bounding boxes contain the primitive and are tight on its points',
    statement="""bounding_box_from_points gives the smallest interval pair containing all the points, whatever their order and number, None for no point.
    The bounding box of a point, segment, triangle, quadrilateral, rectangle, polygon, polyline, Bézier curve or B-spline is the one of its (control) points,
    contains every point of the edges or of the curve, follows the primitive when it is transformed, and reading it does not modify
    the primitive nor a box obtained before.""",
    quant='all points, every point of each edge or curve',
    why='a minimum taken on the wrong axis or an interval merged in place goes unnoticed until the extreme point is the last one',
    files=['Patro/GeometryEngine/BoundingBox.py', 'Patro/GeometryEngine/Primitive.py', 'Patro/GeometryEngine/Vector.py'],
    mechanism=[('bounding_box_from_points', 'Patro/GeometryEngine/BoundingBox.py'), ('PrimitiveNP.bounding_box', 'Patro/GeometryEngine/Primitive.py')])
P = 'C19'


def points(ctx, n):
    if n > 3:
        # one axis at a time: the other one is in a given order
        axis = ctx.choose('axis', [0, 1])
        other = ctx.choose('other', [[3, -1, 4, 1, -5, 9], [-2, 7, -1, 8, 2, -8]])
        v = [ctx.real(f'x{i}', -10, 10) for i in range(n)]
        return [(a, b) if axis == 0 else (b, a) for a, b in zip(v, other)]
    return [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(n)]


def smallest(ctx, box, pts, what=''):
    for axis, i in (('x', box.x), ('y', box.y)):
        v = [p['xy'.index(axis)] for p in pts]
        for p in v:
            ctx.le(i.inf, p, f'{what}{axis} lower side')
            ctx.le(p, i.sup, f'{what}{axis} upper side')
        ctx.check(ctx.or_(*[ctx.eq_(i.inf, p) for p in v]), f'{what}{axis} lower side is reached')
        ctx.check(ctx.or_(*[ctx.eq_(i.sup, p) for p in v]), f'{what}{axis} upper side is reached')


def inside(ctx, box, p, what):
    for i, c in ((box.x, p[0]), (box.y, p[1])):
        ctx.le(i.inf, c, what + ' lower side')
        ctx.le(c, i.sup, what + ' upper side')


@harness(P, params=[{'n': n, '_tier': 'quick' if n < 5 else 'thorough'} for n in range(7)], budget=60)
def from_points(ctx, n):
    from Patro.GeometryEngine.BoundingBox import bounding_box_from_points
    from Patro.GeometryEngine.Vector import Vector2D
    p = points(ctx, n)
    v = [Vector2D(*q) for q in p]
    box = bounding_box_from_points(iter(v) if ctx.choose('iterator', [False, True]) else v)
    if n == 0:
        ctx.is_(box, None, 'no point')
        return
    smallest(ctx, box, p)
    ctx.eq([[q.x, q.y] for q in v], p, 'points unchanged')


@harness(P)
def vector(ctx):
    """the box of a point is this point"""
    from Patro.GeometryEngine.Vector import Vector2D, Vector2DInt, NormalisedVector2D
    cls = (Vector2D, Vector2DInt, NormalisedVector2D)[ctx.choose('cls', [0, 1, 2])]
    if cls is Vector2DInt:
        x, y = ctx.int('i', -9, 9), ctx.int('j', -9, 9)
    else:
        x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    v = cls(x, y)
    box = v.bounding_box
    ctx.eq([box.x.inf, box.x.sup, box.y.inf, box.y.sup], [x, x, y, y], 'box of a point')
    ctx.eq([v.x, v.y], [x, y], 'point unchanged')


KINDS = {'segment': 2, 'triangle': 3, 'polygon': 4, 'polyline': 3, 'quadratic': 3, 'cubic': 4, 'bspline': 4}


def build(kind, pts):
    from Patro.GeometryEngine.Vector import Vector2D
    v = [Vector2D(*p) for p in pts]
    if kind == 'segment':
        from Patro.GeometryEngine.Segment import Segment2D
        return Segment2D(*v)
    if kind == 'triangle':
        from Patro.GeometryEngine.Triangle import Triangle2D
        return Triangle2D(*v)
    if kind == 'polygon':
        from Patro.GeometryEngine.Polygon import Polygon2D
        return Polygon2D(*v)
    if kind == 'polyline':
        from Patro.GeometryEngine.Polyline import Polyline2D
        return Polyline2D(*v)
    if kind == 'bspline':
        from Patro.GeometryEngine.Spline import BSpline2D
        return BSpline2D(v, 3)
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    return (QuadraticBezier2D if kind == 'quadratic' else CubicBezier2D)(*v)


def shape(ctx, kind, p):
    if kind == 'triangle':
        (a, b), (c, d), (e, f) = p
        area = (c - a) * (f - b) - (d - b) * (e - a)
        ctx.assume(ctx.or_(area > 1, area < -1))
    return build(kind, p)


@harness(P, params=[{'kind': k} for k in KINDS], budget=30)
def primitive(ctx, kind):
    """box of the points, twice, then moved"""
    n = KINDS[kind]
    p = points(ctx, n)
    k = shape(ctx, kind, p)
    box = k.bounding_box
    smallest(ctx, box, p)
    again = k.bounding_box
    again.enlarge(1)
    before = [box.x.inf, box.x.sup, box.y.inf, box.y.sup]
    third = k.bounding_box
    ctx.eq([third.x.inf, third.x.sup, third.y.inf, third.y.sup], before, 'not cached')
    ctx.eq([[q.x, q.y] for q in k.points], p, 'points unchanged')


@harness(P, params=[{'kind': k} for k in ('segment', 'triangle', 'polygon', 'polyline')], budget=30)
def moved(ctx, kind):
    """the box follows a translation, a symmetry"""
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
    p = points(ctx, KINDS[kind])
    k = shape(ctx, kind, p)
    old = k.bounding_box
    before = [old.x.inf, old.x.sup, old.y.inf, old.y.sup]
    t = ctx.choose('t', ['parity', 'scale'] if kind == 'polygon' else ['translation', 'parity', 'scale'])
    clone = ctx.choose('clone', [False, True])
    if t == 'translation':
        d = ctx.vec('d', lo=-5, hi=5)
        q = [(x + d.x, y + d.y) for x, y in p]
        m = AffineTransformation2D.Translation(d)
    elif t == 'parity':
        q = [(-x, -y) for x, y in p]
        m = Transformation2D.Parity()
    else:
        q = [(2 * x, -3 * y) for x, y in p]
        m = Transformation2D.Scale(2, -3)
    r = k.transform(m, clone=clone)
    smallest(ctx, r.bounding_box, q)
    ctx.eq([old.x.inf, old.x.sup, old.y.inf, old.y.sup], before, 'former box')
    if clone:
        smallest(ctx, k.bounding_box, p, 'source ')


@harness(P, params=[{'kind': k} for k in ('quadratic', 'cubic')], budget=40)
def curve_inside(ctx, kind):
    # along one axis: the other one is the same
    n = KINDS[kind]
    axis = ctx.choose('axis', [0, 1])
    c = [ctx.real(f'c{i}', -10, 10) for i in range(n)]
    k = build(kind, [(x, 0) if axis == 0 else (0, x) for x in c])
    box = k.bounding_box
    t = ctx.real('t', 0, 1)
    i, v = (box.x, k.point_at_t(t).x) if axis == 0 else (box.y, k.point_at_t(t).y)
    ctx.le(i.inf, v, 'lower side')
    ctx.le(v, i.sup, 'upper side')


@harness(P, params=[{'kind': k} for k in ('triangle', 'polygon', 'polyline')], budget=40)
def edges_inside(ctx, kind):
    n = KINDS[kind]
    p = points(ctx, n)
    k = shape(ctx, kind, p)
    box = k.bounding_box
    edges = list(k.edges)
    e = edges[ctx.choose('edge', list(range(len(edges))))]
    inside(ctx, box, ctx.xy(e.point_at_t(ctx.real('t', 0, 1))), 'edge')


@harness(P)
def rectangle(ctx):
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    from Patro.GeometryEngine.Vector import Vector2D
    p = points(ctx, 2)
    r = Rectangle2D(Vector2D(*p[0]), Vector2D(*p[1]))
    smallest(ctx, r.bounding_box, p)


@harness(P, budget=40)
def many_points(ctx):
    """thirteen points, one of them anywhere"""
    from Patro.GeometryEngine.BoundingBox import bounding_box_from_points
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GeometryEngine.Polyline import Polyline2D
    p = [(3, -1), (4, 1), (-5, 9), (2, 6), (5, 3), (-5, 8), (9, 7), (9, -3), (2, -3), (8, 4), (6, 2), (-6, 0)]
    k = ctx.choose('place', [0, 6, 12])
    p.insert(k, (ctx.real('x', -20, 20), ctx.real('y', -20, 20)))
    v = [Vector2D(*q) for q in p]
    smallest(ctx, bounding_box_from_points(v), p)
    smallest(ctx, Polyline2D(*v).bounding_box, p, 'polyline ')
