"""Bézier curves: intersection with a line and closest point."""
from engine.harness import harness
try:
    from engine.loader import STUBS
    from engine import sympy_stub
    STUBS['sympy'] = sympy_stub.MODULE
except ImportError:      # replay against the real code
    pass

MODULES = ['Patro.GeometryEngine.Bezier', 'Patro.Common.Math.Root']
BOUNDS = ('one quadratic or cubic curve; intersection: the line is in an arbitrary position relative to the curve, its direction is one of six or (quadratic) '
          'any; closest point: curves in a frame with the first point at the origin, points and parameters in [-10, 10]; at most '
          'three stationary points for a quadratic and five for a cubic curve (two of them arbitrary) are enumerated')
ASSUMPTIONS = ['sympy.real_roots(p) returns values r with p(r) = 0, among which is every root the property quantifies over',
               'roots are exact: rounding of .n() is out of reach']
META = dict(
    title='Bézier curves: intersections with a line and closest point',
    statement="""intersect_line of a quadratic or cubic Bézier curve and a line returns parameters whose points lie on the line,
    and every parameter where the curve meets the line is returned (each crossing exactly, for whatever position, direction and
    length of the direction vector), None or an empty list meaning that they do not meet. closest_point returns a point of the
    curve within its ends such that no point of the curve where the distance is stationary, and none of the two ends, is
    closer, therefore the closest one; distance_to_point is the distance to it. Neither modifies the curve.""",
    quant='all control points, lines and points, and every parameter t of the curve',
    why='the closest of several stationary points depends on signs of polynomials of degree five; tests try a curve or two',
    files=['Patro/GeometryEngine/Bezier.py', 'Patro/Common/Math/Root.py'],
    mechanism=[('intersect_line, closest_point, _closest_point_at_roots', 'Patro/GeometryEngine/Bezier.py'),
               ('quadratic_root, cubic_root, fifth_root', 'Patro/Common/Math/Root.py')])
P = 'C12'
DIRS = [(1, 0), (0, -2), (3, -4), (-1, 1), (-5, 12)]


def bern(c, t):
    u = 1 - t
    w = [u * u, 2 * t * u, t * t] if len(c) == 3 else [u * u * u, 3 * u * u * t, 3 * u * t * t, t * t * t]
    return [sum(a * q[i] for a, q in zip(w, c)) for i in (0, 1)]


def deriv(c, t):
    d = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(c, c[1:])]
    u = 1 - t
    w = [u, t] if len(d) == 2 else [u * u, 2 * t * u, t * t]
    return [sum(a * q[i] for a, q in zip(w, d)) for i in (0, 1)]


def build(c):
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Vector import Vector2D
    return (QuadraticBezier2D if len(c) == 3 else CubicBezier2D)(*[Vector2D(*p) for p in c])


def as_list(r):
    if r is None:
        return []
    return list(r) if isinstance(r, (list, tuple)) else [r]


def meet(ctx, c, lp, lv, unique=True):
    from Patro.GeometryEngine.Line import Line2D
    from Patro.GeometryEngine.Vector import Vector2D
    b = build(c)
    side = lambda t: lv[0] * (bern(c, t)[1] - lp[1]) - lv[1] * (bern(c, t)[0] - lp[0])
    w = ctx.real('w', -2, 3)
    hit = ctx.eq_(side(w), 0)
    if ctx.choose('crossing', [True, False]):
        ctx.assume(hit)
        wit = [w]
    else:
        wit = []
    if ctx.symbolic:
        sympy_stub.reset(*wit, max_roots=2)
    r = [t for t in as_list(b.intersect_line(Line2D(Vector2D(*lp), Vector2D(*lv))))]
    for i, t in enumerate(r[:2]):
        ctx.eq(side(t), 0, 'on the line')
    if wit:
        ctx.check(ctx.or_(*[ctx.eq_(t, w) for t in r]), 'every crossing is returned')
    ctx.eq([[q.x, q.y] for q in b.points], [list(q) for q in c], 'curve unchanged')


@harness(P, params=[{'deg': 2, 'd': d} for d in DIRS] + [{'deg': 3, 'd': d} for d in DIRS])
def line_meets(ctx, deg, d):
    """curve given by the abscissae and ordinates in the frame of the line, small integers combination kept exact"""
    lp = (ctx.real('lpx', -100, 100), ctx.real('lpy', -100, 100))
    c = []
    for i in range(deg + 1):
        x, y = ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', -100, 100)
        c.append((lp[0] + d[0] * x - d[1] * y, lp[1] + d[1] * x + d[0] * y))
    # the curve is not along the line; nor a null polynomial but for its constant
    ys = [(d[0] * (q[1] - lp[1]) - d[1] * (q[0] - lp[0])) for q in c]
    ctx.assume(ctx.or_(*[v > 1 for v in ys], *[v < -1 for v in ys]))
    a = ys[2] - 2 * ys[1] + ys[0] if deg == 2 else ys[3] - 3 * ys[2] + 3 * ys[1] - ys[0]
    ctx.assume(ctx.or_(a > 0.5, a < -0.5))
    if deg == 2:
        # off the tangency, where the number of crossings is decided by rounding errors
        D = ys[1] * ys[1] - ys[0] * ys[2]
        ctx.assume(ctx.or_(D > 0.01, D < -0.01))
    meet(ctx, c, lp, d)


@harness(P, params=[{'deg': 2}, {'deg': 3}])
def line_meets_linear(ctx, deg):
    """the distance of the curve to the line is linear or null"""
    lp = (ctx.real('lpx', -100, 100), ctx.real('lpy', -100, 100))
    d = ctx.choose('d', [(1, 0), (0, 1)])
    h, k = ctx.real('h', -100, 100), ctx.choose('k', [0, 1, -2, 5])
    ctx.assume(ctx.or_(h > 1, h < -1))
    c = []
    for i in range(deg + 1):
        x, y = ctx.real(f'x{i}', -100, 100), h + i * k
        c.append((lp[0] + d[0] * x - d[1] * y, lp[1] + d[1] * x + d[0] * y))
    if k != 0:
        meet(ctx, c, lp, d)
    else:
        from Patro.GeometryEngine.Line import Line2D
        from Patro.GeometryEngine.Vector import Vector2D
        if ctx.symbolic:
            sympy_stub.reset(max_roots=2)
        ctx.is_(as_list(build(c).intersect_line(Line2D(Vector2D(*lp), Vector2D(*d)))), [], 'parallel curve')


def near(ctx, c, w, k, q, max_roots):
    """the distance of q to the curve is stationary at w"""
    from Patro.GeometryEngine.Vector import Vector2D
    b = build(c)
    dist = lambda p: (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])
    if ctx.symbolic:
        sympy_stub.reset(w, max_roots=max_roots, constrain=False)
    r = b.closest_point(Vector2D(*q))
    ctx.check(r is not None, 'there is one')
    r = (r.x, r.y)
    ctx.le(dist(r), dist(bern(c, w)), 'no stationary point is closer')
    ctx.le(dist(r), dist(c[0]), 'start is not closer')
    ctx.le(dist(r), dist(c[-1]), 'end is not closer')
    if ctx.symbolic:
        ts = [t for _, roots in sympy_stub.LOG for t in roots] + [w]
        ok = [ctx.and_(ctx.eq_(list(r), bern(c, t)), t >= 0, t <= 1) for t in ts]
        ctx.check(ctx.or_(ctx.eq_(list(r), list(c[0])), ctx.eq_(list(r), list(c[-1])), *ok), 'point of the curve')
    else:
        best = min(sum((x - y) ** 2 for x, y in zip(r, bern(c, i / 20000))) for i in range(20001))
        ctx.check(best < 1e-3, 'point of the curve')
    ctx.eq([[p.x, p.y] for p in b.points], [list(p) for p in c], 'curve unchanged')


def foot(ctx, c):
    """(w, k, q) with q on the normal of the curve at w"""
    w, k = ctx.real('w', 0, 1), ctx.real('k', -10, 10)
    p, v = bern(c, w), deriv(c, w)
    return w, k, (p[0] - k * v[1], p[1] + k * v[0])


R = [{'deg': 2, 'roots': 1}, {'deg': 2, 'roots': 2}, {'deg': 3, 'roots': 1}]
R += [{'deg': 3, 'roots': r, '_tier': 'thorough'} for r in (2, 3)]
O = dict(branch_timeout=700, timeout=5000, budget=70, weight=5)


@harness(P, params=R, **O)
def closest(ctx, deg, roots):
    c = [(0, 0)] + [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(1, deg + 1)]
    B = [c[-1][i] - 2 * c[1][i] if deg == 2 else c[3][i] - 3 * c[2][i] + 3 * c[1][i] for i in (0, 1)]
    ctx.assume(B[0] * B[0] + B[1] * B[1] > 0.01)
    near(ctx, c, *foot(ctx, c), roots)


@harness(P, params=[{'roots': 1}, {'roots': 2, '_tier': 'thorough'}], **O)
def closest_elevated(ctx, roots):
    """cubic curve of degree two"""
    q = [(0, 0)] + [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in (1, 2)]
    B = [q[2][i] - 2 * q[1][i] for i in (0, 1)]
    ctx.assume(B[0] * B[0] + B[1] * B[1] > 0.01)
    mid = lambda a, b: tuple((x + 2 * y) / 3 for x, y in zip(a, b))
    c = [q[0], mid(q[0], q[1]), mid(q[2], q[1]), q[2]]
    near(ctx, c, *foot(ctx, c), roots)


SHAPES = {
    'arch': [(0, 0), (2, 3), (4, 0)], 'side': [(0, 0), (0, 1), (1, 2)], 'skew': [(1, 0), (-2, 5), (3, 1)],
    's': [(0, 0), (3, 4), (-1, 5), (4, 1)], 'c': [(0, 1), (2, 1), (2, -1), (-1, -2)],
}


@harness(P, params=[{'shape': s} for s in SHAPES], branch_timeout=1500, timeout=8000, budget=60, weight=3)
def closest_shape(ctx, shape):
    """a given curve, every point of the plane which projects on it"""
    c = [(ctx.frac(x), ctx.frac(y)) for x, y in SHAPES[shape]]
    near(ctx, c, *foot(ctx, c), 1)


@harness(P, params=[{'deg': 2}, {'deg': 3}])
def closest_at_cusp(ctx, deg):
    """the speed is null at w: it is a stationary point for every q"""
    w = ctx.frac(*ctx.choose('w', [(1, 2), (1, 4), (3, 4)]))
    u = 1 - w
    c = [(0, 0)] + [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(1, deg)]
    if deg == 2:
        last = [c[1][i] - u / w * (c[1][i] - c[0][i]) for i in (0, 1)]
    else:
        last = [c[2][i] - (u * u * (c[1][i] - c[0][i]) + 2 * u * w * (c[2][i] - c[1][i])) / (w * w) for i in (0, 1)]
    c.append(tuple(last))
    near(ctx, c, w, 0, (ctx.real('qx', -10, 10), ctx.real('qy', -10, 10)), 1)


@harness(P, params=[{'deg': 2}, {'deg': 3}])
def closest_degenerate(ctx, deg):
    """straight uniform curve or a point, for which the equation degenerates"""
    dx, dy = ctx.choose('u', [(0, 0), (1, 0), (1, 2)])
    ox, oy = ctx.real('ox', -10, 10), ctx.real('oy', -10, 10)
    c = [(ox + i * dx, oy + i * dy) for i in range(deg + 1)]
    near(ctx, c, *foot(ctx, c), 1)


@harness(P)
def distance(ctx):
    from Patro.GeometryEngine.Vector import Vector2D
    c = [(0, 0), (1, ctx.real('y1', -10, 10)), (2, 0)]
    q = (ctx.real('qx', -10, 10), ctx.real('qy', -10, 10))
    b = build(c)
    if ctx.symbolic:
        sympy_stub.reset(max_roots=1, constrain=False)
    r = b.closest_point(Vector2D(*q))
    d = b.distance_to_point(Vector2D(*q))
    ctx.eq(d * d, (r.x - q[0]) * (r.x - q[0]) + (r.y - q[1]) * (r.y - q[1]), 'distance to the closest point')
    ctx.check(d >= 0, 'positive')
