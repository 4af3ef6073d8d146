"""Convex hull (Graham scan)."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Polygon']
BOUNDS = ('3 arbitrary points, 4 points (one at the origin, the others arbitrary above it, in any order), 5 points (thorough '
          'tier), 6 points of which one is symbolic, points having duplicates or the same polar angle')
BOUNDS += '; also fourteen points of which one is symbolic'
META = dict(
    title='The convex hull is the counterclockwise convex envelope of the points',
    statement="""For any list of points, in any order, with duplicates or collinear points, every vertex of the convex hull is
    one of the points, the hull starts at the lowest (then leftmost) point, it is counterclockwise and turns left at each
    vertex, and no point lies strictly outside of it. The input points are not modified. A polygon known to be convex is its
    own hull, and the hull reports itself convex and counterclockwise.""",
    quant='all coordinates and all orders of the points within the sizes given, duplicates and equal polar angles included',
    why='the result depends on the order of sorting and on ties of angles, a combinatorial number of cases',
    files=['Patro/GeometryEngine/Polygon.py', 'Patro/GeometryEngine/Vector.py'],
    mechanism=[('sort_point_for_graham_scan, convex_hull', 'Patro/GeometryEngine/Polygon.py')])
P = 'C09'


def cross3(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def vs(c):
    from Patro.GeometryEngine.Vector import Vector2D
    return [Vector2D(*p) for p in c]


def check_hull(ctx, c, hull, flat=False):
    h = [(p.x, p.y) for p in hull]
    n = len(h)
    for p in h:
        ctx.check(ctx.or_(*[ctx.and_(ctx.eq_(p[0], q[0]), ctx.eq_(p[1], q[1])) for q in c]), 'vertex is a point')
    for q in c:
        ctx.check(ctx.or_(q[1] > h[0][1], ctx.and_(ctx.eq_(q[1], h[0][1]), ctx.le_(h[0][0], q[0]))), 'first is the lowest')
    if n < 3:
        return
    for i in range(n):
        a, b = h[i], h[(i + 1) % n]
        ctx.le(0, cross3(a, b, h[(i + 2) % n]), 'turns left')
        for q in c:
            ctx.le(0, cross3(a, b, q), 'contains the points')


@harness(P)
def three(ctx):
    from Patro.GeometryEngine.Polygon import convex_hull
    c = [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', -100, 100)) for i in range(3)]
    cr = cross3(*c)
    ctx.assume(ctx.or_(cr > 0.01, cr < -0.01))
    p = vs(c)
    hull = convex_hull(p)
    ctx.eq([[q.x, q.y] for q in p], [list(q) for q in c], 'points unchanged')
    check_hull(ctx, c, list(hull.points))
    ctx.check(hull.is_convex, 'convex')
    ctx.check(hull.is_counterclockwise, 'counterclockwise')


@harness(P, params=[{'order': 0}, {'order': 1}, {'order': 2}], max_paths=200)
def four(ctx, order):
    from Patro.GeometryEngine.Polygon import convex_hull
    c = [(0, 0)] + [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', 0.1, 100)) for i in range(3)]
    c = c[order:] + c[:order]
    hull = convex_hull(vs(c), as_polygon=False)
    ctx.assume(len(hull) >= 3)
    check_hull(ctx, c, hull)


@harness(P, tier='thorough', max_paths=100)
def five(ctx):
    from Patro.GeometryEngine.Polygon import convex_hull
    c = [(0, 0)] + [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', 0.1, 100)) for i in range(4)]
    hull = convex_hull(vs(c), as_polygon=False)
    ctx.assume(len(hull) >= 3)
    check_hull(ctx, c, hull)


@harness(P)
def ties(ctx):
    """several points in the same directions, on the axes, and duplicates"""
    from Patro.GeometryEngine.Polygon import convex_hull
    a, b, d = ctx.real('a', 0.1, 10), ctx.real('b', 0.1, 10), ctx.real('d', 0.1, 10)
    kind = ctx.choose('kind', ['same angle', 'bottom edge', 'left edge', 'duplicate'])
    if kind == 'same angle':
        c = [(a, a), (4, 0), (b, b), (0, 0), (d, d), (0, 3)]
    elif kind == 'bottom edge':
        c = [(a, 0), (0, 0), (b, 0), (1, 5), (d, 0)]
    elif kind == 'left edge':
        c = [(0, a), (0, 0), (0, b), (5, 1), (0, d)]
    else:
        c = [(0, 0), (a, b), (0, 0), (a, b), (a + 1, 0), (a + 1, 0)]
    r = ctx.choose('shift', [0, 1, 2, 3])
    c = c[r:] + c[:r]
    hull = convex_hull(vs(c), as_polygon=False)
    check_hull(ctx, c, hull)


@harness(P)
def deep(ctx):
    """up to four vertices of the hull are discarded by the last points"""
    from Patro.GeometryEngine.Polygon import convex_hull
    kind = ctx.choose('kind', ['valley', 'cap', 'last'])
    a = ctx.real('a', -10, 10)
    if kind == 'valley':
        # a chain bulging towards the bottom edge, hidden or not by a far point
        c = [(0, 0), (8, 1), (7, 2), (6.5, 3), (6.25, 4), (a, 20)]
    elif kind == 'cap':
        c = [(0, 0), (10, 0), (5, 1), (a, 5), (2, 6), (-2, 30)]
    else:
        c = [(0, 0), (6, 1), (5, 2), (4, 2.5), (3, 2.75), (a, ctx.real('b', 1, 20))]
    c = c[4:] + c[:4]
    check_hull(ctx, c, convex_hull(vs(c), as_polygon=False))


@harness(P)
def polygon_hull(ctx):
    """a concave quadrilateral loses its reflex vertex"""
    from Patro.GeometryEngine.Polygon import Polygon2D
    s, t = ctx.real('s', 0.1, 0.4), ctx.real('t', 0.1, 0.4)
    # reflex vertex inside the triangle
    c = [(0, 0), (4, 0), (4 * s, 4 * t), (0, 4)]
    k = ctx.choose('first', [0, 1, 2, 3])
    c = c[k:] + c[:k]
    p = Polygon2D(*vs(c))
    if ctx.choose('order', [False, True]):
        ctx.check(not p.is_convex, 'concave')
    hull = p.convex_hull()
    ctx.eq([[q.x, q.y] for q in hull.points], [[0, 0], [4, 0], [0, 4]], 'hull')
    ctx.check(hull.is_convex and not hull.is_clockwise, 'convex and counterclockwise')
    q = Polygon2D(*vs([(0, 0), (4, 0), (4 * s, 4 + t)]))
    if q.is_convex:
        ctx.check(q.convex_hull() is q, 'its own hull')


@harness(P, params=[{'x': x} for x in (-9, 1)], budget=60)
def many(ctx, x):
    """fourteen points"""
    from Patro.GeometryEngine.Polygon import convex_hull
    t = ctx.real('t', -12, 12)
    c = [(3, 1), (0, 0), (5, -2), (8, 3), (2, 7), (-4, 4), (-6, -1), (1, 9), (6, 6), (10, 0), (4, -6), (-3, -5), (7, 1), (x, t)]
    k = ctx.choose('first', [0, 4])
    c = c[k:] + c[:k]
    p = vs(c)
    check_hull(ctx, c, convex_hull(p, as_polygon=False))
    ctx.eq([[q.x, q.y] for q in p], [list(q) for q in c], 'points unchanged')
