"""Polylines and polygon simplification."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Polygon', 'Patro.GeometryEngine.Polyline', 'Patro.GeometryEngine.Segment']
BOUNDS = ('polylines of 2 to 4 arbitrary points and one arbitrary point; simplification of triangles and quadrilaterals having '
          'up to one collinear vertex inserted at any place of each edge (6 and 5 vertices), any first vertex, threshold >= 0')
BOUNDS += '; also polylines of a dozen points, one coordinate symbolic'
META = dict(
    title='Polyline length, distance and path; polygon simplification',
    statement="""For any polyline, the length is the sum of the lengths of its edges, the distance to a point is the smallest
    distance to one of its edges, and its path goes through the same points in the same order. Simplifying a polygon with a
    threshold keeps a subsequence of its vertices and never modifies the polygon: a polygon whose every vertex deviates from
    the line of its neighbours by more than the threshold is returned as it is, and vertices lying exactly on the edges of
    a triangle or quadrilateral are all removed, whatever the first vertex, leaving the corners and the area unchanged.""",
    quant='all vertex coordinates, positions of the redundant vertices, first vertex and thresholds',
    why='the simplification loop wraps around the first vertex and skips removed ones, tests use two literal polygons',
    files=['Patro/GeometryEngine/Polyline.py', 'Patro/GeometryEngine/Polygon.py'],
    mechanism=[('length, distance_to_point, to_path', 'Patro/GeometryEngine/Polyline.py'), ('simplify', 'Patro/GeometryEngine/Polygon.py')])
P = 'C10'


def vs(c):
    from Patro.GeometryEngine.Vector import Vector2D
    return [Vector2D(*p) for p in c]


def cross3(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def d2(a, b):
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


@harness(P, params=[{'n': 2}, {'n': 3}, {'n': 4}])
def length(ctx, n):
    from Patro.GeometryEngine.Polyline import Polyline2D
    v = ctx.vecs('p', n)
    c = [(q.x, q.y) for q in v]
    p = Polyline2D(*v)
    s = 0
    for a, b in zip(c, c[1:]):
        s = s + ctx.sqrt(d2(a, b))
    ctx.eq(p.length, s, 'length')
    e = list(p.edges)
    ctx.is_(len(e), n - 1, 'number of edges')
    for i, x in enumerate(e):
        ctx.eq([x.p0.x, x.p0.y, x.p1.x, x.p1.y], list(c[i]) + list(c[i + 1]), 'edge')
    path = p.to_path()
    ctx.eq(path.p0, list(c[0]), 'start of the path')
    ctx.eq([[x.stop_point.x, x.stop_point.y] for x in path], [list(q) for q in c[1:]], 'points of the path')
    ctx.check(not path.is_closed, 'open path')
    ctx.check(not p.is_closed, 'open polyline')
    ctx.raises(ValueError, lambda: Polyline2D(v[0]), 'less than two points')
    ctx.eq([[q.x, q.y] for q in p.points], [list(q) for q in c], 'unchanged')


def check_distance(ctx, p, c):
    q = ctx.vec('q', lo=-100, hi=100)
    d = p.distance_to_point(q)
    ctx.le(0, d, 'positive')
    # reference: clamp the projection on each edge
    refs = []
    for a, b in zip(c, c[1:]):
        ux, uy = b[0] - a[0], b[1] - a[1]
        m2 = ux * ux + uy * uy
        dot = (q.x - a[0]) * ux + (q.y - a[1]) * uy
        cr = ux * (q.y - a[1]) - uy * (q.x - a[0])
        if dot <= 0:
            refs.append(((q.x - a[0]) * (q.x - a[0]) + (q.y - a[1]) * (q.y - a[1]), 1))
        elif dot >= m2:
            refs.append(((q.x - b[0]) * (q.x - b[0]) + (q.y - b[1]) * (q.y - b[1]), 1))
        else:
            refs.append((cr * cr, m2))
    for i, (a, m) in enumerate(refs):
        ctx.le(d * d * m, a, f'not more than the distance to edge {i}')
    ctx.check(ctx.or_(*[ctx.eq_(d * d * m, a) for a, m in refs]), 'distance to one of the edges')


@harness(P, params=[{'n': 2}, {'n': 3}])
def distance(ctx, n):
    from Patro.GeometryEngine.Polyline import Polyline2D
    from Patro.GeometryEngine.Segment import Segment2D
    c = [(0, 0), (ctx.real('x1', 0.1, 100), 0)] + [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', -100, 100)) for i in range(2, n)]
    check_distance(ctx, Polyline2D(*vs(c)), c)


SHAPES = [[(0, 0), (2, 5), (4, 0), (6, 1)], [(0, 0), (4, 0), (4, 4), (0, 4), (0, 1)], [(0, 0), (1, 3), (9, -3), (10, 0), (3, 2)]]


@harness(P, params=[{'shape': i, 'rev': r} for i in range(3) for r in (False, True)], budget=60)
def distance_shapes(ctx, shape, rev):
    """polylines whose edges are nearer, then farther, then nearer"""
    from Patro.GeometryEngine.Polyline import Polyline2D
    c = SHAPES[shape][::-1 if rev else 1]
    check_distance(ctx, Polyline2D(*vs(c)), c)


@harness(P, params=[{'n': 3}, {'n': 4}])
def nothing_to_simplify(ctx, n):
    from Patro.GeometryEngine.Polygon import Polygon2D
    if n == 3:
        c = [(0, 0), (ctx.real('x1', 0.1, 100), 0), (ctx.real('x2', -100, 100), ctx.real('y2', -100, 100))]
    else:
        w, h = ctx.real('w', 0.1, 100), ctx.real('h', 0.1, 100)
        c = [(0, 0), (w, 0), (w + 2, h), (2, h)]
    t = ctx.real('t', 0, 10)
    for i in range(n):
        a, b, d = c[i - 1], c[i], c[(i + 1) % n]
        cr = cross3(a, d, b)
        m2 = d2(a, d)
        ctx.assume(m2 > 0.01)
        ctx.assume(cr * cr > t * t * m2 + 0.01)
    p = Polygon2D(*vs(c))
    ctx.check(p.simplify(t) is p, 'same polygon')
    ctx.eq([[q.x, q.y] for q in p.points], [list(q) for q in c], 'unchanged')


@harness(P, params=[{'corners': 3}, {'corners': 4}])
def collinear(ctx, corners):
    from Patro.GeometryEngine.Polygon import Polygon2D
    n = ctx.real('n', 1, 100)
    if corners == 3:
        c = [(0, 0), (n, 0), (ctx.real('x2', -50, 50), ctx.real('y2', 1, 100))]
        mask = ctx.choose('mask', [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)])
    else:
        h = ctx.real('h', 1, 100)
        c = [(0, 0), (n, 0), (n + 5, h), (-3, h * 2)]
        mask = ctx.choose('mask', [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)])
    pts = []
    for i, m in enumerate(mask):
        a, b = c[i], c[(i + 1) % corners]
        pts.append((a, True))
        if m:
            u = ctx.real(f'u{i}', 0.1, 0.9)
            pts.append(((a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1])), False))
    k = ctx.choose('first', list(range(corners + 1)))
    pts = pts[k:] + pts[:k]
    p = Polygon2D(*vs([q for q, _ in pts]))
    r = p.simplify(0.001 if not ctx.symbolic else ctx.frac(1, 1000))
    ctx.check(r is not None, 'simplified')
    got = [[q.x, q.y] for q in r.points]
    want = [list(q) for q, corner in pts if corner]
    ctx.is_(len(got), len(want), 'number of corners')
    ctx.eq(got, want, 'corners')
    ctx.eq([[q.x, q.y] for q in p.points], [list(q) for q, _ in pts], 'unchanged')


@harness(P)
def threshold(ctx):
    """a vertex off an edge by h is removed iff h <= threshold"""
    from Patro.GeometryEngine.Polygon import Polygon2D
    n, h, t = ctx.real('n', 10, 100), ctx.real('h', -1, 1), ctx.real('t', 0, 1)
    s = 1 if h >= 0 else -1
    ctx.assume(ctx.or_(h * s - t > 0.001, t - h * s > 0.001))
    c = [(0, 0), (n, 0), (n * 2, h), (n * 3, 0), (n * 3, n * 2), (0, n * 2)]
    c = [c[0], c[2], c[3], c[4], c[5]]
    k = ctx.choose('first', [0, 3, 4])
    c = c[k:] + c[:k]
    p = Polygon2D(*vs(c))
    r = p.simplify(t)
    removed = h * s <= t
    got = [[q.x, q.y] for q in r.points]
    ctx.eq(got, [list(q) for q in c if not (removed and q[1] is h)], 'vertices')


LONG = [(0, 0), (3, 1), (4, 5), (9, 4), (8, -3), (14, -2), (15, 6), (20, 3), (22, 9), (27, 8), (31, 0)]


@harness(P, params=[{'y': y} for y in (2, 10)], budget=60)
def long_polyline(ctx, y):
    """eleven points"""
    from Patro.GeometryEngine.Polyline import Polyline2D
    c = [(ctx.frac(a), ctx.frac(b)) for a, b in LONG] if ctx.symbolic else LONG
    p = Polyline2D(*vs(c))
    x = ctx.real('x', 0, 32)
    from Patro.GeometryEngine.Vector import Vector2D
    d = p.distance_to_point(Vector2D(x, y))
    refs = []
    for a, b in zip(LONG, LONG[1:]):
        ux, uy = b[0] - a[0], b[1] - a[1]
        m2 = ux * ux + uy * uy
        dot = (x - a[0]) * ux + (y - a[1]) * uy
        cr = ux * (y - a[1]) - uy * (x - a[0])
        d0 = (x - a[0]) * (x - a[0]) + (y - a[1]) * (y - a[1])
        d1 = (x - b[0]) * (x - b[0]) + (y - b[1]) * (y - b[1])
        refs.append(ctx.ite(dot <= 0, d0, ctx.ite(dot >= m2, d1, cr * cr * ctx.frac(1, m2))))
    for i, r in enumerate(refs):
        ctx.le(d * d, r, f'not more than the distance to edge {i}')
    ctx.check(ctx.or_(*[ctx.eq_(d * d, r) for r in refs]), 'distance to one of the edges')
    ctx.is_(len(list(p.edges)), 10, 'number of edges')
    ctx.eq([[s.stop_point.x, s.stop_point.y] for s in p.to_path()], [list(q) for q in LONG[1:]], 'points of the path')
