"""Segments."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Segment']
BOUNDS = 'one or two segments with arbitrary real end points (degenerated ones included where stated), one arbitrary point'
META = dict(
    title='Segments: crossing tests, intersection, distance, containment and sides',
    statement="""For any two segments, the crossing predicate is true exactly when they have a common point, including end
    points touching and collinear overlaps, and it is symmetric. The intersection of two non-parallel segments is the common
    point of their lines and is flagged as an intersection exactly when it lies on both segments; parallel ones give None.
    The distance of a point to a segment is the euclidean distance to the nearest point of the segment (null length included),
    and a point is contained exactly when this distance is null up to 1e-6. Side, left, right and collinear tests follow the
    sign of the cross product; length, vector, center, interpolation and shared vertices are those of the end points.""",
    quant='all end points and points, including collinear, touching, overlapping and degenerated configurations',
    why='crossing predicates fail on touching and collinear configurations which random or literal tests rarely contain',
    files=['Patro/GeometryEngine/Segment.py', 'Patro/GeometryEngine/Triangle.py', 'Patro/GeometryEngine/Line.py'],
    mechanism=[('intersect_with, intersection, distance_to_point', 'Patro/GeometryEngine/Segment.py'),
               ('triangle_orientation', 'Patro/GeometryEngine/Triangle.py')])
P = 'C06'


def segment(ctx, tag='', lo=None, hi=None):
    from Patro.GeometryEngine.Segment import Segment2D
    a, b = ctx.vec('a' + tag, lo=lo, hi=hi), ctx.vec('b' + tag, lo=lo, hi=hi)
    return Segment2D(a, b), (a.x, a.y), (b.x, b.y)


def cross3(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def between(ctx, o, a, q):
    """q, collinear with o and a, is in the box of o and a"""
    return ctx.and_(*[ctx.or_(ctx.and_(ctx.le_(o[i], q[i]), ctx.le_(q[i], a[i])), ctx.and_(ctx.le_(a[i], q[i]), ctx.le_(q[i], o[i]))) for i in (0, 1)])


@harness(P)
def basics(ctx):
    s, (ax, ay), (bx, by) = segment(ctx)
    ctx.eq(s.vector, [bx - ax, by - ay], 'vector')
    ctx.eq(s.direction, [bx - ax, by - ay], 'direction')
    ctx.eq(s.center * 2, [ax + bx, ay + by], 'center')
    n = s.length
    ctx.le(0, n, 'length is positive')
    ctx.eq(n * n, (bx - ax) * (bx - ax) + (by - ay) * (by - ay), 'length')
    ctx.eq(s.cross_product, ax * by - ay * bx, 'cross product')
    t = ctx.real('t')
    ctx.eq(s.interpolate(t), [ax + t * (bx - ax), ay + t * (by - ay)], 'interpolate')
    ctx.eq(s.point_at_t(t), [ax + t * (bx - ax), ay + t * (by - ay)], 'point at t')
    l = s.to_line()
    ctx.eq([l.p.x, l.p.y, l.v.x, l.v.y], [ax, ay, bx - ax, by - ay], 'line')
    k, (cx, cy), (dx, dy) = segment(ctx, '2')
    ctx.eq(s.cross(k), (bx - ax) * (dy - cy) - (by - ay) * (dx - cx), 'cross')
    bb = s.bounding_box
    ctx.eq([bb.x.inf, bb.x.sup, bb.y.inf, bb.y.sup],
           [ctx.ite(ax < bx, ax, bx), ctx.ite(ax < bx, bx, ax), ctx.ite(ay < by, ay, by), ctx.ite(ay < by, by, ay)], 'bounding box')


@harness(P)
def sides(ctx):
    s, a, b = segment(ctx)
    q = ctx.vec('q')
    c = cross3(a, b, (q.x, q.y))
    ctx.eq(s.side_of(q), c, 'side')
    ctx.check_iff(s.left_of(q), c > 0, 'left')
    ctx.check_iff(s.right_of(q), c < 0, 'right')
    ctx.check_iff(s.is_collinear(q), c == 0, 'collinear')


@harness(P, params=[{'how': 'interior'}, {'how': 'endpoint'}, {'how': 'overlap'}])
def crossing_true(ctx, how):
    """segments built around a common point do intersect"""
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    t, u = ctx.real('t', 0, 1), ctx.real('u', 0, 1)
    v, w = ctx.vec('v'), ctx.vec('w')
    vx, vy, wx, wy = v.x, v.y, w.x, w.y
    if how == 'interior':
        # p +- parts of arbitrary vectors
        ctx.assume(ctx.or_(vx * wy - vy * wx > 0.001, vx * wy - vy * wx < -0.001))
        a, b = (-t * vx, -t * vy), ((1 - t) * vx, (1 - t) * vy)
        c, d = (-u * wx, -u * wy), ((1 - u) * wx, (1 - u) * wy)
    elif how == 'endpoint':
        a, b = (0, 0), (vx, vy)
        c, d = (0, 0), (wx, wy)
    else:
        k, m = ctx.real('k'), ctx.real('m')
        ctx.assume(ctx.or_(vx != 0, vy != 0))
        ctx.assume(ctx.and_(k <= 1, m >= 0))
        a, b = (0, 0), (vx, vy)
        c, d = (k * vx, k * vy), (m * vx, m * vy)
    s1 = Segment2D(Vector2D(*a), Vector2D(*b))
    s2 = Segment2D(Vector2D(*c), Vector2D(*d))
    if ctx.bool('reverse'):
        s2 = Segment2D(Vector2D(*d), Vector2D(*c))
    ctx.check(bool(s1.intersect_with(s2)), 'intersect')
    ctx.check(bool(s2.intersect_with(s1)), 'intersect (swapped)')


@harness(P, params=[{'swap': False}, {'swap': True}])
def crossing(ctx, swap):
    """first segment on the x axis, second one arbitrary: true iff they have a common point"""
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    n = ctx.real('n', 0.01, 1000)
    c, d = ctx.vec('c', lo=-1000, hi=1000), ctx.vec('d', lo=-1000, hi=1000)
    cx, cy, dx, dy = c.x, c.y, d.x, d.y
    s1 = Segment2D(Vector2D(0, 0), Vector2D(n, 0))
    s2 = Segment2D(c, d)
    r = bool(s2.intersect_with(s1) if swap else s1.intersect_with(s2))
    # abscissa where the line of s2 crosses y=0, times (dy - cy)
    num = cx * dy - dx * cy
    den = dy - cy
    transversal = ctx.and_(ctx.or_(ctx.and_(cy <= 0, dy >= 0), ctx.and_(cy >= 0, dy <= 0)),
                           ctx.or_(ctx.and_(den > 0, num >= 0, num <= n * den), ctx.and_(den < 0, num <= 0, num >= n * den)))
    flat = ctx.and_(cy == 0, dy == 0, ctx.or_(cx >= 0, dx >= 0), ctx.or_(cx <= n, dx <= n))
    ctx.check_iff(r, ctx.or_(transversal, flat), 'intersect iff common point')


@harness(P)
def intersection(ctx):
    s, a, b = segment(ctx, '0')
    k, c, d = segment(ctx, '1')
    v = (b[0] - a[0], b[1] - a[1])
    w = (d[0] - c[0], d[1] - c[1])
    cr = v[0] * w[1] - v[1] * w[0]
    p, flag = s.intersection(k)
    if cr == 0:
        ctx.check(p is None and flag is None, 'parallel')
        return
    ctx.assume(ctx.or_(cr > 1e-6, cr < -1e-6))
    if p is None:
        ctx.fail('no intersection')
    ctx.eq((p.x - a[0]) * v[1], (p.y - a[1]) * v[0], 'on the first line')
    ctx.eq((p.x - c[0]) * w[1], (p.y - c[1]) * w[0], 'on the second line')
    num1 = (c[0] - a[0]) * w[1] - (c[1] - a[1]) * w[0]
    num2 = (c[0] - a[0]) * v[1] - (c[1] - a[1]) * v[0]
    if cr > 0:
        on = ctx.and_(num1 >= 0, num1 <= cr, num2 >= 0, num2 <= cr)
    else:
        on = ctx.and_(num1 <= 0, num1 >= cr, num2 <= 0, num2 >= cr)
    ctx.check_iff(bool(flag), on, 'flagged iff on both segments')


@harness(P)
def distance(ctx):
    s, (ax, ay), (bx, by) = segment(ctx)
    q = ctx.vec('q')
    qx, qy = q.x, q.y
    d = s.distance_to_point(q)
    vx, vy = bx - ax, by - ay
    m2 = vx * vx + vy * vy
    dot = (qx - ax) * vx + (qy - ay) * vy
    ctx.le(0, d, 'distance is positive')
    if dot <= 0:
        ctx.eq(d * d, (qx - ax) * (qx - ax) + (qy - ay) * (qy - ay), 'before the first point')
    elif dot >= m2:
        ctx.eq(d * d, (qx - bx) * (qx - bx) + (qy - by) * (qy - by), 'after the second point')
    else:
        cr = vx * (qy - ay) - vy * (qx - ax)
        ctx.eq(d * d * m2, cr * cr, 'along the segment')
    ctx.eq([q.x, q.y], [qx, qy], 'point unchanged')


@harness(P)
def null_segment(ctx):
    from Patro.GeometryEngine.Segment import Segment2D
    a, q = ctx.vec('a'), ctx.vec('q')
    s = Segment2D(a, a.clone())
    d = s.distance_to_point(q)
    ctx.eq(d * d, (q.x - a.x) * (q.x - a.x) + (q.y - a.y) * (q.y - a.y), 'distance to a null segment')
    ctx.eq(s.length, 0, 'length')


@harness(P)
def contain(ctx):
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    a = ctx.vec('a', lo=-1000, hi=1000)
    ax, ay = a.x, a.y
    vx, vy = ctx.real('vx', -1000, 1000), ctx.real('vy', -1000, 1000)
    m2 = vx * vx + vy * vy
    ctx.assume(m2 >= 1)
    s = Segment2D(a, Vector2D(ax + vx, ay + vy))
    t = ctx.real('t', -2, 3)
    h = ctx.real('h', -10, 10)
    q = Vector2D(ax + t * vx - h * vy, ay + t * vy + h * vx)
    r = s.contain_point(q)
    inside = ctx.and_(h == 0, t >= 0, t <= 1)
    outside = ctx.or_(h > 0.001, h < -0.001, t < -0.001, t > 1.001)
    ctx.check(ctx.implies(inside, r), 'contained')
    ctx.check(ctx.implies(outside, ctx.not_(r)), 'not contained')


@harness(P)
def shared_vertex(ctx):
    s, a, b = segment(ctx, '0')
    k, c, d = segment(ctx, '1')
    r = s.share_vertex_with(k)
    same = lambda p, q: ctx.and_(p[0] == q[0], p[1] == q[1])
    any_ = ctx.or_(same(a, c), same(a, d), same(b, c), same(b, d))
    if r is None:
        ctx.check(ctx.not_(any_), 'no shared vertex')
    else:
        v = (r.x, r.y)
        ctx.check(ctx.or_(same(v, a), same(v, b)), 'vertex of the first')
        ctx.check(ctx.or_(same(v, c), same(v, d)), 'vertex of the second')
