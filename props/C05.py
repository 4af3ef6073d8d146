"""Lines."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Line']
BOUNDS = 'one or two lines with an arbitrary point and an arbitrary non-null vector (not only unit vectors), one arbitrary point'
META = dict(
    title='Lines: abscissae, projections, distances, intersections, parallels',
    statement="""For every line given by any point and any non-null vector (normalised or not): interpolation at s is
    p + s v, y from x and x from y return points of the line, the point at a distance along the line is that far in the
    direction of the vector, the projected abscissa is the signed length along the line and the projected point is the foot
    of the perpendicular, the distance to the line is the signed perpendicular distance. The intersection of two non-parallel
    lines lies on both lines at the returned abscissae and is None for parallel lines. Parallel, shifted and orthogonal lines
    have the right direction and pass through the right point, and neither constructing, cloning nor querying a line modifies
    another line.""",
    quant='all points, all non-null direction vectors, all abscissae and distances',
    why='tests use a unit vector or axis aligned lines, on which normalisation mistakes are invisible',
    files=['Patro/GeometryEngine/Line.py'],
    mechanism=[('projection, intersection, distance', 'Patro/GeometryEngine/Line.py')])
P = 'C05'


def line(ctx, tag=''):
    from Patro.GeometryEngine.Line import Line2D
    p, v = ctx.vec('p' + tag), ctx.vec('v' + tag)
    ctx.assume(ctx.or_(v.x != 0, v.y != 0))
    return Line2D(p, v), (p.x, p.y), (v.x, v.y)


@harness(P)
def construct(ctx):
    from Patro.GeometryEngine.Line import Line2D
    a, b = ctx.vec('a'), ctx.vec('b')
    ax, ay, bx, by = a.x, a.y, b.x, b.y
    ctx.assume(ctx.or_(ax != bx, ay != by))
    l = Line2D.from_two_points(a, b)
    s = ctx.real('s')
    ctx.eq(l.interpolate(s), [ax + s * (bx - ax), ay + s * (by - ay)], 'interpolate')
    ctx.eq(l.point_at_s(s), [ax + s * (bx - ax), ay + s * (by - ay)], 'point_at_s')
    ctx.eq(l.point_at_t(s), [ax + s * (bx - ax), ay + s * (by - ay)], 'point_at_t')
    ctx.check(l.is_infinite, 'infinite')
    ctx.is_(l.bounding_box, None, 'no bounding box')
    c = l.clone()
    ctx.eq([c.p.x, c.p.y, c.v.x, c.v.y], [ax, ay, bx - ax, by - ay], 'clone')
    c.p.x = c.p.x + 1
    c.v.y = c.v.y + 1
    ctx.eq([l.p.x, l.p.y, l.v.x, l.v.y], [ax, ay, bx - ax, by - ay], 'source of the clone')
    ctx.eq([a.x, a.y, b.x, b.y], [ax, ay, bx, by], 'points unchanged')


@harness(P)
def axis_values(ctx):
    l, (px, py), (vx, vy) = line(ctx)
    x = ctx.real('x')
    if ctx.bool('y_from_x'):
        ctx.assume(vx != 0)
        y = l.get_y_from_x(x)
        ctx.eq((y - py) * vx, (x - px) * vy, 'y from x')
    else:
        ctx.assume(vy != 0)
        y = l.get_x_from_y(x)
        ctx.eq((y - px) * vy, (x - py) * vx, 'x from y')


@harness(P)
def at_distance(ctx):
    from Patro.GeometryEngine.Vector import Vector2D
    l, (px, py), (vx, vy) = line(ctx)
    d = ctx.real('d')
    m = ctx.sqrt(vx * vx + vy * vy)
    form = ctx.choose('form', ['default', 'point', 'keyword'])
    if form == 'default':
        q = l.point_at_distance(d)
        ox, oy = px, py
    else:
        o = ctx.vec('o')
        ox, oy = o.x, o.y
        q = l.point_at_distance(d, o) if form == 'point' else l.point_at_distance(d, point=o)
        ctx.eq(o, [ox, oy], 'point unchanged')
    ctx.eq([(q.x - ox) * m, (q.y - oy) * m], [d * vx, d * vy], 'point at distance')
    ctx.eq([l.p.x, l.p.y, l.v.x, l.v.y], [px, py, vx, vy], 'line unchanged')


@harness(P)
def between_abscissae(ctx):
    l, (px, py), (vx, vy) = line(ctx)
    s = [ctx.real(f's{i}') for i in range(4)]
    m = ctx.sqrt(vx * vx + vy * vy)
    ctx.eq(l.compute_distance_between_abscissae(s[0], s[1]), abs(s[0] - s[1]) * m, 'distance')
    ctx.eq(l.compute_distance(s), [abs(b - a) * m for a, b in zip(s, s[1:])], 'distances')


@harness(P)
def projection(ctx):
    l, (px, py), (vx, vy) = line(ctx)
    q = ctx.vec('q')
    qx, qy = q.x, q.y
    m = ctx.sqrt(vx * vx + vy * vy)
    dot = (qx - px) * vx + (qy - py) * vy
    cr = vx * (qy - py) - vy * (qx - px)
    s = l.projected_abscissa(q)
    ctx.eq(s * m, dot, 'projected abscissa')
    f = l.projected_point(q)
    ctx.eq((f.x - px) * vy - (f.y - py) * vx, 0, 'projected point is on the line')
    ctx.eq((f.x - qx) * vx + (f.y - qy) * vy, 0, 'projection is perpendicular')
    d = l.distance_to_line(q)
    ctx.eq(d * m, cr, 'distance to line')
    d2, s2 = l.distance_and_abscissa_to_line(q)
    ctx.eq([d2 * m, s2 * m], [cr, dot], 'distance and abscissa')
    ctx.eq([q.x, q.y, l.p.x, l.p.y, l.v.x, l.v.y], [qx, qy, px, py, vx, vy], 'unchanged')


@harness(P)
def triangle_projection(ctx):
    """point of the line at the given distance of the point"""
    l, (px, py), (vx, vy) = line(ctx)
    q = ctx.vec('q')
    qx, qy = q.x, q.y
    h = ctx.real('h', 0, 100)
    d = ctx.real('d', 0)
    m2 = vx * vx + vy * vy
    cr = vx * (qy - py) - vy * (qx - px)
    ctx.assume(d * d * m2 == cr * cr + h * h * m2)    # distance d >= distance to the line
    rev = ctx.choose('reverse', [False, True])
    r = l.triangle_projected_point(q, d, rev)
    m = ctx.sqrt(m2)
    along = (r.x - qx) * vx + (r.y - qy) * vy
    ctx.eq((r.x - px) * vy - (r.y - py) * vx, 0, 'on the line')
    ctx.eq(along, (-h if rev else h) * m, 'side and distance')


@harness(P)
def intersection(ctx):
    l, (px, py), (vx, vy) = line(ctx, '0')
    k, (qx, qy), (wx, wy) = line(ctx, '1')
    cr = vx * wy - vy * wx
    par = l.is_parallel(k)
    r = l.intersection(k)
    s, t = l.intersection_abscissae(k)
    if ctx.not_(ctx.or_(cr > 1e-6, cr < -1e-6)):
        ctx.check(ctx.implies(cr == 0, par), 'parallel')
        if cr == 0:
            ctx.check(r is None and s is None and t is None, 'parallel lines have no intersection')
        return
    ctx.check(ctx.not_(par), 'not parallel')
    if r is None or s is None:
        ctx.fail('no intersection')
    ctx.eq(r, [px + s * vx, py + s * vy], 'abscissa on the first line')
    ctx.eq(r, [qx + t * wx, qy + t * wy], 'abscissa on the second line')


@harness(P)
def orthogonal_test(ctx):
    l, p, (vx, vy) = line(ctx, '0')
    k, q, (wx, wy) = line(ctx, '1')
    dt = vx * wx + vy * wy
    o = l.is_orthogonal(k)
    ctx.check(ctx.implies(dt == 0, o), 'orthogonal')
    ctx.check(ctx.implies(ctx.or_(dt > 1e-6, dt < -1e-6), ctx.not_(o)), 'not orthogonal')


@harness(P)
def derived_lines(ctx):
    l, (px, py), (vx, vy) = line(ctx)
    op = ctx.choose('op', ['parallel', 'shifted', 'orthogonal', 'orthogonal_s'])
    m = ctx.sqrt(vx * vx + vy * vy)
    if op == 'parallel':
        q = ctx.vec('q')
        r = l.parallel_line_at(q)
        ctx.eq(r.p, [q.x, q.y], 'point')
        ctx.eq([r.v.x, r.v.y], [vx, vy], 'vector')
    elif op == 'shifted':
        d = ctx.real('d')
        r = l.shifted_parallel_line(d)
        ctx.eq(r.v.x * vy - r.v.y * vx, 0, 'parallel')
        ctx.lt(0, r.v.x * vx + r.v.y * vy, 'same direction')
        ctx.eq([(r.p.x - px) * m, (r.p.y - py) * m], [-d * vy, d * vx], 'shifted on the left')
    elif op == 'orthogonal':
        q = ctx.vec('q')
        r = l.orthogonal_line_at(q)
        ctx.eq(r.p, [q.x, q.y], 'point')
        ctx.eq(r.v.x * vx + r.v.y * vy, 0, 'orthogonal')
        ctx.lt(0, r.v.y * vx - r.v.x * vy, 'turned on the left')
    else:
        s = ctx.real('s')
        r = l.orthogonal_line_at_abscissa(s)
        ctx.eq(r.p, [px + s * vx, py + s * vy], 'point')
        ctx.eq(r.v.x * vx + r.v.y * vy, 0, 'orthogonal')
        ctx.lt(0, r.v.y * vx - r.v.x * vy, 'turned on the left')
    ctx.eq([l.p.x, l.p.y, l.v.x, l.v.y], [px, py, vx, vy], 'line unchanged')


@harness(P)
def in_bounding_box(ctx):
    """end points of the line drawn across a box lie on the line and on two opposite sides"""
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    l, (px, py), (vx, vy) = line(ctx)
    x0, y0 = ctx.real('x0'), ctx.real('y0')
    w, h = ctx.real('w', 0.01, 1000), ctx.real('h', 0.01, 1000)
    box = Segment2D(Vector2D(x0, y0), Vector2D(x0 + w, y0 + h)).bounding_box
    a, b = l.get_x_y_from_bounding_box(box)
    for q in (a, b):
        ctx.eq((q.x - px) * vy, (q.y - py) * vx, 'on the line')
    ctx.check(ctx.or_(ctx.and_(ctx.eq_(a.x, x0), ctx.eq_(b.x, x0 + w)),
                      ctx.and_(ctx.eq_(a.y, y0), ctx.eq_(b.y, y0 + h))), 'crosses the box')
