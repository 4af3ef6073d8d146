"""Circles and ellipses."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Conic']
BOUNDS = ('arbitrary centre, radii, points, angles and tilt of the ellipse; arcs: ends among six pairs for the distance and six starts and '
          'spans for the Bezier conversion; distance to an ellipse: points on the axes (elsewhere it is the limit of a bisection of '
          'up to 1074 steps, which is not unrolled); transformations: eight matrices with rational similarities, scales, shears and reflections')
ASSUMPTIONS = ['tangency is decided away from rounding errors (discriminants out of +-0.01)']
META = dict(
    title='Circles and ellipses: points, membership, intersections, transformation',
    statement="""point_at_angle gives points of the circle or (tilted) ellipse, angle_for_point its inverse in [0, 360[, the
    tangent touches the circle there. is_point_inside, the signed distance and the distance to a circle, arc (the closest point
    of the arc or the closest end) or ellipse agree with the definitions; the bounding box of a full circle or ellipse contains
    every point and is tight. The intersections with the line of a segment and with another circle lie on both, are complete
    and are None or empty only when there is none. matrix is the implicit equation of the ellipse. to_bezier covers the arc from
    start to stop without gap by pieces of at most a quarter, tangent to the ellipse at their ends and passing on it in the
    middle. Transforming a circle (similarity) or an ellipse (any affine map), arc or not, gives the image of its points, without
    changing the source. Every answer follows the current centre, radii, angle and domain, which a
    clone does not share.""",
    quant='all centres, radii, angles, points and lines',
    why='one or two literal circles of the suite exercise no sign, wrap-around or tilt; these are identities over all reals',
    files=['Patro/GeometryEngine/Conic.py'],
    mechanism=[('Circle2D, Ellipse2D, transform_ellipse', 'Patro/GeometryEngine/Conic.py')])
P = 'C14'


def circle(ctx, tag='c'):
    from Patro.GeometryEngine.Conic import Circle2D
    c, r = ctx.vec(tag, lo=-10, hi=10), ctx.real(tag + '_r', 0.5, 10)
    return Circle2D(c, r), c.x, c.y, r


def ellipse(ctx, tilt=True, domain=None):
    """tilt: exact rational cosine and sine"""
    from Patro.GeometryEngine.Conic import Ellipse2D
    c, a, b = ctx.vec('c', lo=-10, hi=10), ctx.real('a', 0.5, 10), ctx.real('b', 0.5, 10)
    t = ctx.angle('tilt') if tilt is True else (tilt or 0)
    return Ellipse2D(c, a, b, t, domain), c, a, b, ctx.deg_cs(t)


def frame(e, p):
    """coordinates in the frame of the ellipse"""
    _, c, a, b, (cs, sn) = e
    x, y = p[0] - c.x, p[1] - c.y
    return cs * x + sn * y, -sn * x + cs * y


def level(e, p):
    _, c, a, b, _ = e
    x, y = frame(e, p)
    return x * x * b * b + y * y * a * a - a * a * b * b


def as_list(r):
    if r is None:
        return []
    return list(r) if isinstance(r, (list, tuple)) else [r]


# -- circle ----------------------------------------------------------------------------------------

@harness(P)
def circle_points(ctx):
    k, x, y, r = circle(ctx)
    t = ctx.angle('t')
    cs, sn = ctx.deg_cs(t)
    p = k.point_at_angle(t)
    ctx.eq(p, [x + r * cs, y + r * sn], 'point at angle')
    a = k.angle_for_point(p)
    ctx.le(0, a, 'angle from 0')
    ctx.le(a, 360, 'angle to 360')
    ctx.eq(list(ctx.deg_cs(a)), [cs, sn], 'angle for point')
    l = k.tangent_at_angle(t)
    ctx.eq(l.p, [x + r * cs, y + r * sn], 'tangent goes through the point')
    ctx.eq(l.v.x * cs + l.v.y * sn, 0, 'tangent is orthogonal to the radius')
    ctx.check(cs * l.v.y - sn * l.v.x > 0, 'tangent goes counterclockwise')
    ctx.eq(k.perimeter, 2 * ctx.pi * r, 'perimeter')
    ctx.eq(k.area, ctx.pi * r * r, 'area')
    ctx.eq([k.diameter, k.radius], [2 * r, r], 'radius')
    ctx.eq([k.center.x, k.center.y], [x, y], 'centre unchanged')


@harness(P)
def circle_axes(ctx):
    """exact angles, in [0, 360["""
    from Patro.GeometryEngine.Vector import Vector2D
    k, x, y, r = circle(ctx)
    t, u, v = ctx.choose('t', [(0, 1, 0), (90, 0, 1), (180, -1, 0), (270, 0, -1), (45, 1, 1), (135, -1, 1), (225, -1, -1), (315, 1, -1)])
    m = ctx.real('m', 0.5, 20)
    ctx.eq(k.angle_for_point(Vector2D(x + m * u, y + m * v)), t, 'angle for point')


@harness(P)
def circle_constructors(ctx):
    from Patro.GeometryEngine.Conic import Circle2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    c, p = ctx.vec('c', lo=-10, hi=10), ctx.vec('p', lo=-10, hi=10)
    k = Circle2D.from_two_points(c, p)
    ctx.eq(k.radius * k.radius, (p.x - c.x) * (p.x - c.x) + (p.y - c.y) * (p.y - c.y), 'radius')
    ctx.check(k.radius >= 0, 'positive')
    r = ctx.real('r', 0.5, 10)
    ctx.eq(Circle2D(c, 2 * r, diameter=True).radius, r, 'diameter')
    start, f = ctx.real('start', 0, 360), ctx.real('f', 0, 3)
    ctx.assume(ctx.or_(f < 1.999, f > 2.001))
    k = Circle2D(c, r, start_angle=start, distance=f * r * ctx.pi)
    if f > 2:
        ctx.check(k.domain is None, 'more than a turn')
    else:
        ctx.eq([k.domain.start, k.domain.stop], [start, start + 180 * f], 'arc of a given length')
        ctx.eq(k.perimeter, f * r * ctx.pi, 'perimeter of the arc')
    q = k.clone()
    ctx.eq([q.center.x, q.center.y, q.radius], [c.x, c.y, r], 'clone')
    ctx.check((q.domain is None) == (k.domain is None), 'domain of the clone')


@harness(P)
def circle_distance(ctx):
    k, x, y, r = circle(ctx)
    p = ctx.vec('p', lo=-30, hi=30)
    d = k.signed_distance_to_point(p)
    d2 = (p.x - x) * (p.x - x) + (p.y - y) * (p.y - y)
    ctx.eq((d + r) * (d + r), d2, 'signed distance')
    ctx.check(d >= -r, 'signed distance from -r')
    ctx.assume(ctx.or_(d2 - r * r > 0.001, d2 - r * r < -0.001))
    ctx.check_iff(k.is_point_inside(p), d2 < r * r, 'inside')
    ctx.eq(k.distance_to_point(p), d if d2 > r * r else -d, 'distance')


DOMAINS = [(0, 90), (30, 150), (300, 60), (120, 60), (-90, 180), (0, 360)]


@harness(P, budget=60, branch_timeout=1000, timeout=4000, weight=5)
def arc_distance(ctx):
    from Patro.GeometryEngine.Conic import Circle2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    from Patro.GeometryEngine.Vector import Vector2D
    start, stop = ctx.choose('domain', DOMAINS)
    c, r = ctx.vec('c', lo=-10, hi=10), ctx.real('r', 0.5, 10)
    m, t = ctx.real('m', 0.1, 30), ctx.choose('t', [0, 60, 90, 150, 210, 270, 315, 330, -30])
    ct, st = ctx.deg_cs(ctx.frac(t))
    k = Circle2D(c, r, AngularDomain(start, stop))
    d = k.distance_to_point(Vector2D(c.x + m * ct, c.y + m * st))
    inside = abs(stop - start) >= 360 or (t - start) % 360 <= (stop - start) % 360
    if inside:
        e = m - r
        ctx.eq(d, e if e >= 0 else -e, 'distance to the circle')
    else:
        e = []
        for a in (start, stop):
            ca, sa = ctx.deg_cs(ctx.frac(a))
            e.append((m * ct - r * ca) * (m * ct - r * ca) + (m * st - r * sa) * (m * st - r * sa))
        # the closest end is decided by the angles only
        near = lambda a: min((t - a) % 360, (a - t) % 360)
        ctx.eq(d * d, e[0] if near(start) <= near(stop) else e[1], 'distance to the closest end')
        ctx.check(d >= 0, 'positive')


@harness(P)
def circle_boxes(ctx):
    k, x, y, r = circle(ctx)
    b = k.bounding_box
    ctx.eq([b.x.inf, b.x.sup, b.y.inf, b.y.sup], [x - r, x + r, y - r, y + r], 'bounding box')
    ctx.eq([k.center.x, k.center.y], [x, y], 'centre unchanged')


@harness(P, budget=80)
def circle_line(ctx):
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    k, x, y, r = circle(ctx)
    u = ctx.choose('u', [(1, 0), (0, -2), (3, 4), (-3, 4), (-1, -1)])
    n2 = u[0] * u[0] + u[1] * u[1]
    f, h = ctx.real('f', -10, 10), ctx.real('h', -10, 10)       # along, across (unit n2)
    p = (x + f * u[0] - h * u[1], y + f * u[1] + h * u[0])
    D = r * r - h * h * n2
    ctx.assume(ctx.or_(D > 0.01, D < -0.01))
    s = as_list(k.intersect_segment(Segment2D(Vector2D(*p), Vector2D(p[0] + u[0], p[1] + u[1]))))
    if D < 0:
        ctx.is_(len(s), 0, 'no intersection')
        return
    ctx.is_(len(s), 2, 'two intersections')
    for q in s:
        ctx.eq((q.x - x) * (q.x - x) + (q.y - y) * (q.y - y), r * r, 'on the circle')
        ctx.eq((q.x - p[0]) * u[1], (q.y - p[1]) * u[0], 'on the line')
    ctx.check(ctx.not_(ctx.eq_(s[0], s[1])), 'distinct')


@harness(P)
def circle_tangent_line(ctx):
    """axis-aligned tangent, exact"""
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    k, x, y, r = circle(ctx)
    u = ctx.choose('u', [(1, 0), (0, -1)])
    p = (x - r * u[1], y + r * u[0])
    s = as_list(k.intersect_segment(Segment2D(Vector2D(p[0] - u[0], p[1] - u[1]), Vector2D(p[0] + u[0], p[1] + u[1]))))
    ctx.check(len(s) >= (1 if ctx.symbolic else 0), 'one intersection')
    for q in s:
        if ctx.symbolic:
            ctx.eq(q, list(p), 'tangency point')
        else:
            # two close points when the rounding does not make it exactly tangent
            ctx.check((q.x - p[0]) ** 2 + (q.y - p[1]) ** 2 < 1e-3, 'tangency point')


@harness(P, budget=80)
def two_circles(ctx):
    from Patro.GeometryEngine.Conic import Circle2D
    from Patro.GeometryEngine.Vector import Vector2D
    k1, x, y, r = circle(ctx)
    d = ctx.real('d', 0.5, 20)
    ux, uy, n = ctx.choose('u', [(1, 0, 1), (0, -1, 1), (3, 4, 5), (-12, 5, 13)])
    x2, y2 = x + d * ux, y + d * uy
    r2 = ctx.real('r2', 0.5, 10)
    k2 = Circle2D(Vector2D(x2, y2), r2)
    dn = d * n
    far, inner = dn - r - r2, ctx.ite(r > r2, r - r2, r2 - r) - dn
    ctx.assume(ctx.and_(ctx.or_(far > 0.01, far < -0.01), ctx.or_(inner > 0.01, inner < -0.01)))
    s = as_list(k1.intersect_circle(k2))
    if ctx.or_(far > 0, inner > 0):
        ctx.is_(len(s), 0, 'no intersection')
        return
    ctx.is_(len(s), 2, 'two intersections')
    for q in s:
        ctx.eq((q.x - x) * (q.x - x) + (q.y - y) * (q.y - y), r * r, 'on the first circle')
        ctx.eq((q.x - x2) * (q.x - x2) + (q.y - y2) * (q.y - y2), r2 * r2, 'on the second circle')
    ctx.check(ctx.not_(ctx.eq_(s[0], s[1])), 'distinct')


@harness(P)
def concentric(ctx):
    from Patro.GeometryEngine.Conic import Circle2D
    k, x, y, r = circle(ctx)
    ctx.is_(k.intersect_circle(Circle2D(k.center, r * 2)), None, 'concentric circles')


SIM = [((2, 0), (0, 2)), ((0, -3), (3, 0)), ((3, -4), (4, 3)), ((1, 0), (0, -1)), ((-3, 4), (4, 3)), ((-1, 0), (0, -1))]


def tmat(m, tx, ty):
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    return AffineTransformation2D([m[0][0], m[0][1], tx, m[1][0], m[1][1], ty, 0, 0, 1])


def det(m):
    return m[0][0] * m[1][1] - m[0][1] * m[1][0]


@harness(P, params=[{'i': i} for i in range(len(SIM))])
def transform_circle(ctx, i):
    from Patro.GeometryEngine.Conic import Circle2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    m = SIM[i]
    tx, ty = ctx.real('tx', -10, 10), ctx.real('ty', -10, 10)
    c, r = ctx.vec('c', lo=-10, hi=10), ctx.real('r', 0.5, 10)
    arc = ctx.choose('arc', [None, (0, 90), (30, 200), (300, 60)])
    k = Circle2D(c, r, AngularDomain(*arc) if arc else None)
    q = k.clone()
    q.apply_transformation(tmat(m, tx, ty))
    im = lambda x, y: [m[0][0] * x + m[0][1] * y + tx, m[1][0] * x + m[1][1] * y + ty]
    ctx.eq(q.center, im(c.x, c.y), 'centre')
    d = det(m)
    ctx.eq(q.radius * q.radius, r * r * abs(d), 'radius')
    ctx.check(q.radius > 0, 'positive radius')
    if arc is None:
        ctx.check(q.domain is None, 'closed')
    else:
        ends = []
        for a in arc:
            cs, sn = ctx.deg_cs(ctx.frac(a))
            ends.append(im(c.x + r * cs, c.y + r * sn))
        if d < 0:
            ends.reverse()
        ctx.eq(q.start_point, ends[0], 'start')
        ctx.eq(q.stop_point, ends[1], 'stop')
        ctx.eq([k.domain.start, k.domain.stop], list(arc), 'domain of the source unchanged')
    ctx.eq([k.center.x, k.center.y, k.radius], [c.x, c.y, r], 'source unchanged')


# -- ellipse ---------------------------------------------------------------------------------------

@harness(P)
def ellipse_points(ctx):
    e = ellipse(ctx)
    k, c, a, b, (cs, sn) = e
    t = ctx.angle('t')
    ct, st = ctx.deg_cs(t)
    p = k.point_at_angle(t)
    ctx.eq(p, [c.x + a * ct * cs - b * st * sn, c.y + a * ct * sn + b * st * cs], 'point at angle')
    q = ctx.vec('q', lo=-10, hi=10)
    ctx.eq(k.point_in_ellipse_frame(q), list(frame(e, (q.x, q.y))), 'frame')
    ctx.eq(k.point_from_ellipse_frame(k.point_in_ellipse_frame(q)), [q.x, q.y], 'frame and back')
    ctx.eq(k.major_vector, [a * cs, a * sn], 'vector of the first axis')
    ctx.eq(k.minor_vector, [-b * sn, b * cs], 'vector of the second axis')
    ex = k.eccentricity
    lo, hi = (a, b) if a < b else (b, a)
    ctx.eq(hi * hi * ex * ex, hi * hi - lo * lo, 'eccentricity')
    ctx.check(ex >= 0, 'positive')
    ctx.eq([k.center.x, k.center.y, k.radius_x, k.radius_y], [c.x, c.y, a, b], 'unchanged')


@harness(P)
def ellipse_matrix(ctx):
    e = ellipse(ctx)
    k = e[0]
    p = ctx.vec('p', lo=-10, hi=10)
    m = k.matrix()
    v = [p.x, p.y, 1]
    ctx.eq(sum(v[i] * m[i, j] * v[j] for i in range(3) for j in range(3)), level(e, (p.x, p.y)), 'implicit equation')
    ctx.eq([m[0, 1], m[0, 2], m[1, 2]], [m[1, 0], m[2, 0], m[2, 1]], 'symmetric')


@harness(P)
def ellipse_inside(ctx):
    e = ellipse(ctx, tilt=ctx.choose('tilt', [0, 90, 30]))
    p = ctx.vec('p', lo=-10, hi=10)
    l = level(e, (p.x, p.y))
    ctx.assume(ctx.or_(l > 0.01, l < -0.01))
    ctx.check_iff(e[0].is_point_inside(p), l < 0, 'inside')


@harness(P)
def ellipse_boxes(ctx):
    e = ellipse(ctx)
    k, c, a, b, (cs, sn) = e
    bb = k.bounding_box
    hx, hy = bb.x.sup - c.x, bb.y.sup - c.y
    ctx.eq([bb.x.inf, bb.y.inf], [c.x - hx, c.y - hy], 'centred')
    ctx.eq([hx * hx, hy * hy], [a * a * cs * cs + b * b * sn * sn, a * a * sn * sn + b * b * cs * cs], 'tight')
    ctx.check(ctx.and_(hx >= 0, hy >= 0), 'positive')
    ctx.eq([k.center.x, k.center.y], [c.x, c.y], 'centre unchanged')


@harness(P, budget=80)
def ellipse_axis_distance(ctx):
    """point on an axis of the ellipse, distance to any point of the ellipse (rational parametrisation)"""
    from Patro.GeometryEngine.Vector import Vector2D
    e = ellipse(ctx, tilt=ctx.choose('tilt', [0, 90]))
    k, c, a, b, (cs, sn) = e
    ctx.assume(ctx.or_(a - b > 0.1, b - a > 0.1))
    m = ctx.real('m', -20, 20)
    along = ctx.choose('axis', [0, 1])
    f = (m, 0) if along == 0 else (0, m)
    # a null ordinate which is not null once rotated is a matter of rounding errors
    p = Vector2D(c.x + cs * f[0] - sn * f[1], c.y + sn * f[0] + cs * f[1])
    d, q = k.distance_to_point(p, return_point=True)
    ctx.check(d >= 0, 'positive')
    ctx.eq(level(e, (q.x, q.y)), 0, 'on the ellipse')
    ctx.eq((q.x - p.x) * (q.x - p.x) + (q.y - p.y) * (q.y - p.y), d * d, 'distance to the point')
    w = ctx.real('w', -1, 1)
    x, y = a * (1 - w * w) / (1 + w * w), b * 2 * w / (1 + w * w)
    if ctx.choose('half', [0, 1]):
        x = -x
    ctx.le(d * d, (x - f[0]) * (x - f[0]) + (y - f[1]) * (y - f[1]), 'no closer point')


@harness(P, budget=80)
def ellipse_line(ctx):
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    e = ellipse(ctx, tilt=ctx.choose('tilt', [0, 90, 45]))
    k, c, a, b, (cs, sn) = e
    u = ctx.choose('u', [(1, 0), (0, -2), (1, 1), (-3, 4)])       # in the frame of the ellipse
    p = (ctx.real('px', -10, 10), ctx.real('py', -10, 10))
    D = u[0] * u[0] * b * b + u[1] * u[1] * a * a - (u[0] * p[1] - u[1] * p[0]) * (u[0] * p[1] - u[1] * p[0])
    ctx.assume(ctx.or_(D > 0.01, D < -0.01))
    out = lambda x, y: Vector2D(c.x + cs * x - sn * y, c.y + sn * x + cs * y)
    s = as_list(k.intersect_segment(Segment2D(out(*p), out(p[0] + u[0], p[1] + u[1]))))
    if D < 0:
        ctx.is_(len(s), 0, 'no intersection')
        return
    ctx.is_(len(s), 2, 'two intersections')
    for q in s:
        ctx.eq(level(e, (q.x, q.y)), 0, 'on the ellipse')
        x, y = frame(e, (q.x, q.y))
        ctx.eq((x - p[0]) * u[1], (y - p[1]) * u[0], 'on the line')
    ctx.check(ctx.not_(ctx.eq_(s[0], s[1])), 'distinct')


SPANS = [(0, 90), (0, 60), (30, 150), (90, 360), (300, 60), (0, 360), (-90, 30)]


@harness(P, budget=80)
def bezier(ctx):
    from Patro.GeometryEngine.Mixin import AngularDomain
    dom = ctx.choose('domain', [None] + SPANS)
    e = ellipse(ctx, tilt=ctx.choose('tilt', [0, 90, 30]), domain=AngularDomain(*dom) if dom else None)
    k, c, a, b, (cs, sn) = e
    start, stop = dom or (0, 360)
    span = stop - start if stop > start else stop + 360 - start
    curves = k.to_bezier()
    n = len(curves)
    ctx.check(n * 90 >= span and n >= 1, 'pieces of at most a quarter')
    ctx.check((n - 1) * 90 < span, 'no more pieces than needed')

    def at(t):
        x, y = ctx.deg_cs(ctx.frac(t.numerator, t.denominator) if not isinstance(t, int) else ctx.frac(t))
        return ([c.x + a * x * cs - b * y * sn, c.y + a * x * sn + b * y * cs], [-a * y * cs - b * x * sn, -a * y * sn + b * x * cs])
    from fractions import Fraction
    for i, q in enumerate(curves):
        t0, t1 = start + Fraction(span * i, n), start + Fraction(span * (i + 1), n)
        (p, u), (r, v) = at(t0), at(t1)
        ctx.eq(q.p0, p, 'start of the piece')
        ctx.eq(q.p3, r, 'end of the piece')
        w0, w1 = q.p1 - q.p0, q.p3 - q.p2
        ctx.eq(w0.x * u[1], w0.y * u[0], 'tangent at the start')
        ctx.eq(w1.x * v[1], w1.y * v[0], 'tangent at the end')
        ctx.check(w0.x * u[0] + w0.y * u[1] > 0, 'sense at the start')
        ctx.check(w1.x * v[0] + w1.y * v[1] > 0, 'sense at the end')
        m = [(q.p0.x + 3 * q.p1.x + 3 * q.p2.x + q.p3.x) / 8, (q.p0.y + 3 * q.p1.y + 3 * q.p2.y + q.p3.y) / 8]
        if ctx.symbolic:
            ctx.eq(level(e, m), 0, 'middle on the ellipse')
        else:
            ctx.check(abs(level(e, m)) < 1e-6 * a * a * b * b, 'middle on the ellipse')


AFF = [((2, 0), (0, 2)), ((0, -1), (1, 0)), ((3, 0), (0, 1)), ((1, 0), (0, -1)), ((1, 1), (0, 1)), ((3, -4), (4, 3)), ((2, 1), (1, -1))]


@harness(P, params=[{'i': i} for i in range(len(AFF))], budget=60, branch_timeout=1500, timeout=6000, weight=5)
def transform_ellipse(ctx, i):
    from Patro.GeometryEngine.Conic import Ellipse2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    from Patro.GeometryEngine.Vector import Vector2D
    m = AFF[i]
    tx, ty = ctx.real('tx', -10, 10), ctx.real('ty', -10, 10)
    c = ctx.vec('c', lo=-10, hi=10)
    a = ctx.real('a', 0.5, 10)
    b = a * ctx.choose('ratio', [2, ctx.frac(1, 3)])
    tilt = ctx.choose('tilt', [0, 90])
    arc = ctx.choose('arc', [None, (0, 90), (300, 60)])
    k = Ellipse2D(c, a, b, tilt, AngularDomain(*arc) if arc else None)
    q = k.clone()
    q.apply_transformation(tmat(m, tx, ty))
    im = lambda x, y: [m[0][0] * x + m[0][1] * y + tx, m[1][0] * x + m[1][1] * y + ty]
    ctx.eq(q.center, im(c.x, c.y), 'centre')
    ctx.check(ctx.and_(q.radius_x > 0, q.radius_y > 0), 'positive radii')
    # the implicit equation of the image at the image of a point of the ellipse
    cs, sn = (1, 0) if tilt == 0 else (0, 1)
    ct, st = ctx.choose('t', [(1, 0), (0, 1), (ctx.frac(3, 5), ctx.frac(4, 5)), (ctx.frac(-12, 13), ctx.frac(5, 13))])
    p = im(c.x + a * ct * cs - b * st * sn, c.y + a * ct * sn + b * st * cs)
    e = (q, q.center, q.radius_x, q.radius_y, ctx.deg_cs(q.angle))
    ctx.eq(level(e, p) / (a * a * a * a), 0, 'image of the points')
    if arc is None:
        ctx.check(q.domain is None, 'closed')
    else:
        ends = []
        for t in arc:
            x, y = ctx.deg_cs(ctx.frac(t))
            ends.append(im(c.x + a * x * cs - b * y * sn, c.y + a * x * sn + b * y * cs))
        if det(m) < 0:
            ends.reverse()
        ctx.eq(q.start_point, ends[0], 'start')
        ctx.eq(q.stop_point, ends[1], 'stop')
        ctx.eq([k.domain.start, k.domain.stop], list(arc), 'domain of the source unchanged')
    ctx.eq([k.center.x, k.center.y, k.radius_x, k.radius_y, k.angle], [c.x, c.y, a, b, tilt], 'source unchanged')


@harness(P)
def transform_full_domain(ctx):
    """a domain over the whole circle remains the whole circle"""
    from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    c, r = ctx.vec('c', lo=-10, hi=10), ctx.real('r', 0.5, 10)
    domain = AngularDomain(*ctx.choose('domain', [(0, 360), (-90, 270), (30, 390), (360, 0)]))
    if ctx.choose('circle', [True, False]):
        k, m = Circle2D(c, r, domain), SIM[ctx.choose('map', [0, 1, 3])]
    else:
        k, m = Ellipse2D(c, r, r * 2, 0, domain), AFF[ctx.choose('map', [0, 1])]
    q = k.clone()
    q.apply_transformation(tmat(m, ctx.real('tx', -10, 10), ctx.real('ty', -10, 10)))
    t = ctx.choose('t', [0, 45, 123, 271])
    ctx.check(q.domain is None or q.domain.is_closed, 'the domain is still the whole circle')
    ctx.check(q.domain is None or q.domain.is_inside(t), 'the domain contains any angle')


@harness(P, params=[{'kind': k, 'how': h} for k in ('circle', 'arc', 'ellipse', 'elliptic arc')
                    for h in ('radius', 'center', 'angle', 'domain', 'transform', 'copy') if not (h == 'angle' and 'c' == k[0] or k == 'arc' and h == 'angle')])
def ask_modify_ask(ctx, kind, how):
    """everything which can be asked is asked, then the conic is modified: the answers are the ones of a new conic with the
    same centre, radii, angle and domain"""
    from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D
    d = ctx.real('d', 1, 2)
    is_circle = kind in ('circle', 'arc')

    def new(x, y, a, b, angle, domain):
        domain = AngularDomain(*domain) if domain else None
        return Circle2D(Vector2D(x, y), a, domain) if is_circle else Ellipse2D(Vector2D(x, y), a, b, angle, domain)

    def ask(k):
        box = k.bounding_box
        p = Vector2D(2, 1)
        r = [('centre', [k.center.x, k.center.y]), ('box', [box.x.inf, box.x.sup, box.y.inf, box.y.sup]),
             ('inside', bool(k.is_point_inside(p))), ('point', ctx.flat(k.point_at_angle(90))), ('closed', bool(k.is_closed)),
             ('start', ctx.flat(k.start_point)), ('stop', ctx.flat(k.stop_point)), ('eccentricity', ctx.flat(k.eccentricity)),
             ('crossings', [c for q in as_list(k.intersect_segment(Segment2D(Vector2D(-1, 1), Vector2D(3, 1)))) for c in (q.x, q.y)])]
        if is_circle:
            r += [('radius', [k.radius, k.diameter, k.perimeter, k.area]), ('tangent', ctx.flat([t.p for t in [k.tangent_at_angle(0)]] + [t.v for t in [k.tangent_at_angle(0)]])),
                  ('signed distance', [k.signed_distance_to_point(p)])]
            if k.domain is None:
                r += [('distance', [k.distance_to_point(p)])]
        else:
            r += [('radii', [k.radius_x, k.radius_y, k.angle]), ('axes', ctx.flat([k.major_vector, k.minor_vector])),
                  ('matrix', ctx.flat([c for c in k.matrix()])), ('frame', ctx.flat(k.point_in_ellipse_frame(p))),
                  ('pieces', ctx.flat([list(c.points) for c in k.to_bezier()])),
                  ('distance', [k.distance_to_point(Vector2D(k.center.x, k.center.y + 9))] if k.angle == 0 else [])]
        if k.domain is not None:
            r += [('domain', [k.domain.start, k.domain.stop, k.domain.length])]
        return r

    x, y, a, b, angle, domain = v = [1, -1, 3, 2, 0, (0, 180) if 'arc' in kind else None]
    k = new(*v)
    first = ask(k)
    if how == 'radius':
        v[2], v[3] = a + d, b + d / 2
        if is_circle:
            k.radius = v[2]
        else:
            k.radius_x, k.radius_y = v[2:4]
    elif how == 'center':
        v[0], v[1] = x + d, y - d
        k.center = Vector2D(*v[:2])
    elif how == 'angle':
        k.angle = v[4] = 90
    elif how == 'domain':
        v[5] = ctx.choose('domain', [(0, 90), (180, 450), None])
        k.domain = AngularDomain(*v[5]) if v[5] else None
    elif how == 'transform':
        # a symmetry with respect to the vertical axis or a scale by a half, and a translation
        m = ctx.choose('matrix', [-1, 2])
        k.apply_transformation(tmat(((m, 0), (0, abs(m))), d, -d))
        v[0], v[1], v[2], v[3] = m * x + d, abs(m) * y - d, abs(m) * a, abs(m) * b
        v[5] = domain      # symmetric
    else:
        q = k.clone()
        q.center = Vector2D(x + d, y)
        w = [x + d] + v[1:]
        for (label, g), (_, h) in zip(ask(q), ask(new(*w))):
            ctx.eq(g, h, 'copy: ' + label)
        for (label, g), (_, h) in zip(ask(k), first):
            ctx.eq(g, h, 'again: ' + label)
    angle = k.angle if how == 'transform' and not is_circle else v[4]
    if how == 'transform' and not is_circle:
        ctx.check(angle % 180 == 0, 'axes')
        v[4] = angle
        v[5] = (k.domain.start, k.domain.stop) if domain else None
    for (label, g), (_, h) in zip(ask(k), ask(new(*v))):
        ctx.eq(g, h, label)


@harness(P)
def independent(ctx):
    """a clone shares nothing with its source"""
    from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    from Patro.GeometryEngine.Vector import Vector2D
    a, b = ctx.real('a', 0, 90), ctx.real('b', 100, 350)
    x, r = ctx.real('x', -10, 10), ctx.real('r', 0.5, 10)
    c = Vector2D(x, 2)
    domain = AngularDomain(a, b)
    k = Circle2D(c, r, domain) if ctx.choose('kind', [False, True]) else Ellipse2D(c, r, 3, 90, domain)
    o = k.clone()
    ctx.check(type(o) is type(k), 'class')
    ctx.eq([o.center.x, o.center.y, o.domain.start, o.domain.stop], [x, 2, a, b], 'clone')
    m, n = (k, o) if ctx.choose('modified', [False, True]) else (o, k)
    c.x = x + 5
    m.center.x = x + 1
    m.domain.start = a + 1
    m.domain.stop = b + 2
    ctx.eq([n.center.x, n.center.y, n.domain.start, n.domain.stop], [x, 2, a, b], 'independent')
    ctx.eq([m.center.x, m.center.y, m.domain.start, m.domain.stop], [x + 1, 2, a + 1, b + 2], 'modified')
    if isinstance(k, Ellipse2D):
        m.radius_x = m.radius_y = m.angle = 7
        ctx.eq([n.radius_x, n.radius_y, n.angle], [r, 3, 90], 'radii')
    else:
        m.radius = 7
        ctx.eq(n.radius, r, 'radius')
