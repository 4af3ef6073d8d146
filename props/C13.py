"""B-splines."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Spline', 'Patro.GeometryEngine.Bezier']
BOUNDS = ('splines of degree 1 to 3 with up to degree + 4 arbitrary control points (uniform clamped knots), degree 2 with 4 points '
          'and degree 3 with 5 points and an arbitrary inner knot; arbitrary parameter in each span; one or two knots inserted')
BOUNDS += '; also splines of 13 or 14 control points, one of them arbitrary'
META = dict(
    title='B-splines: evaluation, knot insertion, conversion to Bézier curves, reversal',
    statement="""A B-spline evaluates, for every parameter of its domain, to the Cox-de Boor combination of its control points,
    whichever of the two algorithms is used; a clamped one starts and ends at its first and last control point and stays inside
    the bounding box of its control points. Inserting a knot adds one control point, adds the knot and changes no point of the
    curve nor the source, the degree and the closed flag. The conversion to Bézier curves gives one curve per span tracing exactly this span. The reversed spline traces the
    same points backwards. A parameter outside of the domain is refused. The uniform quadratic and cubic splines evaluate to the
    uniform basis and their Bézier conversion keeps every point.""",
    quant='all control points, parameters and inserted knots',
    why='the curve is piecewise polynomial: an error in one span, one degree or at one knot is not met by a few sampled values',
    files=['Patro/GeometryEngine/Spline.py'],
    mechanism=[('BSpline2D, QuadraticUniformSpline2D, CubicUniformSpline2D', 'Patro/GeometryEngine/Spline.py')])
P = 'C13'


def basis(knots, i, k, t, span):
    """N_i,k(t) for t in the knot span number `span`"""
    if k == 0:
        return 1 if i == span else 0
    r = 0
    if not (isinstance(knots[i + k] - knots[i], int) and knots[i + k] == knots[i]):
        b = basis(knots, i, k - 1, t, span)
        if not (isinstance(b, int) and b == 0):
            r = r + (t - knots[i]) * b / (knots[i + k] - knots[i])
    if not (isinstance(knots[i + k + 1] - knots[i + 1], int) and knots[i + k + 1] == knots[i + 1]):
        b = basis(knots, i + 1, k - 1, t, span)
        if not (isinstance(b, int) and b == 0):
            r = r + (knots[i + k + 1] - t) * b / (knots[i + k + 1] - knots[i + 1])
    return r


def value(knots, pts, deg, t, span):
    w = [basis(knots, i, deg, t, span) for i in range(len(pts))]
    return [sum(a * p[c] for a, p in zip(w, pts)) for c in (0, 1)]


def clamped(deg, n):
    return [0] * (deg + 1) + list(range(1, n - deg)) + [n - deg] * (deg + 1)


def spline(ctx, deg, n, **k):
    from Patro.GeometryEngine.Spline import BSpline2D
    v = ctx.vecs('p', n, **k)
    return BSpline2D(v, deg), [(q.x, q.y) for q in v]


def parameter(ctx, n_spans, name='t'):
    """(index of the span, parameter in it)"""
    i = ctx.choose(name + '_span', list(range(n_spans)))
    u = ctx.real(name, 0, 1)
    ctx.assume(u < 1)
    return i, i + u


CASES = [{'deg': d, 'n': n} for d in (1, 2, 3) for n in (d + 1, d + 2, d + 3)]
CASES += [{'deg': d, 'n': d + 4, '_tier': 'thorough'} for d in (1, 2, 3)]


@harness(P, params=CASES)
def evaluation(ctx, deg, n):
    s, c = spline(ctx, deg, n)
    kn = clamped(deg, n)
    ctx.is_([int(k) for k in s.knots], kn, 'knots')
    ctx.is_((s.degree, s.order, s.number_of_spans), (deg, deg + 1, n - deg), 'numbers')
    i, t = parameter(ctx, n - deg)
    e = value(kn, c, deg, t, i + deg)
    ctx.eq(s.point_at_t(t), e, 'point at t')
    ctx.eq(s.point_at_t(t, naive=True), e, 'point at t, naive algorithm')
    ctx.eq(s.point_at_t(0), list(c[0]), 'start')
    ctx.eq(s.point_at_t(n - deg), list(c[-1]), 'end')
    ctx.eq([[q.x, q.y] for q in s.points], [list(q) for q in c], 'control points unchanged')


@harness(P, params=[{'deg': d, 'n': n} for d, n in ((1, 3), (2, 4), (3, 5))])
def at_knots(ctx, deg, n):
    s, c = spline(ctx, deg, n)
    kn = clamped(deg, n)
    for k in range(1, n - deg):
        ctx.eq(s.point_at_t(k), value(kn, c, deg, ctx.frac(k), k + deg), 'right of the knot')
        ctx.eq(s.point_at_t(k), value(kn, c, deg, ctx.frac(k), k + deg - 1), 'left of the knot')
        ctx.eq(s.point_at_t(k, naive=True), value(kn, c, deg, ctx.frac(k), k + deg), 'naive')


@harness(P, params=[{'deg': d, 'n': n} for d, n in ((2, 4), (3, 5))])
def inside(ctx, deg, n):
    s, c = spline(ctx, deg, n, lo=-10, hi=10)
    i, t = parameter(ctx, n - deg)
    m = ctx.real('m')
    for q in c:
        ctx.assume(q[0] <= m)
    ctx.le(s.point_at_t(t).x, m, 'inside of the bounding box')


@harness(P, params=[{'deg': d, 'n': n} for d, n in ((2, 3), (2, 4), (3, 5))])
def out_of_domain(ctx, deg, n):
    s, c = spline(ctx, deg, n)
    t = ctx.real('t', -100, 100)
    ctx.assume(ctx.or_(t < 0, t > n - deg))
    ctx.raises(ValueError, lambda: s.point_at_t(t), 'refused')
    ctx.raises(ValueError, lambda: s.span(t), 'span refused')


INS = [{'deg': d, 'n': n} for d, n in ((1, 3), (2, 3), (2, 4), (3, 4), (3, 5))]
INS += [{'deg': d, 'n': n, '_tier': 'thorough'} for d, n in ((2, 5), (3, 6))]


def locate(ctx, knots, t):
    """index of the span of t in sorted knots"""
    for i in range(len(knots) - 1):
        if knots[i] <= t and t < knots[i + 1]:
            return i
    return None


@harness(P, params=INS, budget=80)
def knot_insertion(ctx, deg, n):
    s, c = spline(ctx, deg, n)
    kn = clamped(deg, n)
    j, k = parameter(ctx, n - deg, 'k')
    ctx.assume(k - j > 0.01)
    s2 = s.insert_knot(k)
    ctx.is_(s2.number_of_points, n + 1, 'number of points')
    ctx.is_(s2.degree, deg, 'degree')
    ctx.eq(list(s2.knots), kn[:j + deg + 1] + [k] + kn[j + deg + 1:], 'knots')
    i, t = parameter(ctx, n - deg)
    ctx.eq(s2.point_at_t(t), value(kn, c, deg, t, i + deg), 'same point')
    ctx.eq([[q.x, q.y] for q in s.points], [list(q) for q in c], 'source unchanged')
    ctx.is_([int(x) for x in s.knots], kn, 'source knots unchanged')


@harness(P, params=[{'deg': d, 'n': n} for d, n in ((2, 4), (3, 5))])
def insertion_at_knot(ctx, deg, n):
    """at an existing knot, up to the multiplicity degree"""
    s, c = spline(ctx, deg, n)
    kn = clamped(deg, n)
    i, t = parameter(ctx, n - deg)
    m = ctx.choose('times', list(range(1, deg)))
    s2 = s
    for _ in range(m):
        s2 = s2.insert_knot(1)
    ctx.is_(s2.knot_multiplicity(1), m + 1, 'multiplicity')
    ctx.eq(s2.point_at_t(t), value(kn, c, deg, t, i + deg), 'same point')


@harness(P, params=[{'deg': 1}, {'deg': 2}], budget=80)
def insertion_inner_knot(ctx, deg):
    """knot spans which are not 1"""
    from Patro.GeometryEngine.Spline import BSpline2D
    a = ctx.real('a', 0.1, 0.9)
    v = ctx.vecs('p', deg + 2)
    c = [(q.x, q.y) for q in v]
    kn = [0] * (deg + 1) + [a] + [1] * (deg + 1)
    s = BSpline2D(v, deg, knots=kn)
    k = ctx.real('k', 0.01, 0.99)
    ctx.assume(abs(k - a) > 0.01)
    s2 = s.insert_knot(k)
    ctx.is_(s2.number_of_points, deg + 3, 'number of points')
    lo, hi = (k, a) if k < a else (a, k)
    ctx.eq(list(s2.knots), [0] * (deg + 1) + [lo, hi] + [1] * (deg + 1), 'knots')
    t = ctx.real('t', 0, 1)
    ctx.assume(t < 1)
    span = deg if t < a else deg + 1
    ctx.eq(s2.point_at_t(t), value(kn, c, deg, t, span), 'same point')


@harness(P, params=[{'deg': 2}, {'deg': 3}], budget=80)
def inner_knot(ctx, deg):
    """arbitrary inner knot"""
    from Patro.GeometryEngine.Spline import BSpline2D
    a = ctx.real('a', 0.1, 0.9)
    v = ctx.vecs('p', deg + 2)
    c = [(q.x, q.y) for q in v]
    k0 = ctx.choose('k0', [0, -3, 2])      # first knot
    kn = [k0] * (deg + 1) + [k0 + a] + [k0 + 1] * (deg + 1)
    s = BSpline2D(v, deg, knots=kn)
    t = ctx.real('t', 0, 1)
    ctx.assume(t < 1)
    t = t + k0
    span = deg if t < k0 + a else deg + 1
    ctx.eq(s.point_at_t(t), value(kn, c, deg, t, span), 'point at t')
    ctx.eq(s.point_at_t(k0 + 1), list(c[-1]), 'end')
    ctx.raises(ValueError, lambda: s.point_at_t(k0 + 1 + ctx.frac(1, 8)), 'after the end')
    ctx.raises(ValueError, lambda: s.point_at_t(k0 - ctx.frac(1, 8)), 'before the start')
    r = s.reverse()
    ctx.eq(list(r.knots), [k0] * (deg + 1) + [k0 + 1 - a] + [k0 + 1] * (deg + 1), 'reversed knots')
    ctx.eq(r.point_at_t(2 * k0 + 1 - t), value(kn, c, deg, t, span), 'reversed')
    q = s.clone()
    ctx.eq(list(q.knots), kn, 'cloned knots')
    ctx.is_((q.degree, q.uniform), (deg, False), 'clone')
    closed = BSpline2D(v, deg, closed=True, knots=kn)
    ctx.is_((closed.clone().is_closed, closed.reverse().is_closed, q.is_closed), (True, True, False), 'closure flag of copies')


@harness(P, params=[{'deg': d, 'n': n} for d in (2, 3) for n in (d + 1, d + 2)] +
         [{'deg': d, 'n': d + 3, '_tier': 'thorough'} for d in (2, 3)])
def bezier(ctx, deg, n):
    s, c = spline(ctx, deg, n)
    kn = clamped(deg, n)
    b = s.to_bezier()
    ctx.is_(len(b), n - deg, 'one curve by span')
    i, t = parameter(ctx, n - deg)
    ctx.is_(type(b[i]).__name__, {2: 'QuadraticBezier2D', 3: 'CubicBezier2D'}[deg], 'class')
    ctx.eq(b[i].point_at_t(t - i), value(kn, c, deg, t, i + deg), 'same point')
    ctx.eq([[q.x, q.y] for q in s.points], [list(q) for q in c], 'source unchanged')


@harness(P, params=[{'deg': d, 'n': n} for d, n in ((1, 3), (2, 4), (3, 5))])
def reversal(ctx, deg, n):
    s, c = spline(ctx, deg, n)
    r = s.reverse()
    kn = clamped(deg, n)
    i, t = parameter(ctx, n - deg)
    ctx.eq(r.point_at_t(n - deg - t), value(kn, c, deg, t, i + deg), 'same point')
    ctx.is_((r.degree, r.uniform, r.is_closed), (deg, True, False), 'attributes')
    ctx.eq([[q.x, q.y] for q in s.points], [list(q) for q in c], 'source unchanged')


@harness(P, params=[{'deg': 2}, {'deg': 3}])
def uniform(ctx, deg):
    from Patro.GeometryEngine.Spline import QuadraticUniformSpline2D, CubicUniformSpline2D
    v = ctx.vecs('p', deg + 1)
    c = [(q.x, q.y) for q in v]
    s = (QuadraticUniformSpline2D if deg == 2 else CubicUniformSpline2D)(*v)
    t = ctx.real('t')
    u = 1 - t
    if deg == 2:
        w, d = [u * u, -2 * t * t + 2 * t + 1, t * t], 2
    else:
        w, d = [u * u * u, 3 * t * t * t - 6 * t * t + 4, -3 * t * t * t + 3 * t * t + 3 * t + 1, t * t * t], 6
    e = [sum(a * q[i] for a, q in zip(w, c)) for i in (0, 1)]
    p = s.point_at_t(t)
    ctx.eq([p.x * d, p.y * d], e, 'uniform basis')
    q = s.to_bezier().point_at_t(t)
    ctx.eq([q.x * d, q.y * d], e, 'Bezier conversion')


@harness(P)
def bad_arguments(ctx):
    from Patro.GeometryEngine.Spline import BSpline2D
    v = ctx.vecs('p', 3)
    ctx.raises(ValueError, lambda: BSpline2D(v, 3), 'not enough points')
    a, b = ctx.real('a', 0, 10), ctx.real('b', 0, 10)
    ctx.assume(a > b)
    ctx.raises(ValueError, lambda: BSpline2D(v, 2, knots=[0, 0, 0, a, b, 10]), 'decreasing knots')


@harness(P, params=[{'deg': 1, 'n': 13}, {'deg': 2, 'n': 13}, {'deg': 3, 'n': 14}], budget=60)
def many_points(ctx, deg, n):
    """more than ten spans, control points given but one"""
    from Patro.GeometryEngine.Spline import BSpline2D
    from Patro.GeometryEngine.Vector import Vector2D
    c = [((7 * i * i + 3 * i) % 19 - 9, (5 * i * i + i) % 17 - 8) for i in range(n)]
    k = ctx.choose('arbitrary', [1, n // 2, n - 2])
    c[k] = (ctx.real('x', -10, 10), ctx.real('y', -10, 10))
    s = BSpline2D([Vector2D(*p) for p in c], deg)
    kn = clamped(deg, n)
    ctx.is_([int(k) for k in s.knots], kn, 'knots')
    i, t = parameter(ctx, n - deg)
    e = value(kn, c, deg, t, i + deg)
    ctx.eq(s.point_at_t(t), e, 'point at t')
    ctx.eq(s.point_at_t(t, naive=True), e, 'point at t, naive algorithm')
    if i in (0, 5, n - deg - 1) and deg > 1:
        ctx.eq(s.clone().point_at_t(t), e, 'clone')
        curves = s.to_bezier()
        ctx.is_(len(curves), n - deg, 'one curve for each span')
        ctx.eq(curves[i].point_at_t(t - i), e, 'curve of the span')


@harness(P)
def independent(ctx):
    """knots given, flags and results of the insertion of a knot"""
    from Patro.GeometryEngine.Spline import BSpline2D
    pts = ctx.vecs('p', 4, lo=-10, hi=10)
    c = [[p.x, p.y] for p in pts]
    closed = ctx.choose('closed', [False, True])
    knots = ctx.choose('knots', [[0, 0, 0, 1, 2, 2, 2], [0, 0, 0, 1, 1, 1, 1], None])
    given = list(knots) if knots else None
    s = BSpline2D(pts, 2, closed=closed, knots=given)
    want = list(s.knots)
    if given:
        ctx.is_(want, knots, 'knots')
        given[3] = 9
        ctx.is_(list(s.knots), knots, 'the knots given are not shared')
    t = ctx.choose('t', [0.5, 0.25])
    for label, o in (('clone', s.clone()), ('reverse', s.reverse()), ('insertion', s.insert_knot(t))):
        ctx.is_(bool(o.is_closed), closed, label + ' closed')
        ctx.is_(o.degree, 2, label + ' degree')
        for p in o._points:
            p.x = p.x + 1
        o._knots.append(99)
        ctx.eq([[p.x, p.y] for p in s.points], c, label + ' does not change the source')
        ctx.is_(list(s.knots), want, label + ' does not change the knots of the source')
