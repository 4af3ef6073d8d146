"""Bezier curves: evaluation, splitting, elevation, length, area."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Bezier', 'Patro.GeometryEngine.Spline']
BOUNDS = ('one quadratic or cubic curve with arbitrary real control points, arbitrary parameters; lengths: curves whose points '
          'are collinear on any axis or direction (turning back or not), elevated quadratic curves, general quadratic curves up '
          'to the closed form with log uninterpreted; t at length on uniform curves at multiples of 1/16 of the length')
META = dict(
    title='Bézier curves: evaluation, splitting, elevation, tangents, length, area',
    statement="""For every quadratic and cubic Bézier curve and every parameter, point_at_t is the Bernstein combination of the
    control points, the tangent is proportional to its derivative with the same sense, splitting at t (and at two parameters in
    any order) gives curves that trace exactly the corresponding parts of the curve and meet at the same point, degree
    elevation and conversion to a spline keep every point, and the curve lies inside its fat line. The area of a cubic is the
    signed area between the curve and its chord. The length is the distance for a straight curve, accounts for the way back of
    a curve that turns back, is the closed form integral of the speed for a quadratic curve, agrees between a quadratic and its
    elevated cubic, and t_at_length inverts length_at_t, refusing negative or too large lengths, also
    after the control points changed.""",
    quant='all control points and parameters in and out of [0, 1]',
    why='polynomial identities in 9 to 12 variables, tests evaluate them for one or two literal curves',
    files=['Patro/GeometryEngine/Bezier.py', 'Patro/GeometryEngine/Primitive.py'],
    mechanism=[('point_at_t, split_at_t, to_cubic, tangent, fat_line, length, area', 'Patro/GeometryEngine/Bezier.py')])
P = 'C11'


def curve(ctx, deg, tag='p', lo=None, hi=None):
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    v = ctx.vecs(tag, deg + 1, lo=lo, hi=hi)
    return (QuadraticBezier2D if deg == 2 else CubicBezier2D)(*v), [(q.x, q.y) for q in v]


def bern(c, t):
    u = 1 - t
    w = [u * u, 2 * t * u, t * t] if len(c) == 3 else [u * u * u, 3 * u * u * t, 3 * u * t * t, t * t * t]
    return [sum(a * q[i] for a, q in zip(w, c)) for i in (0, 1)]


def deriv(c, t):
    n = len(c) - 1
    d = [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(c, c[1:])]
    u = 1 - t
    w = [u, t] if len(d) == 2 else [u * u, 2 * t * u, t * t]
    return [sum(a * q[i] for a, q in zip(w, d)) for i in (0, 1)]


D = [{'deg': 2}, {'deg': 3}]


@harness(P, params=D)
def evaluation(ctx, deg):
    b, c = curve(ctx, deg)
    t = ctx.real('t')
    ctx.eq(b.point_at_t(t), bern(c, t), 'point at t')
    ctx.eq(b.point_at_t(0), list(c[0]), 'start')
    ctx.eq(b.point_at_t(1), list(c[-1]), 'end')
    ctx.eq([[q.x, q.y] for q in b.points], [list(q) for q in c], 'control points unchanged')


@harness(P, params=D)
def tangents(ctx, deg):
    b, c = curve(ctx, deg)
    t = ctx.real('t')
    d = deriv(c, t)
    v = b.tangent_at(t)
    ctx.eq([v.x * deg, v.y * deg], d, 'tangent at t')
    which = ctx.choose('end', [0, 1] if deg == 2 else [1])
    d = deriv(c, which)
    m = ctx.sqrt(d[0] * d[0] + d[1] * d[1])
    ctx.assume(m > 0)
    v = b.tangent0 if which == 0 else b.tangent1
    ctx.eq([v.x * m, v.y * m], d, 'unit tangent at the end')
    if deg == 2:
        n = b.normal0 if which == 0 else b.normal1
        ctx.eq([n.x * m, n.y * m], [-d[1], d[0]], 'unit normal at the end')
    ctx.eq([[q.x, q.y] for q in b.points], [list(q) for q in c], 'control points unchanged')


@harness(P, params=D)
def split(ctx, deg):
    b, c = curve(ctx, deg)
    t, s = ctx.real('t', 0, 1), ctx.real('s')
    ctx.assume(ctx.and_(t > 0, t < 1))
    l, r = b.split_at_t(t)
    ctx.check(type(l) is type(b) and type(r) is type(b), 'class')
    ctx.eq(bern([(q.x, q.y) for q in l.points], s), bern(c, s * t), 'left part')
    ctx.eq(bern([(q.x, q.y) for q in r.points], s), bern(c, t + s * (1 - t)), 'right part')
    ctx.eq(l.end_point, r.start_point, 'same point')
    ctx.eq([[q.x, q.y] for q in b.points], [list(q) for q in c], 'source unchanged')


@harness(P, params=D)
def split_two(ctx, deg):
    b, c = curve(ctx, deg)
    kind = ctx.choose('kind', ['inside', 'reversed', 'from the start', 'to the end', 'whole', 'equal'])
    s = ctx.real('s')
    t1, t2 = ctx.real('t1', 0, 1), ctx.real('t2', 0, 1)
    if kind == 'equal':
        ctx.eq(b.split_at_two_t(t1, t1), bern(c, t1), 'point')
        return
    if kind in ('from the start', 'whole'):
        t1 = 0
    if kind in ('to the end', 'whole'):
        t2 = 1
    ctx.assume(t1 < t2)
    r = b.split_at_two_t(t2, t1) if kind == 'reversed' else b.split_at_two_t(t1, t2)
    ctx.eq(bern([(q.x, q.y) for q in r.points], s), bern(c, t1 + s * (t2 - t1)), 'part of the curve')
    ctx.eq([[q.x, q.y] for q in b.points], [list(q) for q in c], 'source unchanged')


@harness(P)
def split_bounds(ctx):
    """a quadratic curve is not split outside of ]0, 1["""
    b, c = curve(ctx, 2)
    t = ctx.real('t')
    ctx.assume(ctx.or_(t <= 0, t >= 1))
    l, r = b.split_at_t(t)
    if t <= 0:
        ctx.check(l is None and r is b, 'right only')
    else:
        ctx.check(r is None and l is b, 'left only')


@harness(P)
def elevation(ctx):
    b, c = curve(ctx, 2)
    t = ctx.real('t')
    k = b.to_cubic()
    ctx.is_(k.number_of_points, 4, 'cubic')
    ctx.eq(bern([(q.x, q.y) for q in k.points], t), bern(c, t), 'same points')
    q = k.mid_point_quadratic_approximation()
    ctx.eq([[p.x, p.y] for p in q.points], [list(p) for p in c], 'quadratic approximation of an elevated quadratic')


@harness(P)
def spline(ctx):
    b, c = curve(ctx, 3)
    t = ctx.real('t')
    s = b.to_spline()
    ctx.is_(s.number_of_points, 4, 'spline')
    q = [(p.x, p.y) for p in s.points]
    u = 1 - t
    w = [u * u * u, 3 * t * t * t - 6 * t * t + 4, -3 * t * t * t + 3 * t * t + 3 * t + 1, t * t * t]
    ctx.eq([sum(a * p[i] for a, p in zip(w, q)) for i in (0, 1)], [6 * x for x in bern(c, t)], 'same points')


@harness(P, params=D)
def basis_matrices(ctx, deg):
    """coefficients of the polynomials are geometry matrix x basis"""
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    b, c = curve(ctx, deg)
    t = ctx.real('t')
    k = QuadraticBezier2D if deg == 2 else CubicBezier2D
    m = [[sum(c[j][i] * k.BASIS[j][p] for j in range(deg + 1)) for p in range(deg + 1)] for i in (0, 1)]
    tp = [1, t, t * t, t * t * t]
    ctx.eq([sum(m[i][p] * tp[p] for p in range(deg + 1)) for i in (0, 1)], bern(c, t), 'monomial form')
    for i in range(deg + 1):
        for j in range(deg + 1):
            ctx.eq(sum(k.BASIS[i][p] * k.INVERSE_BASIS[p][j] for p in range(deg + 1)), 1 if i == j else 0, 'inverse')


@harness(P, params=D)
def fat_line(ctx, deg):
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Vector import Vector2D
    n = ctx.real('n', 0.1, 100)
    c = [(0, 0)] + [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', -100, 100)) for i in range(1, deg)]
    d = ctx.choose('direction', [(1, 0), (0, 1), (-1, 0)])
    c = [(d[0] * x - d[1] * y + 1, d[1] * x + d[0] * y + 2) for x, y in c + [(n, 0)]]
    b = (QuadraticBezier2D if deg == 2 else CubicBezier2D)(*[Vector2D(*p) for p in c])
    line, lo, hi = b.fat_line()
    ctx.eq(line.p, list(c[0]), 'line goes through the start')
    ctx.eq((c[-1][0] - c[0][0]) * line.v.y, (c[-1][1] - c[0][1]) * line.v.x, 'line goes through the end')
    t = ctx.real('t', 0, 1)
    q = bern(c, t)
    dist = d[0] * (q[1] - c[0][1]) - d[1] * (q[0] - c[0][0])
    ctx.le(lo, dist, 'above the lower line')
    ctx.le(dist, hi, 'below the upper line')


@harness(P, params=D)
def non_parametric(ctx, deg):
    from Patro.GeometryEngine.Line import Line2D
    b, c = curve(ctx, deg)
    p, v = ctx.vec('lp'), ctx.vec('lv')
    ctx.assume(ctx.or_(v.x != 0, v.y != 0))
    m = ctx.sqrt(v.x * v.x + v.y * v.y)
    k = b.non_parametric_curve(Line2D(p, v))
    t = ctx.real('t')
    r = bern([(q.x, q.y) for q in k.points], t)
    q = bern(c, t)
    ctx.eq(r[0], t, 'abscissa is t')
    ctx.eq(r[1] * m, v.x * (q[1] - p.y) - v.y * (q[0] - p.x), 'ordinate is the distance to the line')


@harness(P)
def area(ctx):
    """area between the curve and its chord by Green's theorem"""
    b, c = curve(ctx, 3)
    # 1/2 sum_ij cross(p_i, p_j) int B_i B_j' dt, with B_j' = 3 (b_{j-1} - b_j) of degree 2
    from math import comb
    tot = 0
    for i in range(4):
        for j in range(3):
            # int B_i,3 B_j,2 dt = C(3,i) C(2,j) / (C(5,i+j) 6)
            w = ctx.frac(comb(3, i) * comb(2, j), comb(5, i + j) * 6)
            dx, dy = 3 * (c[j + 1][0] - c[j][0]), 3 * (c[j + 1][1] - c[j][1])
            tot = tot + w * (c[i][0] * dy - c[i][1] * dx)
    tot = tot + c[3][0] * c[0][1] - c[0][0] * c[3][1]
    a = b.area
    if ctx.choose('sense', ['magnitude', 'reversed']) == 'magnitude':
        ctx.eq(4 * a * a, tot * tot, 'area')
    else:
        ctx.eq(b.reverse().area, -a, 'reversed curve')


@harness(P, params=D)
def straight_length(ctx, deg):
    """control points along a line, in order or turning back"""
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D
    from Patro.GeometryEngine.Vector import Vector2D
    ox, oy = ctx.real('ox'), ctx.real('oy')
    ux, uy = ctx.choose('u', [(1, 0), (0, 1), (3, 4), (-4, 3)])
    m = ctx.frac(5 if abs(ux) + abs(uy) == 7 else 1)
    k1, k2 = ctx.real('k1', -100, 100), ctx.real('k2', 1, 100)
    ctx.assume(ctx.or_(k1 * 2 - k2 > 0.5, k1 * 2 - k2 < -0.5, ctx.eq_(k1 * 2, k2)))
    c = [(ox + k * ux, oy + k * uy) for k in (0, k1, k2)]
    b = QuadraticBezier2D(*[Vector2D(*p) for p in c])
    l = b.length if deg == 2 else b.to_cubic().length
    if ctx.and_(k1 >= 0, k1 <= k2):
        ctx.eq(l, k2 * m, 'monotone')
    else:
        # turning point at t0 = k1 / (2 k1 - k2), abscissa k1^2 / (2 k1 - k2)
        e = k1 * k1 / (2 * k1 - k2)
        if e < 0:
            ctx.eq(l, (k2 - 2 * e) * m, 'way back before the start')
        else:
            ctx.eq(l, (2 * e - k2) * m, 'way back after the end')


@harness(P)
def uniform_length(ctx):
    """length_at_t and t_at_length are inverse on a curve of constant speed"""
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D
    a, d = ctx.vec('a'), ctx.real('d', 1, 100)
    from Patro.GeometryEngine.Vector import Vector2D
    u = ctx.choose('u', [(1, 0), (3, 4)])
    m = ctx.frac(5 if u[0] == 3 else 1)
    b = QuadraticBezier2D(a, Vector2D(a.x + u[0] * d, a.y + u[1] * d), Vector2D(a.x + 2 * u[0] * d, a.y + 2 * u[1] * d))
    L = 2 * d * m
    k = ctx.choose('k', [0, 1, 3, 6, 8, 13, 16])
    t = ctx.frac(k, 16)
    ctx.eq(b.length_at_t(t), L * t, 'length at t')
    ctx.eq(b.length_at_t(t, cache=True), L * t, 'length at t (cached)')
    ctx.eq(b.length_at_t(t, cache=True), L * t, 'length at t (from the cache)')
    for u in (ctx.frac(9999, 20000), ctx.frac(1, 2), ctx.frac(10001, 20000)):
        ctx.eq(b.length_at_t(u, cache=True), L * u, 'length at a close parameter (cached)')
    ctx.eq(b.t_at_length(L * t), t, 't at length')
    ctx.raises(ValueError, lambda: b.t_at_length(L + 1), 'too long')
    ctx.raises(ValueError, lambda: b.t_at_length(-d), 'negative length')
    ctx.eq(b.interpolated_length(0.25), L, 'interpolated length')
    ctx.eq(b.interpolated_length(ctx.frac(3, 8)), L, 'interpolated length (the last step is shorter)')


@harness(P, params=[{'how': h} for h in ('transform', 'points', 'clone')])
def modified_length(ctx, how):
    """lengths of a curve which is modified after its length was used"""
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GeometryEngine.Vector import Vector2D
    a, d = ctx.real('a', -10, 10), ctx.real('d', 1, 100)
    b = QuadraticBezier2D(Vector2D(a, 1), Vector2D(a + d, 1), Vector2D(a + 2 * d, 1))
    half = ctx.frac(1, 2)
    use = ctx.choose('use', ['length', 't', 'length cached', 'none'])
    if use == 'length':
        ctx.eq(b.length_at_t(half), d, 'length at t')
    elif use == 'length cached':
        ctx.eq(b.length_at_t(half, cache=True), d, 'length at t')
    elif use == 't':
        ctx.eq(b.t_at_length(d), half, 't at length')
    k = ctx.choose('k', [2, 10, half])
    if how == 'transform':
        c = b.transform(AffineTransformation2D.Scale(k, k))
    elif how == 'clone':
        c = b.transform(AffineTransformation2D.Scale(k, k), clone=True)
        ctx.eq(b.t_at_length(d), half, 't at length of the source')
        ctx.eq(b.length_at_t(half), d, 'length at t of the source')
    else:
        c = b
        b.p0, b.p1, b.p2 = [Vector2D(a, 1 + k * i * d) for i in (0, 1, 2)]
    ctx.eq(c.length, 2 * d * k, 'length')
    ctx.eq(c.length_at_t(half), d * k, 'length at t')
    ctx.eq(c.length_at_t(half, cache=True), d * k, 'length at t (cached)')
    ctx.eq(c.t_at_length(d * k), half, 't at length')
    ctx.eq(c.t_at_length(d * k / 2), half / 2, 't at length')


@harness(P)
def closed_form_length(ctx):
    """the closed form, log being an uninterpreted function of its exact argument"""
    import Patro.GeometryEngine.Bezier as B
    from Patro.GeometryEngine.Vector import Vector2D
    x, y, z = ctx.real('x', -10, 10), ctx.real('y', -10, 10), ctx.real('z', 1, 10)
    pts = [(0, 0), (x, y), (z, 0)]
    ctx.assume(ctx.or_(y > 0.5, y < -0.5))
    b = B.QuadraticBezier2D(*[Vector2D(*p) for p in pts])
    L = b.length
    a1 = (pts[0][0] - 2 * x + z, -2 * y)
    a = 4 * (x * x + y * y)
    bb = 8 * (x * a1[0] + y * a1[1])
    c = 4 * (a1[0] * a1[0] + a1[1] * a1[1])
    s = c + bb + a
    q = 4 * a * c - bb * bb
    rc, rs, ra = ctx.sqrt(c), ctx.sqrt(s), ctx.sqrt(a)
    lg = ctx.log(2 * rc * rs + 2 * c + bb) - ctx.log(2 * rc * ra + bb)
    ctx.eq(L * 8 * c * rc, 2 * rc * ((2 * c + bb) * rs - bb * ra) + q * lg, 'closed form')


@harness(P)
def flat(ctx):
    b, c = curve(ctx, 3, lo=-100, hi=100)
    f = ctx.real('f', 0, 10)
    u = [3 * c[1][i] - 2 * c[0][i] - c[3][i] for i in (0, 1)]
    v = [3 * c[2][i] - 2 * c[3][i] - c[0][i] for i in (0, 1)]
    r = bool(b.is_flat_enough(f))
    mx = lambda p, q: ctx.ite(p > q, p, q)
    crit = mx(u[0] * u[0], v[0] * v[0]) + mx(u[1] * u[1], v[1] * v[1])
    ctx.check(ctx.implies(crit < 16 * f * f - 0.001, r), 'flat')
    ctx.check(ctx.implies(crit > 16 * f * f + 0.001, ctx.not_(r)), 'not flat')
