"""SVG elliptical arcs: from endpoints to centre."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Conic']
BOUNDS = ('start point arbitrary, chord arbitrary or along 12 directions, radii arbitrary (large enough or not), ratio of the radii 1, 2, 150, 1/3, '
          'half chord up to 0.99999 of the radius, '
          'rotation 0, 90, -90, 180 degrees or the angle of (3, 4); both values of each flag')
META = dict(
    title='SVG arcs: endpoints, radii, rotation and flags give the specified arc',
    statement="""The ellipse of an SVG arc goes through both endpoints, has the given radii and rotation or, when the
    radii are too small, radii scaled by the least factor that makes it possible (the centre is then the middle of the endpoints). Its domain is
    the arc between the endpoints: it starts at the first one and stops at the second one when the sweep flag is set, the other way round otherwise
    (a domain is counterclockwise), and spans more than 180 degrees if and only if the large arc flag is set. A null radius or
    identical points give the segment; negative radii are the same as positive ones.""",
    quant='all endpoints, radii, flags and the rotations within the bounds',
    why='four arcs fit the endpoints and radii; the flags select one through the signs of several square roots and angles',
    files=['Patro/GeometryEngine/Conic.py'],
    mechanism=[('Ellipse2D.svg_arc', 'Patro/GeometryEngine/Conic.py')])
P = 'C16'

DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-4, 3), (-3, -4), (4, -3)]
# rotation, (cos, sin)
ANGLES = {0: (1, 0), 90: (0, 1), -90: (0, -1), 180: (-1, 0)}


def rotation(ctx, a):
    if a == 'oblique':
        t = ctx.angle('angle')
        c, s = ctx.deg_cs(t)
        ctx.assume(ctx.and_(ctx.eq_(c, ctx.frac(3, 5)), ctx.eq_(s, ctx.frac(4, 5))))
        return t, (ctx.frac(3, 5), ctx.frac(4, 5))
    return a, ANGLES[a]


def implicit(e, c, s, p):
    """(x/rx)² + (y/ry)² in the frame of the ellipse"""
    x, y = p[0] - e.center.x, p[1] - e.center.y
    u, v = (x * c + y * s) / e.radius_x, (y * c - x * s) / e.radius_y
    return u * u + v * v


def arc(ctx, p, q, rx, ry, a, large, sweep):
    from Patro.GeometryEngine.Conic import Ellipse2D
    from Patro.GeometryEngine.Vector import Vector2D
    return Ellipse2D.svg_arc(Vector2D(*p), Vector2D(*q), rx, ry, a, large, sweep)


@harness(P, params=[{'d': d, 'a': a, 'large': l, 'sweep': s, '_tier': 'thorough' if d == 'any' else 'quick'}
                    for d in ((1, 0), (0, -1), 'any') for a in (0, 90, 'oblique') for l in (False, True) for s in (False, True)],
         budget=12, budget_thorough=240)
def ellipse(ctx, d, a, large, sweep):
    """large enough radii: an ellipse with these radii through the points"""
    t, (c, s) = rotation(ctx, a)
    p = (ctx.real('x', -10, 10), ctx.real('y', -10, 10))
    if d == 'any':
        d = (ctx.real('dx', 0.5, 5), ctx.real('dy', -5, 5))
    else:
        k = ctx.real('k', 0.5, 5)
        d = (d[0] * k, d[1] * k)
    q = (p[0] + d[0], p[1] + d[1])
    rx = ctx.real('rx', 8, 20)
    ry = rx * ctx.choose('ratio', [1, 150])
    e = arc(ctx, p, q, rx * ctx.choose('sign', [1, -1]), ry, t, large, sweep)
    ctx.eq([e.radius_x, e.radius_y, e.angle], [rx, ry, t], 'radii and rotation')
    ctx.eq(implicit(e, c, s, p), 1, 'first point')
    ctx.eq(implicit(e, c, s, q), 1, 'second point')
    # side of the centre: on the left of the chord when the flags differ
    m = (e.center.x - p[0]) * d[1] - (e.center.y - p[1]) * d[0]
    ctx.check(m < 0 if large != sweep else m > 0, 'side of the centre')


@harness(P, params=[{'d': d, 'large': l, 'sweep': s} for d in DIRS for l in (False, True) for s in (False, True)], budget=30)
def domain(ctx, d, large, sweep):
    """extent of the domain: half chord k, distance of the centre h, several ratios and rotations"""
    t, (c, s) = rotation(ctx, ctx.choose('a', [0, 90, -90, 180]))
    ratio = ctx.choose('ratio', [1, 2, ctx.frac(1, 3)])
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    # on the unit circle: half chord 3/5, 4/5 or nearly 1; ellipse frame
    k = ctx.choose('k', [ctx.frac(3, 5), ctx.frac(4, 5), ctx.frac(79600, 79601)] if d in DIRS[:6:2] else [ctx.frac(3, 5), ctx.frac(79600, 79601)])
    rx = ctx.real('rx', 1, 10)
    ry = rx * ratio
    n = 5 if abs(d[0]) > 1 or abs(d[1]) > 1 else 1
    u, v = 2 * k * d[0] * rx / n, 2 * k * d[1] * ry / n
    q = (x + u * c - v * s, y + u * s + v * c)
    e = arc(ctx, (x, y), q, rx, ry, t, large, sweep)
    ctx.eq([e.radius_x, e.radius_y], [rx, ry], 'radii')
    first, last = ((x, y), q) if sweep else (q, (x, y))
    for name, z, pt in (('start', e.domain.start, first), ('stop', e.domain.stop, last)):
        cz, sz = ctx.deg_cs(z)
        ctx.eq([e.center.x + rx * cz * c - ry * sz * s, e.center.y + rx * cz * s + ry * sz * c], list(pt), name + ' of the domain')
    l = e.domain.length
    ctx.check(ctx.and_(l > ctx.pi, l < 2 * ctx.pi) if large else ctx.and_(l > 0, l < ctx.pi), 'large arc')


@harness(P, params=[{'a': a} for a in (0, 90, 'oblique')], budget=40)
def scaled(ctx, a):
    """too small radii"""
    t, (c, s) = rotation(ctx, a)
    p = (ctx.real('x', -10, 10), ctx.real('y', -10, 10))
    d = (ctx.real('dx', 5, 10), ctx.real('dy', -5, 5))
    q = (p[0] + d[0], p[1] + d[1])
    rx = ctx.real('rx', 0.1, 10)
    ratio = ctx.choose('ratio', [1, 2])
    u, v = d[0] * c + d[1] * s, (d[1] * c - d[0] * s) / ratio
    # possibly by very little
    ctx.assume(u * u + v * v > 4 * rx * rx)
    large, sweep = ctx.choose('large', [False, True]), ctx.choose('sweep', [False, True])
    e = arc(ctx, p, q, rx, rx * ratio, t, large, sweep)
    ctx.eq([e.center.x, e.center.y], [(p[0] + q[0]) / 2, (p[1] + q[1]) / 2], 'centre')
    ctx.eq(e.radius_y, e.radius_x * ratio, 'ratio of the radii')
    ctx.check(e.radius_x > 0, 'positive radius')
    ctx.eq(implicit(e, c, s, p), 1, 'first point')


@harness(P)
def scaled_domain(ctx):
    """half of an ellipse"""
    d = ctx.choose('d', DIRS)
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    r = ctx.real('r', 0.1, 0.499) * (5 if abs(d[0]) > 1 or abs(d[1]) > 1 else 1)
    large, sweep = ctx.choose('large', [False, True]), ctx.choose('sweep', [False, True])
    q = (x + d[0], y + d[1])
    e = arc(ctx, (x, y), q, r, r, 0, large, sweep)
    ctx.eq(e.domain.length, ctx.pi, 'half circle')
    first, last = ((x, y), q) if sweep else (q, (x, y))
    for name, z, pt in (('start', e.domain.start, first), ('stop', e.domain.stop, last)):
        cz, sz = ctx.deg_cs(z)
        ctx.eq([e.center.x + e.radius_x * cz, e.center.y + e.radius_y * sz], list(pt), name + ' of the domain')


@harness(P)
def degenerate(ctx):
    p, q = [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(2)]
    r, a = ctx.real('r', 1, 10), ctx.angle('a')
    k = ctx.choose('k', ['x', 'y', 'both', 'same'])
    if k == 'same':
        q = p
    rx, ry = (0 if k in ('x', 'both') else r), (0 if k in ('y', 'both') else r)
    e = arc(ctx, p, q, rx, ry, a, ctx.choose('large', [False, True]), ctx.choose('sweep', [False, True]))
    ctx.is_(type(e).__name__, 'Segment2D', 'segment')
    ctx.eq([e.p0.x, e.p0.y, e.p1.x, e.p1.y], [*p, *q], 'ends')
