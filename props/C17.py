"""Paths: construction, geometry of the parts, bulges, closing, cloning, transformation."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Path']
BOUNDS = ('paths of two parts of any of 22 kinds (three for the stringed curves), arbitrary start point, lengths and control points; bulges between two '
          'segments along 8 directions with an arbitrary radius and lengths; transformations: 7 linear parts, arbitrary translation')
BOUNDS += '; also paths of eighteen parts of all kinds'
META = dict(
    title='Paths: parts, control points, bulges, closing, cloning, transformation',
    statement="""Each part added to a path starts where the previous one stops (the first at the start point) and goes where its
    kind says: relative or absolute lines, horizontal, vertical, the eight compass directions, quadratic and cubic curves,
    stringed curves, whose first control point is the reflection of the last control point of a previous curve of the same degree
    or else the start point, arcs, and the closing line back to the start point, after which nothing can be added. A
    bulge of radius r between two lines is an arc of radius r tangent to both, from the first to the second one, on the side of
    the corner, and both segments are shortened to its ends. A rounded rectangle, a circle and the bulge at the closure
    follow. The bounding box contains the ends and the bulges. A clone has the same geometry and is independent. Transforming
    a path transforms every point, control point and bulge of its geometry, whatever the way its parts are given (relative, absolute, directional), and
    the geometry follows every change of the points, lengths and radii, used before or not.""",
    quant='all start points, lengths, points, radii and combinations of kinds of parts',
    why='a part depends on the previous parts: errors show up for combinations (relative after absolute after directional, curve of another degree before a stringed one...)',
    files=['Patro/GeometryEngine/Path.py'],
    mechanism=[('Path2D and its parts', 'Patro/GeometryEngine/Path.py')])
P = 'C17'

DIRECTIONS = {'north': (0, 1), 'south': (0, -1), 'east': (1, 0), 'west': (-1, 0),
              'north_east': (1, 1), 'north_west': (-1, 1), 'south_east': (1, -1), 'south_west': (-1, -1)}
LINES = ['line', 'LINE', 'h', 'H', 'H2', 'v', 'V', 'V2'] + list(DIRECTIONS)
CURVES = ['quad', 'QUAD', 'cubic', 'CUBIC', 'squad', 'SQUAD', 'scubic', 'SCUBIC']


def add(ctx, path, kind, cur, prev, n, radius=None):
    """add a part, return its expected points [start, controls..., stop]"""
    from Patro.GeometryEngine.Vector import Vector2D
    v = lambda i: (ctx.real(f'x{n}{i}', -10, 10), ctx.real(f'y{n}{i}', -10, 10))
    absolute = kind.isupper() and kind[-1] != '2'
    to = lambda p: tuple(p) if absolute else (cur[0] + p[0], cur[1] + p[1])
    k = kind.lower()
    R = {'radius': radius} if radius is not None else {}
    if k == 'line':
        p = v(0)
        path.line_to(Vector2D(*p), absolute=absolute, **R)
        return [cur, to(p)]
    if k in ('h', 'h2', 'v', 'v2'):
        l = ctx.real(f'l{n}', -10, 10)
        if kind == 'H':
            path.horizontal_to(l, absolute=True, **R)
        elif kind == 'V':
            path.vertical_to(l, absolute=True, **R)
        elif kind == 'H2':
            path.absolute_horizontal_to(l, **R)
        elif kind == 'V2':
            path.absolute_vertical_to(l, **R)
        elif kind == 'h':
            path.horizontal_to(l, **R)
        else:
            path.vertical_to(l, **R)
        if kind in ('h', 'v'):
            return [cur, (cur[0] + l, cur[1]) if k == 'h' else (cur[0], cur[1] + l)]
        return [cur, (l, cur[1]) if k[0] == 'h' else (cur[0], l)]
    if k in DIRECTIONS:
        l = ctx.real(f'l{n}', -10, 10)
        getattr(path, k + '_to')(l, **R)
        d = DIRECTIONS[k]
        m = ctx.sqrt(ctx.frac(d[0] * d[0] + d[1] * d[1]))
        return [cur, (cur[0] + l * d[0] / m, cur[1] + l * d[1] / m)]
    if k == 'quad':
        a, b = v(0), v(1)
        path.quadratic_to(Vector2D(*a), Vector2D(*b), absolute=absolute)
        return [cur, to(a), to(b)]
    if k == 'cubic':
        a, b, c = v(0), v(1), v(2)
        path.cubic_to(Vector2D(*a), Vector2D(*b), Vector2D(*c), absolute=absolute)
        return [cur, to(a), to(b), to(c)]
    if k == 'squad':
        b = v(1)
        path.stringed_quadratic_to(Vector2D(*b), absolute=absolute)
        r = cur if prev is None or len(prev) != 3 else (2 * cur[0] - prev[1][0], 2 * cur[1] - prev[1][1])
        return [cur, r, to(b)]
    if k == 'scubic':
        b, c = v(1), v(2)
        path.stringed_cubic_to(Vector2D(*b), Vector2D(*c), absolute=absolute)
        r = cur if prev is None or len(prev) != 4 else (2 * cur[0] - prev[2][0], 2 * cur[1] - prev[2][1])
        return [cur, r, to(b), to(c)]
    raise NotImplementedError(kind)


def compare(ctx, part, e, label):
    ctx.eq([[p.x, p.y] for p in part.points], [list(p) for p in e], label + ' points')
    ctx.eq(part.start_point, list(e[0]), label + ' start')
    ctx.eq(part.stop_point, list(e[-1]), label + ' stop')
    g = part.geometry
    ctx.is_(type(g).__name__, {2: 'Segment2D', 3: 'QuadraticBezier2D', 4: 'CubicBezier2D'}[len(e)], label + ' class')
    ctx.eq([[p.x, p.y] for p in g.points], [list(p) for p in e], label + ' geometry')


def start(ctx):
    from Patro.GeometryEngine.Path import Path2D
    p = ctx.vec('p', lo=-10, hi=10)
    return Path2D(p), (p.x, p.y)


@harness(P, params=[{'first': k} for k in LINES + CURVES], budget=60)
def two_parts(ctx, first):
    path, cur = start(ctx)
    e1 = add(ctx, path, first, cur, None, 1)
    second = ctx.choose('second', LINES + CURVES)
    e2 = add(ctx, path, second, e1[-1], e1, 2)
    ctx.is_(len(path), 2, 'number of parts')
    compare(ctx, path[1], e2, 'second')
    compare(ctx, path[0], e1, 'first')
    ctx.check(path[2] is None and path[-1] is None, 'no other part')
    ctx.is_([i.index for i in path], [0, 1], 'indexes')


@harness(P, params=[{'k': k} for k in ('squad', 'SQUAD', 'scubic', 'SCUBIC')])
def stringed(ctx, k):
    """reflection of a reflected control point"""
    path, cur = start(ctx)
    e1 = add(ctx, path, ctx.choose('first', ['quad', 'cubic', 'line']), cur, None, 1)
    e2 = add(ctx, path, k, e1[-1], e1, 2)
    e3 = add(ctx, path, ctx.choose('third', ['squad', 'scubic']), e2[-1], e2, 3)
    for i, e in enumerate((e1, e2, e3)):
        compare(ctx, path[i], e, str(i))


@harness(P)
def closing(ctx):
    from Patro.GeometryEngine.Vector import Vector2D
    path, cur = start(ctx)
    e1 = add(ctx, path, ctx.choose('first', LINES + ['quad', 'CUBIC']), cur, None, 1)
    e2 = add(ctx, path, ctx.choose('second', ['line', 'V', 'north_west', 'squad']), e1[-1], e1, 2)
    ctx.check(not path.is_closed, 'not closed')
    path.close()
    ctx.check(path.is_closed, 'closed')
    ctx.is_(len(path), 3, 'closing part')
    ctx.eq([[p.x, p.y] for p in path[2].points], [list(e2[-1]), list(cur)], 'closing line')
    path.line_to(Vector2D(1, 1))
    path.quadratic_to(Vector2D(1, 1), Vector2D(2, 1))
    ctx.is_(len(path), 3, 'nothing added to a closed path')
    q = path.clone()
    ctx.check(q.is_closed and len(q) == 3, 'clone is closed')


@harness(P)
def arc(ctx):
    """parameters given to the arc (see C16 for the arc itself)"""
    from Patro.GeometryEngine.Vector import Vector2D
    import Patro.GeometryEngine.Path as M
    path, cur = start(ctx)
    e1 = add(ctx, path, ctx.choose('first', ['line', 'H', 'north']), cur, None, 1)
    absolute = ctx.choose('absolute', [False, True])
    large, sweep = ctx.choose('large', [False, True]), ctx.choose('sweep', [False, True])
    q = (ctx.real('qx', -10, 10), ctx.real('qy', -10, 10))
    rx, ry, a = ctx.real('rx', 1, 10), ctx.real('ry', 1, 10), ctx.real('a', -180, 180)
    path.arc_to(Vector2D(*q), rx, ry, a, large, sweep, absolute=absolute)
    stop = q if absolute else (e1[-1][0] + q[0], e1[-1][1] + q[1])
    args = []

    class Spy:
        @staticmethod
        def svg_arc(*k):
            args.extend(k)
    real, M.Ellipse2D = M.Ellipse2D, Spy
    try:
        path[1].geometry
    finally:
        M.Ellipse2D = real
    ctx.eq(args[0], list(e1[-1]), 'start')
    ctx.eq(args[1], list(stop), 'stop')
    ctx.eq(args[2:5], [rx, ry, a], 'ellipse')
    ctx.is_((bool(args[5]), bool(args[6])), (large, sweep), 'flags')
    path.line_to(Vector2D(1, 2))
    ctx.eq(path[2].stop_point, [stop[0] + 1, stop[1] + 2], 'next part')


# -- bulges ----------------------------------------------------------------------------------------

def unit(ctx, d):
    if abs(d[0]) + abs(d[1]) == 2:
        m = ctx.sqrt(ctx.frac(2))
        return (d[0] / m, d[1] / m)
    return d


def check_bulge(ctx, part, corner, u, v, r, label):
    """corner between unit directions u (incoming) and v (outgoing); u, v as sequences of small integers"""
    uu, vv = unit(ctx, u), unit(ctx, v)
    c, s, e = part.bulge_center, part.bulge_start_point, part.bulge_stop_point
    for n, w, q in (('incoming', uu, s), ('outgoing', vv, e)):
        x, y = c.x - corner[0], c.y - corner[1]
        h = x * w[1] - y * w[0]
        ctx.eq(h * h, r * r, f'{label} tangent to the {n} line')
        ctx.eq([q.x, q.y], [corner[0] + w[0] * (x * w[0] + y * w[1]), corner[1] + w[1] * (x * w[0] + y * w[1])],
               f'{label} contact with the {n} line')
    ctx.check((s.x - corner[0]) * uu[0] + (s.y - corner[1]) * uu[1] < 0, f'{label} starts before the corner')
    ctx.check((e.x - corner[0]) * vv[0] + (e.y - corner[1]) * vv[1] > 0, f'{label} stops after the corner')
    g = part.bulge_geometry
    ctx.eq([g.center.x, g.center.y, g.radius], [c.x, c.y, r], f'{label} circle')
    left = u[0] * v[1] - u[1] * v[0] > 0         # counterclockwise when turning left
    ctx.eq(g.start_point, [s.x, s.y] if left else [e.x, e.y], f'{label} start of the arc')
    ctx.eq(g.stop_point, [e.x, e.y] if left else [s.x, s.y], f'{label} stop of the arc')
    if u[0] * v[0] + u[1] * v[1] == 0 and 0 in u and 0 in v:
        ctx.eq(g.domain.length * 2, ctx.pi, f'{label} length of the arc')


PAIRS = [(u, v) for u in DIRECTIONS for v in DIRECTIONS if DIRECTIONS[u] != DIRECTIONS[v] and
         DIRECTIONS[u] != tuple(-x for x in DIRECTIONS[v])]
AXES = ('north', 'south', 'east', 'west')


@harness(P, params=[{'u': u, 'w': w, '_tier': 'quick' if u in AXES and w in AXES else 'thorough'} for u, w in PAIRS],
         budget=20, budget_thorough=60, weight=3)
def bulge(ctx, u, w):
    path, cur = start(ctx)
    du, dw = DIRECTIONS[u], DIRECTIONS[w]
    l1, l2, r = ctx.real('l1', 20, 40), ctx.real('l2', 20, 40), ctx.real('r', 0.5, 4)
    getattr(path, u + '_to')(l1)
    getattr(path, w + '_to')(l2, radius=r)
    uu = unit(ctx, du)
    corner = (cur[0] + l1 * uu[0], cur[1] + l1 * uu[1])
    part = path[1]
    check_bulge(ctx, part, corner, du, dw, r, 'bulge')
    a, b = path[0].points, part.points
    ctx.eq(a[0], list(cur), 'start')
    ctx.eq(a[1], [part.bulge_start_point.x, part.bulge_start_point.y], 'first segment stops at the bulge')
    ctx.eq(b[0], [part.bulge_stop_point.x, part.bulge_stop_point.y], 'second segment starts at the bulge')
    vv = unit(ctx, dw)
    ctx.eq(b[1], [corner[0] + l2 * vv[0], corner[1] + l2 * vv[1]], 'stop')


# Pythagorean directions, nearly ahead or nearly back
SHARP = [(39999, 400, 40001), (39999, -400, 40001), (-39999, 400, 40001), (-39999, -400, 40001), (-9999, 200, 10001), (3, 4, 5), (-3, 4, 5), (-3, -4, 5)]


@harness(P, params=[{'w': w} for w in SHARP], budget=30)
def sharp_bulge(ctx, w):
    """any corner; the radius is small enough for the lengths"""
    from Patro.GeometryEngine.Vector import Vector2D
    path, cur = start(ctx)
    f = ctx.frac
    t = ctx.choose('turn', [(1, 0), (0, 1), (f(-3, 5), f(4, 5))] if w[2] == 5 else [(1, 0), (0, -1)])
    x, y = f(w[0], w[2]), f(w[1], w[2])
    dw = (x * t[0] - y * t[1], x * t[1] + y * t[0])
    l1, l2, r = 30, 20, ctx.real('r', 0.01, 0.05)
    path.line_to(Vector2D(l1 * t[0], l1 * t[1]))
    path.line_to(Vector2D(l2 * dw[0], l2 * dw[1]), radius=r)
    corner = (cur[0] + l1 * t[0], cur[1] + l1 * t[1])
    check_bulge(ctx, path[1], corner, t, dw, r, 'bulge')


@harness(P, budget=60)
def rounded_rectangle(ctx):
    from Patro.GeometryEngine.Path import Path2D
    p = ctx.vec('p', lo=-10, hi=10)
    w, h = ctx.real('w', 10, 30), ctx.real('h', 10, 30)
    which = ctx.choose('which', ['sharp', 'rounded', 'circle'])
    if which == 'sharp':
        path, r = Path2D.rounded_rectangle(p, w, h), None
    elif which == 'rounded':
        r = ctx.real('r', 0.5, 4)
        path = Path2D.rounded_rectangle(p, w, h, r)
    else:
        r = ctx.real('r', 0.5, 4)
        path = Path2D.circle(p, r)
        w = h = 2 * r
    c = [(p.x, p.y), (p.x + w, p.y), (p.x + w, p.y + h), (p.x, p.y + h)]
    d = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    ctx.check(path.is_closed and len(path) == 4, 'closed path of four parts')
    ctx.eq([[x.stop_point.x, x.stop_point.y] for x in path], [list(c[i]) for i in (1, 2, 3, 0)], 'corners')
    if r is None:
        for i in range(4):
            ctx.eq([[q.x, q.y] for q in path[i].points], [list(c[i]), list(c[(i + 1) % 4])], 'side')
            ctx.check(path[i].radius is None, 'no bulge')
        return
    for i in range(4):
        check_bulge(ctx, path[i], c[i], d[i - 1], d[i], r, f'bulge {i}')
        a = path[i].points
        ctx.eq(a[0], [path[i].bulge_stop_point.x, path[i].bulge_stop_point.y], 'side starts at the bulge')
        n = path[(i + 1) % 4]
        ctx.eq(a[1], [n.bulge_start_point.x, n.bulge_start_point.y], 'side stops at the next bulge')
        if which == 'circle':
            ctx.eq([path[i].bulge_center.x, path[i].bulge_center.y], [p.x + r, p.y + r], 'centre of the circle')


@harness(P)
def no_bulge_after_curve(ctx):
    from Patro.GeometryEngine.Vector import Vector2D
    path, cur = start(ctx)
    path.quadratic_to(Vector2D(1, 1), Vector2D(2, 0))
    k = ctx.choose('kind', ['h', 'line', 'V', 'south'])
    r = ctx.real('r', 0.5, 4)
    ctx.raises(ValueError, lambda: add(ctx, path, k, cur, None, 2, radius=r), 'bulge after a curve')
    n = len(path)
    add(ctx, path, k, cur, None, 3, radius=0)
    ctx.check(path[n].radius is None, 'null radius is no bulge')


# -- clone and transformation ----------------------------------------------------------------------

LIN = [((1, 0), (0, 1)), ((2, 0), (0, 2)), ((0, -1), (1, 0)), ((1, 0), (0, -1)), ((2, 0), (0, 3)), ((3, -4), (4, 3)), ((1, 1), (0, 1))]


def tmat(m, tx, ty):
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    return AffineTransformation2D([m[0][0], m[0][1], tx, m[1][0], m[1][1], ty, 0, 0, 1])


@harness(P, params=[{'first': k} for k in ('line', 'LINE', 'h', 'H', 'V2', 'south_east', 'quad', 'CUBIC', 'scubic')], budget=60)
def transform(ctx, first):
    path, cur = start(ctx)
    e1 = add(ctx, path, first, cur, None, 1)
    e2 = add(ctx, path, ctx.choose('second', ['line', 'LINE', 'H', 'v', 'north_west', 'cubic', 'QUAD', 'squad', 'scubic', 'SCUBIC']), e1[-1], e1, 2)
    closed = ctx.choose('closed', [False, True])
    if closed:
        path.close()
    m = ctx.choose('m', LIN[1:6])
    tx, ty = ctx.real('tx', -10, 10), ctx.real('ty', -10, 10)
    t = tmat(m, tx, ty)
    im = lambda p: (m[0][0] * p[0] + m[0][1] * p[1] + tx, m[1][0] * p[0] + m[1][1] * p[1] + ty)
    q = path.transform(t, clone=True)
    ctx.eq(q.p0, list(im(cur)), 'start point')
    for i, e in enumerate((e1, e2)):
        compare(ctx, q[i], [im(p) for p in e], f'image {i}')
        compare(ctx, path[i], e, f'source {i} unchanged')
    if closed:
        ctx.check(q.is_closed, 'closed')
        ctx.eq([[p.x, p.y] for p in q[2].points], [list(im(e2[-1])), list(im(cur))], 'closing line')


@harness(P, params=[{'i': i} for i in range(len(LIN) - 2)], budget=60, weight=3)
def transform_bulge(ctx, i):
    """similarity applied to bulges, whose geometry has been used or not before"""
    from Patro.GeometryEngine.Path import Path2D
    p = ctx.vec('p', lo=-10, hi=10)
    w, h, r = ctx.real('w', 10, 30), ctx.real('h', 10, 30), ctx.real('r', 0.5, 4)
    m = [LIN[k] for k in (0, 1, 2, 3, 5)][i]
    tx, ty = ctx.real('tx', -10, 10), ctx.real('ty', -10, 10)
    path = Path2D.rounded_rectangle(p, w, h, r)
    if ctx.choose('used', [False, True]):
        for part in path:
            part.bulge_geometry
            part.geometry
    q = path.clone() if ctx.choose('clone', [False, True]) else path
    q.transform(tmat(m, tx, ty))
    im = lambda p: (m[0][0] * p[0] + m[0][1] * p[1] + tx, m[1][0] * p[0] + m[1][1] * p[1] + ty)
    c = [(p.x, p.y), (p.x + w, p.y), (p.x + w, p.y + h), (p.x, p.y + h)]
    ci = [(p.x + r, p.y + r), (p.x + w - r, p.y + r), (p.x + w - r, p.y + h - r), (p.x + r, p.y + h - r)]
    si = [(p.x, p.y + r), (p.x + w - r, p.y), (p.x + w, p.y + h - r), (p.x + r, p.y + h)]
    ei = [(p.x + r, p.y), (p.x + w, p.y + r), (p.x + w - r, p.y + h), (p.x, p.y + h - r)]
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    for k in range(4):
        ctx.eq(q[k].stop_point, list(im(c[(k + 1) % 4])), f'corner {k}')
        ctx.eq(q[k].bulge_center, list(im(ci[k])), f'bulge centre {k}')
        ctx.eq(q[k].bulge_start_point, list(im(si[k])), f'bulge start {k}')
        ctx.eq(q[k].bulge_stop_point, list(im(ei[k])), f'bulge stop {k}')
        ctx.eq(q[k].radius * q[k].radius, r * r * abs(det), f'radius {k}')
        ctx.eq([[x.x, x.y] for x in q[k].points], [list(im(ei[k])), list(im(si[(k + 1) % 4]))], f'side {k}')


@harness(P)
def transform_arc(ctx):
    from Patro.GeometryEngine.Vector import Vector2D
    path, cur = start(ctx)
    large, sweep = ctx.choose('large', [False, True]), ctx.choose('sweep', [False, True])
    q = (ctx.real('qx', -10, 10), ctx.real('qy', -10, 10))
    rx = ctx.real('rx', 1, 10)
    ry = rx * ctx.choose('ratio', [2, 1])
    path.arc_to(Vector2D(*q), rx, ry, 0, large, sweep)
    m = ctx.choose('m', LIN[1:6])
    tx, ty = ctx.real('tx', -10, 10), ctx.real('ty', -10, 10)
    im = lambda p: (m[0][0] * p[0] + m[0][1] * p[1] + tx, m[1][0] * p[0] + m[1][1] * p[1] + ty)
    path.transform(tmat(m, tx, ty))
    part = path[0]
    ctx.eq(part.stop_point, list(im((cur[0] + q[0], cur[1] + q[1]))), 'stop')
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    ctx.is_((part._large_arc, part._sweep), (large, sweep if det > 0 else not sweep), 'flags')
    ctx.eq(part._radius_x * part._radius_y, rx * ry * abs(det), 'area')


@harness(P)
def clone(ctx):
    """modifying the clone or the source leaves the other unchanged"""
    from Patro.GeometryEngine.Vector import Vector2D
    path, cur = start(ctx)
    e1 = add(ctx, path, ctx.choose('first', ['line', 'H', 'north', 'cubic']), cur, None, 1)
    e2 = add(ctx, path, ctx.choose('second', ['LINE', 'v', 'west', 'squad', 'scubic', 'QUAD']), e1[-1], e1, 2)
    q = path.clone()
    for i, e in enumerate((e1, e2)):
        compare(ctx, q[i], e, f'clone {i}')
    d = ctx.vec('d', lo=-10, hi=10)
    a, b = (q, path) if ctx.choose('modified', ['clone', 'source']) == 'clone' else (path, q)
    a.transform(tmat(((1, 0), (0, 1)), d.x, d.y))
    a.line_to(Vector2D(1, 1))
    for i, e in enumerate((e1, e2)):
        compare(ctx, a[i], [(p[0] + d.x, p[1] + d.y) for p in e], f'moved {i}')
        compare(ctx, b[i], e, f'other {i}')
    ctx.is_((len(a), len(b)), (3, 2), 'number of parts')


@harness(P, params=[{'first': k} for k in ('line', 'H', 'quad', 'CUBIC')], budget=20)
def boxes(ctx, first):
    path, cur = start(ctx)
    e = [add(ctx, path, first, cur, None, 1)]
    if first in ('line', 'H'):
        e.append(add(ctx, path, ctx.choose('second', ['LINE', 'v']), e[0][-1], e[0], 2))
    b = path.bounding_box
    axis = ctx.choose('axis', [0, 1])
    i = b.x if axis == 0 else b.y
    for ps in e:
        for p in (ps[0], ps[-1]):
            ctx.le(i.inf, p[axis], 'lower side')
            ctx.le(p[axis], i.sup, 'upper side')


MANY = ['line', 'H', 'quad', 'squad', 'north_east', 'CUBIC', 'scubic', 'SCUBIC', 'V2', 'LINE', 'QUAD', 'SQUAD', 'h', 'south_west', 'cubic', 'scubic', 'v', 'H2']


@harness(P, params=[{'turn': k} for k in (0, 5, 11)], budget=60)
def many_parts(ctx, turn):
    """eighteen parts, closed or not, cloned or not"""
    path, cur = start(ctx)
    p0, e = cur, []
    for n, k in enumerate(MANY[turn:] + MANY[:turn]):
        e.append(add(ctx, path, k, cur, e[-1] if e else None, n))
        cur = e[-1][-1]
    if ctx.choose('close', [False, True]):
        path.close()
        e.append([cur, p0])
    if ctx.choose('clone', [False, True]):
        path = path.clone()
    ctx.is_([i.index for i in path], list(range(len(e))), 'indexes')
    for i, x in enumerate(e):
        compare(ctx, path[i], x, f'part {i}')


@harness(P, params=[{'kind': k} for k in ('lengths', 'points', 'radius', 'start', 'extended', 'absolute')])
def ask_modify_ask(ctx, kind):
    """the geometry of the parts is used, then the path is modified: the geometry is the one of a new path"""
    from Patro.GeometryEngine.Path import Path2D
    from Patro.GeometryEngine.Vector import Vector2D
    d = ctx.real('d', 1, 2)
    v = dict(x=1, y=-1, a=12, b=9, r=2, s=1, t=3)

    def new(v, close=True):
        p = Path2D(Vector2D(v['x'], v['y']))
        if kind == 'points':
            p.line_to(Vector2D(v['a'], 0))
            p.line_to(Vector2D(0, v['b']), radius=v['r'])
        elif kind == 'absolute':
            p.absolute_horizontal_to(v['a'])
            p.absolute_vertical_to(v['b'], radius=v['r'])
        else:
            p.horizontal_to(v['a'])
            p.vertical_to(v['b'], radius=v['r'])
        p.west_to(30, radius=v['s'])
        if close:
            p.quadratic_to(Vector2D(-3, -v['t']), Vector2D(4, -5))
            p.cubic_to(Vector2D(1, v['t']), Vector2D(3, 4), Vector2D(5, 6))
        return p

    def ask(p):
        r = []
        for i, part in enumerate(p):
            r += [(f'{i} ends', ctx.flat([part.start_point, part.stop_point]))]
            if i + 1 < len(p) or i >= 3:
                r += [(f'{i} geometry', ctx.flat(list(part.geometry.points)))]
            if i in (1, 2):
                g = part.bulge_geometry
                r += [(f'{i} bulge', ctx.flat([part.bulge_start_point, part.bulge_stop_point, part.bulge_center, g.center]) + [
                    g.radius, g.domain.start, g.domain.stop])]
        return r

    p = new(v, kind != 'extended')
    ask(p)
    if kind in ('lengths', 'points', 'absolute'):
        i = ctx.choose('part', [0, 1, 3])
        if i == 3:
            v['t'] = 3 + d
            p[3].point1 = Vector2D(-3, -v['t'])
            p[4].point1 = Vector2D(1, v['t'])
        else:
            k = 'ab'[i]
            v[k] = w = v[k] + 2 * d if ctx.choose('sign', [False, True]) else -v[k] - d
            if kind == 'lengths':
                p[i].length = w
            elif kind == 'absolute':
                setattr(p[i], 'xy'[i], w)
            else:
                p[i].point = Vector2D(w, 0) if i == 0 else Vector2D(0, w)
    elif kind == 'radius':
        i = ctx.choose('part', [1, 2])
        v['?rs'[i]] = w = 2 * d
        p[i].radius = w
    elif kind == 'start':
        v['x'], v['y'] = 1 + d, 1 - d
        if ctx.choose('how', [False, True]):
            p.move_to(Vector2D(v['x'], v['y']))
        else:
            p.p0 = Vector2D(v['x'], v['y'])
    else:
        p.quadratic_to(Vector2D(-3, -v['t']), Vector2D(4, -5))
        p.cubic_to(Vector2D(1, v['t']), Vector2D(3, 4), Vector2D(5, 6))
    for (label, g), (_, h) in zip(ask(p), ask(new(v))):
        ctx.eq(g, h, label)


@harness(P, params=[{'u': u} for u in ((3, 4, 5), (-4, 3, 5), (1, 0, 1), (5, -12, 13), (0, -1, 1))])
def bulge_box(ctx, u):
    """the box of a path contains its bulges and is tight"""
    from Patro.GeometryEngine.Path import Path2D
    from Patro.GeometryEngine.Vector import Vector2D
    w = ctx.choose('w', [(4, -3, 5), (-3, -4, 5), (0, 1, 1), (-1, 0, 1), (12, 5, 13), (3, -4, 5)])
    u, w = [(ctx.frac(x, n), ctx.frac(y, n)) for x, y, n in (u, w)]
    cr, dot = u[0] * w[1] - u[1] * w[0], u[0] * w[0] + u[1] * w[1]
    if cr == 0:
        return
    x, y, r = ctx.real('x', -10, 10), ctx.real('y', -10, 10), ctx.real('r', 0.1, 1)
    L = 30
    path = Path2D(Vector2D(x, y))
    path.line_to(Vector2D(L * u[0], L * u[1]))
    path.line_to(Vector2D(L * w[0], L * w[1]), radius=r)
    K = (x + L * u[0], y + L * u[1])
    t = r * abs(cr) / (1 + dot)
    s = 1 if cr > 0 else -1
    a = (K[0] - t * u[0], K[1] - t * u[1])
    b = (K[0] + t * w[0], K[1] + t * w[1])
    c = (a[0] - s * r * u[1], a[1] + s * r * u[0])
    pts = [(x, y), a, b, (K[0] + L * w[0], K[1] + L * w[1])]
    box = path.bounding_box
    for i, side in ((0, box.x), (1, box.y)):
        lo = hi = pts[0][i]
        for p in pts[1:]:
            lo, hi = ctx.ite(p[i] < lo, p[i], lo), ctx.ite(p[i] > hi, p[i], hi)
        # the extremum of the circle is on the arc when the corner is beyond
        hi = ctx.ite(ctx.and_(K[i] - c[i] > r, c[i] + r > hi), c[i] + r, hi)
        lo = ctx.ite(ctx.and_(c[i] - K[i] > r, c[i] - r < lo), c[i] - r, lo)
        ctx.eq([side.inf, side.sup], [lo, hi], 'xy'[i])
