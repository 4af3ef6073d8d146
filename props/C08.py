"""Polygons, regular polygons and rectangles."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Polygon', 'Patro.GeometryEngine.Rectangle', 'Patro.GeometryEngine.Polyline']
BOUNDS = ('polygons of 3 to 5 vertices: area and barycenter for arbitrary convex quadrilaterals (both orientations), concave '
          'quadrilaterals and convex pentagons with two vertices on the x axis; point inclusion for arbitrary triangles and '
          'quadrilaterals (convex and concave); simplicity for quadrilaterals with one edge on the x axis; regular polygons of '
          '3 to 12 edges at any angle; rectangles with arbitrary corners')
BOUNDS += '; also a star of twelve vertices'
META = dict(
    title='Polygons and rectangles: area, barycenter, orientation, convexity, inclusion',
    statement="""For a simple polygon with vertices in any orientation: the area is the absolute value of the shoelace sum, the
    barycenter is the area centroid, clockwise holds exactly when the signed area is negative, a polygon is reported simple
    exactly when no two edges meet elsewhere than at their common vertex, and convex exactly when all turns have the same
    sense. A point strictly inside is inside, a point strictly outside is outside, for convex and concave polygons of any
    orientation. Perimeter, edges, point barycenter and recentering are consistent with the vertices. Regular polygons have
    their vertices at the radius and angles requested, and their centre, radius and angle are the ones of their vertices once cloned, reversed, moved, mirrored or scaled. Rectangles built from any two opposite corners (or a point and offset or
    half size) have four right corners, positive area and perimeter, and contain exactly the points between their sides.""",
    quant='all vertex coordinates, both orientations, convex and concave shapes, all points',
    why='orientation, concavity and vertex-level crossing cases are not covered by a few literal polygons',
    files=['Patro/GeometryEngine/Polygon.py', 'Patro/GeometryEngine/Rectangle.py', 'Patro/GeometryEngine/Primitive.py'],
    mechanism=[('area, barycenter, simplicity, winding number', 'Patro/GeometryEngine/Polygon.py'),
               ('Rectangle2D', 'Patro/GeometryEngine/Rectangle.py')])
P = 'C08'


def cross3(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def polygon(c, **k):
    from Patro.GeometryEngine.Polygon import Polygon2D
    from Patro.GeometryEngine.Vector import Vector2D
    return Polygon2D(*[Vector2D(*p) for p in c], **k)


def shape(ctx, kind):
    """counterclockwise simple polygon whose first edge is on the x axis"""
    r = lambda n: ctx.real(n, -100, 100)
    m = 0.01
    n = ctx.real('n', 0.1, 100)
    c = [(0, 0), (n, 0)]
    if kind == 'triangle':
        c += [(r('x2'), r('y2'))]
        ctx.assume(c[2][1] > m)
    elif kind == 'convex4':
        c += [(r('x2'), r('y2')), (r('x3'), r('y3'))]
        for i in range(4):
            ctx.assume(cross3(c[i], c[(i + 1) % 4], c[(i + 2) % 4]) > m)
    elif kind == 'concave4':
        # vertex 3 is inside the triangle of the others
        c += [(r('x2'), r('y2')), (r('x3'), r('y3'))]
        for i in range(3):
            ctx.assume(cross3(c[i], c[(i + 1) % 3], c[3]) > m)
    elif kind == 'convex5':
        c += [(r('x2'), r('y2')), (r('x3'), r('y3')), (r('x4'), r('y4'))]
        for i in range(5):
            for j in (2, 3, 4):
                ctx.assume(cross3(c[i], c[(i + 1) % 5], c[(i + j) % 5]) > m)
    return c


def placed(ctx, c):
    """translate, start at any vertex, choose the orientation -> vertices, clockwise"""
    ox, oy = ctx.real('ox', -100, 100), ctx.real('oy', -100, 100)
    c = [(x + ox, y + oy) for x, y in c]
    cw = ctx.choose('clockwise', [False, True])
    if cw:
        c = c[::-1]
    k = ctx.choose('first', [0, 2])
    return c[k:] + c[:k], cw


def shoelace(c):
    a = 0
    for (x, y), (u, v) in zip(c, c[1:] + c[:1]):
        a = a + x * v - u * y
    return a


@harness(P, params=[{'kind': k} for k in ('triangle', 'convex4', 'concave4', 'convex5')])
def area(ctx, kind):
    c, cw = placed(ctx, shape(ctx, kind))
    p = polygon(c)
    s = shoelace(c)
    ctx.eq(p.area * 2, -s if cw else s, 'area')
    ctx.is_(bool(p.is_clockwise), cw, 'clockwise')
    ctx.is_(bool(p.is_counterclockwise), not cw, 'counterclockwise')
    ctx.check(p.is_simple, 'simple')
    bx = by = 0
    for (x, y), (u, v) in zip(c, c[1:] + c[:1]):
        w = x * v - u * y
        bx = bx + (x + u) * w
        by = by + (y + v) * w
    b = p.barycenter
    ctx.eq(b.x * 3 * s, bx, 'barycenter x')
    ctx.eq(b.y * 3 * s, by, 'barycenter y')


@harness(P, params=[{'kind': k} for k in ('triangle', 'convex4', 'concave4', 'convex5')])
def convexity(ctx, kind):
    c, cw = placed(ctx, shape(ctx, kind))
    p = polygon(c)
    ctx.is_(bool(p.is_convex), kind != 'concave4', 'convex')
    ctx.is_(bool(p.is_concave), kind == 'concave4', 'concave')


@harness(P)
def measures(ctx):
    from Patro.GeometryEngine.Vector import Vector2D
    v = ctx.vecs('p', 4)
    c = [(q.x, q.y) for q in v]
    p = polygon(c)
    ls = [ctx.sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])) for a, b in zip(c, c[1:] + c[:1])]
    ctx.eq(p.perimeter, ls[0] + ls[1] + ls[2] + ls[3], 'perimeter')
    ctx.eq(p.point_barycenter * 4, [sum(q[0] for q in c), sum(q[1] for q in c)], 'barycenter of the vertices')
    ctx.is_(p.number_of_edges, 4, 'number of edges')
    ctx.is_(len(list(p.edges)), 4, 'edges')
    ctx.eq([[q.x, q.y] for q in p.points], [list(q) for q in c], 'vertices unchanged')
    ctx.check(p.is_closed, 'closed')
    ctx.check(not p.is_triangle, 'not a triangle')
    ctx.raises(ValueError, p.to_triangle, 'not a triangle')
    ctx.raises(ValueError, lambda: polygon(c[:2]), 'less than 3 vertices')


@harness(P, params=[{'kind': 'convex4'}, {'kind': 'triangle'}])
def recenter(ctx, kind):
    c, cw = placed(ctx, shape(ctx, kind))
    p = polygon(c)
    b = p.barycenter
    bx, by = b.x, b.y
    p.recenter()
    ctx.eq([[q.x, q.y] for q in p.points], [[x - bx, y - by] for x, y in c], 'translated vertices')


@harness(P, params=[{'kind': k} for k in ('triangle', 'convex4', 'concave4')])
def inside(ctx, kind):
    """strictly inside / outside, the first edge has any direction"""
    m = 0
    v = ctx.vecs('p', 3 if kind == 'triangle' else 4)
    c = [(q.x, q.y) for q in v]
    n = len(c)
    if kind == 'concave4':
        for i in range(3):
            ctx.assume(cross3(c[i], c[(i + 1) % 3], c[3]) > m)
    else:
        for i in range(n):
            ctx.assume(cross3(c[i], c[(i + 1) % n], c[(i + 2) % n]) > m)
    q = ctx.vec('q')
    qq = (q.x, q.y)
    side = [cross3(c[i], c[(i + 1) % n], qq) for i in range(n)]
    if kind == 'concave4':
        # union of the triangles (0, 1, 3) and (1, 2, 3) glued at 1-3
        g = cross3(c[1], c[3], qq)
        ins = ctx.or_(ctx.and_(side[0] > 0, side[3] > 0, g >= 0), ctx.and_(side[1] > 0, side[2] > 0, g <= 0))
        out = ctx.and_(ctx.or_(side[0] < 0, side[3] < 0, g < 0), ctx.or_(side[1] < 0, side[2] < 0, g > 0))
    else:
        ins = ctx.and_(*[x > 0 for x in side])
        out = ctx.or_(*[x < 0 for x in side])
    if ctx.choose('clockwise', [False, True]):
        c = c[::-1]
    r = polygon(c).is_point_inside(q)
    ctx.check(ctx.implies(ins, r), 'inside')
    ctx.check(ctx.implies(out, ctx.not_(r)), 'outside')


@harness(P)
def simple(ctx):
    """quadrilateral with one edge on the x axis: simple iff opposite edges are disjoint and neighbours do not fold back"""
    n = ctx.real('n', 0.1, 100)
    c = [(0, 0), (n, 0), (ctx.real('x2', -100, 100), ctx.real('y2', -100, 100)), (ctx.real('x3', -100, 100), ctx.real('y3', -100, 100))]
    # general position: no three vertices are collinear
    cr = {}
    for t in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
        cr[t] = cross3(*[c[i] for i in t])
        ctx.assume(ctx.or_(cr[t] > 0.01, cr[t] < -0.01))
    k = ctx.choose('first', [0, 1])
    opp = lambda a, b: ctx.or_(ctx.and_(a > 0, b < 0), ctx.and_(a < 0, b > 0))
    x01_23 = ctx.and_(opp(cr[0, 1, 2], cr[0, 1, 3]), opp(cr[0, 2, 3], cr[1, 2, 3]))     # edge 01 crosses edge 23
    x12_30 = ctx.and_(opp(cross3(c[1], c[2], c[3]), cross3(c[1], c[2], c[0])), opp(cross3(c[3], c[0], c[1]), cross3(c[3], c[0], c[2])))
    p = polygon(c[k:] + c[:k])
    ctx.check_iff(bool(p.is_simple), ctx.not_(ctx.or_(x01_23, x12_30)), 'simple')


@harness(P)
def touching(ctx):
    """a vertex on a non adjacent edge, or an edge folded back on its neighbour, is not simple"""
    n, h = ctx.real('n', 0.1, 100), ctx.real('h', 0.1, 100)
    how = ctx.choose('how', ['vertex', 'fold', 'flat'])
    if how == 'flat':
        f = ctx.real('f', 0.1, 0.9)
        c = [(0, 0), (n, h), (f * n, f * h)]
        k = ctx.choose('first', [0, 1, 2])
        c = c[k:] + c[:k]
        ctx.check(not polygon(c).is_simple, 'not simple')
        return
    if how == 'vertex':
        t = ctx.frac(1, 2)
        c = [(0, 0), (n, 0), (n * 2, h), (n * t, 0), (-n, h)]
    else:
        c = [(0, 0), (n, 0), (n * ctx.frac(1, 2), 0), (0, h)]
    k = ctx.choose('first', [0, 1, 2, 3])
    c = c[k:] + c[:k]
    ctx.check(not polygon(c).is_simple, 'not simple')


@harness(P, params=[{'n': n} for n in (3, 4, 5, 6, 8, 12)])
def regular(ctx, n):
    from Patro.GeometryEngine.Polygon import RegularPolygon
    o = ctx.vec('o')
    ox, oy = o.x, o.y
    r = ctx.real('r', 0.1, 1000)
    form = ctx.choose('form', ['angle', 'default'])
    a = ctx.angle('a', -360, 360) if form == 'angle' else 0
    p = RegularPolygon(o, r, n, a) if form == 'angle' else RegularPolygon(o, r, n)
    ctx.is_(p.number_of_points, n, 'number of points')
    ctx.is_(p.number_of_edges, n, 'number of edges')
    ctx.eq(p.edge_angle * n, 360, 'edge angle')
    ctx.eq(p.center, [ox, oy], 'center')
    ctx.eq(p.radius, r, 'radius')
    ctx.eq(p.angle, a, 'angle')
    pts = list(p.points)
    for i in range(n):
        c, s = ctx.deg_cs(a + ctx.frac(360 * i, n))
        ctx.eq(pts[i], [ox + r * c, oy + r * s], 'vertex')
    k = p.circumcircle
    ctx.eq([k.center.x, k.center.y, k.radius], [ox, oy, r], 'circumcircle')
    ctx.raises(ValueError, lambda: RegularPolygon(o, r, 2), 'less than 3 edges')
    ctx.is_(p.str_name, {3: 'triangle', 4: 'quadrilateral', 5: 'pentagon', 6: 'hexagon', 8: 'octagon', 12: 'dodecagon'}[n], 'name')


@harness(P)
def rectangle(ctx):
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    form = ctx.choose('form', ['corners', 'offset', 'radius'])
    a, b = ctx.vec('a'), ctx.vec('b')
    ax, ay, bx, by = a.x, a.y, b.x, b.y
    if form == 'corners':
        r = Rectangle2D(a, b)
        x0, y0, x1, y1 = ax, ay, bx, by
    elif form == 'offset':
        r = Rectangle2D.from_point_and_offset(a, b)
        x0, y0, x1, y1 = ax, ay, ax + bx, ay + by
    else:
        r = Rectangle2D.from_point_and_radius(a, b)
        x0, y0, x1, y1 = ax - bx, ay - by, ax + bx, ay + by
    ctx.eq([r.p0.x, r.p0.y, r.p1.x, r.p1.y], [x0, y0, x1, y1], 'opposite corners')
    ctx.eq(r.p01, [x0, y1], 'corner 01')
    ctx.eq(r.p10, [x1, y0], 'corner 10')
    ctx.eq(r.diagonal, [x1 - x0, y1 - y0], 'diagonal')
    w, h = abs(x1 - x0), abs(y1 - y0)
    ctx.eq(r.area, w * h, 'area')
    ctx.eq(r.perimeter, 2 * w + 2 * h, 'perimeter')
    ctx.is_(len(list(r.edges)), 4, 'edges')
    ctx.check(r.is_closed, 'closed')
    ctx.eq([a.x, a.y, b.x, b.y], [ax, ay, bx, by], 'arguments unchanged')


@harness(P)
def rectangle_inside(ctx):
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    a, b, q = ctx.vec('a'), ctx.vec('b'), ctx.vec('q')
    r = Rectangle2D(a, b)
    btw = lambda u, v, w: ctx.or_(ctx.and_(ctx.le_(u, w), ctx.le_(w, v)), ctx.and_(ctx.le_(v, w), ctx.le_(w, u)))
    ctx.check_iff(r.is_point_inside(q), ctx.and_(btw(a.x, b.x, q.x), btw(a.y, b.y, q.y)), 'inside')


STAR = [(10, 0), (4, 2), (6, 8), (1, 4), (-5, 9), (-3, 2), (-10, 1), (-4, -2), (-6, -9), (0, -4), (5, -8), (4, -2)]


@harness(P, budget=60)
def star(ctx):
    """twelve vertices"""
    t = ctx.real('t', 0, 2)
    c = [(x + (t if i == 0 else 0), y) for i, (x, y) in enumerate(STAR)]
    cw = ctx.choose('clockwise', [False, True])
    if cw:
        c = c[::-1]
    k = ctx.choose('first', [0, 5, 11])
    c = c[k:] + c[:k]
    p = polygon(c)
    s = shoelace(c)
    ctx.eq(p.area * 2, -s if cw else s, 'area')
    ctx.check(p.is_clockwise is cw or p.is_clockwise == cw, 'clockwise')
    ctx.check(p.is_simple and not p.is_convex, 'simple and concave')
    bx = by = 0
    for (x, y), (u, v) in zip(c, c[1:] + c[:1]):
        bx, by = bx + (x + u) * (x * v - u * y), by + (y + v) * (x * v - u * y)
    g = p.barycenter
    ctx.eq([g.x * s * 3, g.y * s * 3], [bx, by], 'barycenter')
    from Patro.GeometryEngine.Vector import Vector2D
    for q, inside in (((-3, 3), True), ((0, 0), True), ((4, 0), True), ((9, 0), True), ((3, 6), False), ((8, 5), False), ((-8, 4), False), ((-6, -4), False), ((0, -6), False), ((4, 5), True), ((-5, -7), True), ((12.5, 0), False)):
        ctx.check(bool(p.is_point_inside(Vector2D(*q))) == inside, 'inclusion')
    v = [[q.x, q.y] for q in p.points]
    ctx.eq(v, [list(q) for q in c], 'unchanged')


@harness(P, params=[{'how': h} for h in ('clone', 'reverse', 'transform', 'mirror', 'recenter', 'scale')])
def regular_modified(ctx, how):
    """a regular polygon cloned, reversed, transformed"""
    from Patro.GeometryEngine.Polygon import RegularPolygon
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    o, r = ctx.vec('o', lo=-10, hi=10), ctx.real('r', 0.1, 10)
    n = ctx.choose('n', [3, 4, 6])
    a = 90 if n == 3 else 0
    p = RegularPolygon(o, r, n, a)
    pts = [[q.x, q.y] for q in p.points]
    x, y = o.x, o.y
    if ctx.choose('asked', [False, True]):
        p.circumcircle, p.perimeter, p.point_barycenter
    if how == 'clone':
        first = ctx.choose('first', ['none', 'mirror', 'reverse'])
        if first == 'mirror':
            p.x_mirror(clone=False)
            pts, x = [[-u, v] for u, v in pts], -x
        elif first == 'reverse':
            p = p.reverse()
            pts = pts[::-1]
        q, f, k, b = p.clone(), lambda u, v: [u, v], 1, a
        p._points[0].x = p._points[0].x + 1
    elif how == 'reverse':
        q, f, k = p.reverse(), lambda u, v: [u, v], 1
    elif how == 'transform':
        dx, dy = ctx.real('dx', -10, 10), ctx.real('dy', -10, 10)
        t = AffineTransformation2D([0, -2, dx, 2, 0, dy, 0, 0, 1])
        q, f, k = p.transform(t, clone=ctx.choose('clone', [False, True])), lambda u, v: [-2 * v + dx, 2 * u + dy], 2
    elif how == 'mirror':
        q, f, k = p.x_mirror(clone=ctx.choose('clone', [False, True])), lambda u, v: [-u, v], 1
    elif how == 'scale':
        k = ctx.real('k', 0.1, 4)
        q, f = p.scale(k, clone=ctx.choose('clone', [False, True])), lambda u, v: [k * u, k * v]
    else:
        p.recenter()
        q, f, k = p, lambda u, v: [u - x, v - y], 1
    img = [f(*c) for c in (pts[::-1] if how == 'reverse' else pts)]
    ctx.check(type(q) is RegularPolygon, 'class')
    ctx.eq([[c.x, c.y] for c in q.points], img, 'vertices')
    ctx.eq(q.center, f(x, y), 'centre')
    ctx.eq(q.radius, k * r, 'radius')
    ctx.is_((q.number_of_edges, q.number_of_points), (n, n), 'number of edges')
    c, s = ctx.deg_cs(q.angle)
    ctx.eq([k * r * c, k * r * s], [img[0][0] - f(x, y)[0], img[0][1] - f(x, y)[1]], 'angle of the first vertex')
    g = q.circumcircle
    ctx.eq([g.center.x, g.center.y, g.radius], f(x, y) + [k * r], 'circumcircle')
