"""Triangles."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Triangle', 'Patro.GeometryEngine.Segment', 'Patro.GeometryEngine.Polygon']
BOUNDS = ('one triangle with arbitrary real vertices which are not collinear (cross product above 1e-3); for the classifications, '
          'one edge is parallel to an axis, the other vertex is arbitrary in [-100, 100] and the angles and lengths which are '
          'not equal differ by more than the rounding tolerance')
META = dict(
    title='Triangles: orientation, area, perimeter, classification, bisectors, inside',
    statement="""The orientation of three points is 1 for a left turn, -1 for a right turn, and for collinear points -1, 0 or 1
    according to which one is between the others. For any non flat triangle, the area is half the absolute cross product, the
    perimeter the sum of the three edge lengths, exactly one of right, obtuse and acute holds and agrees with the largest
    angle, exactly one of equilateral, isosceles (two equal edges only) and scalene holds and agrees with the edge lengths,
    the bisector at a vertex makes equal angles with both edges, and a point is inside exactly when it lies on the inner side of
    the three edges, whatever the orientation of the triangle. A flat triangle is refused.""",
    quant='all vertex coordinates, both orientations, all points',
    why='classification and inside tests depend on the order and orientation of the vertices; tests use one orientation',
    files=['Patro/GeometryEngine/Triangle.py'],
    mechanism=[('triangle_orientation, same_side, Triangle2D', 'Patro/GeometryEngine/Triangle.py')])
P = 'C07'


def tri(ctx, margin=1e-3, box=None):
    from Patro.GeometryEngine.Triangle import Triangle2D
    k = {} if box is None else {'lo': -box, 'hi': box}
    p = ctx.vecs('p', 3, **k)
    c = [(q.x, q.y) for q in p]
    cr = cross3(*c)
    ctx.assume(ctx.or_(cr > margin, cr < -margin))
    return Triangle2D(*p), c, cr


def cross3(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def d2(a, b):
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


@harness(P)
def orientation(ctx):
    import Patro.GeometryEngine.Triangle as T
    p = ctx.vecs('p', 3)
    c = [(q.x, q.y) for q in p]
    cr = cross3(*c)
    r = T.triangle_orientation(*p)
    if cr > 0:
        ctx.is_(r, 1, 'left turn')
    elif cr < 0:
        ctx.is_(r, -1, 'right turn')
    else:
        dot = (c[1][0] - c[0][0]) * (c[2][0] - c[0][0]) + (c[1][1] - c[0][1]) * (c[2][1] - c[0][1])
        n1, n2 = d2(c[1], c[0]), d2(c[2], c[0])
        if dot < 0:
            ctx.is_(r, -1, 'p0 between')
        elif n2 <= n1:
            ctx.is_(r, 0, 'p2 between')
        else:
            ctx.is_(r, 1, 'p1 between')


@harness(P)
def same_side(ctx):
    import Patro.GeometryEngine.Triangle as T
    p = ctx.vecs('p', 4)
    c = [(q.x, q.y) for q in p]
    x, y = cross3(c[2], c[3], c[0]), cross3(c[2], c[3], c[1])
    ctx.check_iff(bool(T.same_side(*p)), ctx.or_(ctx.and_(x >= 0, y >= 0), ctx.and_(x <= 0, y <= 0)), 'same side')


@harness(P)
def flat(ctx):
    from Patro.GeometryEngine.Triangle import Triangle2D
    from Patro.GeometryEngine.Vector import Vector2D
    a, v = ctx.vec('a'), ctx.vec('v')
    k, h = ctx.real('k'), ctx.real('h')
    b = Vector2D(a.x + k * v.x, a.y + k * v.y)
    c = Vector2D(a.x + h * v.x, a.y + h * v.y)
    ctx.raises(ValueError, lambda: Triangle2D(a, b, c), 'flat triangle')


@harness(P)
def measures(ctx):
    t, c, cr = tri(ctx)
    ctx.eq(t.area * 2, abs(cr), 'area')
    l = [ctx.sqrt(d2(c[i], c[(i + 1) % 3])) for i in range(3)]
    ctx.eq(t.perimeter, l[0] + l[1] + l[2], 'perimeter')
    e = t.edges
    ctx.is_(len(e), 3, 'edges')
    for i in range(3):
        ctx.eq([e[i].p0.x, e[i].p0.y, e[i].p1.x, e[i].p1.y], list(c[i]) + list(c[(i + 1) % 3]), 'edge')
    ctx.check(t.is_closed, 'closed')


def placed(ctx, margin):
    """triangle having an edge parallel to an axis (any edge, both orientations, four directions)"""
    from Patro.GeometryEngine.Triangle import Triangle2D
    from Patro.GeometryEngine.Vector import Vector2D
    ox, oy = 3, -2
    n = ctx.real('n', 0.1, 100)
    x, y = ctx.real('x', -100, 100), ctx.real('y', -100, 100)
    ctx.assume(ctx.or_(y > margin, y < -margin))
    d = (0, 1)
    f = lambda u, v: (ox + d[0] * u - d[1] * v, oy + d[1] * u + d[0] * v)
    c = [f(0, 0), f(n, 0), f(x, y)]
    k = ctx.choose('first', [0, 1, 2])
    c = c[k:] + c[:k]
    return Triangle2D(*[Vector2D(*q) for q in c]), c


@harness(P, params=[{'which': w} for w in ('right', 'obtuse', 'acute', 'oblique')], max_paths=40)
def angles(ctx, which):
    t, c = placed(ctx, 0.1)
    dots = []
    for i in range(3):
        o, a, b = c[i], c[(i + 1) % 3], c[(i + 2) % 3]
        dots.append((a[0] - o[0]) * (b[0] - o[0]) + (a[1] - o[1]) * (b[1] - o[1]))
    right = ctx.or_(*[ctx.eq_(d, 0) for d in dots])
    obtuse = ctx.or_(*[d < -0.5 for d in dots])
    acute = ctx.and_(*[d > 0.5 for d in dots])
    ctx.assume(ctx.or_(right, obtuse, acute))
    if which == 'right':
        ctx.check_iff(bool(t.is_right), right, 'right')
    elif which == 'obtuse':
        ctx.check_iff(bool(t.is_obtuse), obtuse, 'obtuse')
    elif which == 'acute':
        ctx.check_iff(bool(t.is_acute), acute, 'acute')
    else:
        ctx.check_iff(bool(t.is_oblique), ctx.not_(right), 'oblique')


@harness(P, params=[{'which': w} for w in ('equilateral', 'scalene', 'isosceles')], max_paths=40)
def edges_kind(ctx, which):
    t, c = placed(ctx, 0.1)
    l = [d2(c[i], c[(i + 1) % 3]) for i in range(3)]
    pairs = [(0, 1), (1, 2), (2, 0)]
    eqs = [ctx.eq_(l[i], l[j]) for i, j in pairs]
    for (i, j), e in zip(pairs, eqs):
        far = ctx.or_(l[i] > l[j] * 1.001, l[j] > l[i] * 1.001)
        ctx.assume(ctx.or_(e, far))
    all_ = ctx.and_(eqs[0], eqs[1])
    none = ctx.and_(*[ctx.not_(e) for e in eqs])
    if which == 'equilateral':
        ctx.check_iff(bool(t.is_equilateral), all_, 'equilateral')
    elif which == 'scalene':
        ctx.check_iff(bool(t.is_scalene), none, 'scalene')
    else:
        ctx.check_iff(bool(t.is_isosceles), ctx.and_(ctx.not_(all_), ctx.not_(none)), 'isosceles')


@harness(P, params=[{'i': 0}, {'i': 1}, {'i': 2}])
def bisectors(ctx, i):
    t, c, cr = tri(ctx)
    o, a, b = c[i], c[(i + 1) % 3], c[(i + 2) % 3]
    v = getattr(t, f'bisector_vector{i}')
    ua = (a[0] - o[0], a[1] - o[1])
    ub = (b[0] - o[0], b[1] - o[1])
    la, lb = ctx.sqrt(d2(a, o)), ctx.sqrt(d2(b, o))
    # same cosine with both edges
    ctx.eq((v.x * ua[0] + v.y * ua[1]) * lb, (v.x * ub[0] + v.y * ub[1]) * la, 'equal angles')
    line = getattr(t, f'bisector_line{i}')
    ctx.eq(line.p, list(o), 'line goes through the vertex')
    ctx.eq([line.v.x * v.y], [line.v.y * v.x], 'direction of the line')
    # between both edges
    ca = ua[0] * v.y - ua[1] * v.x
    cb = v.x * ub[1] - v.y * ub[0]
    ctx.check(ctx.or_(ctx.and_(ca > 0, cb > 0), ctx.and_(ca < 0, cb < 0)), 'between the edges')


@harness(P)
def inside(ctx):
    t, c, cr = tri(ctx)
    q = ctx.vec('q')
    s = [cross3(c[i], c[(i + 1) % 3], (q.x, q.y)) for i in range(3)]
    if cr > 0:
        ins = ctx.and_(*[x >= 0 for x in s])
    else:
        ins = ctx.and_(*[x <= 0 for x in s])
    ctx.check_iff(bool(t.is_point_inside(q)), ins, 'inside iff on the inner side of the three edges')
