"""Point primitives: clone, transform, reverse, point lists."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.' + m for m in ('Segment', 'Triangle', 'Rectangle', 'Polyline', 'Polygon', 'Bezier', 'Spline', 'Transformation')]
BOUNDS = ('one primitive of each class with arbitrary real points (polylines and polygons of 4 points, B-splines of 5 points '
          'and degree 2), arbitrary affine matrix, angle in [-360, 360], scale factors; every query repeated after a modification '
          'by an offset or a factor in [1, 2] of a primitive of given points')
META = dict(
    title='Clone, transform, mirror, reverse and point lists of every point primitive',
    statement="""For every primitive defined by points (segment, triangle, rectangle, polyline, polygon, Bézier and spline
    curves), a clone has equal defining points and is independent of its source, and transform, mirror, x_mirror, y_mirror,
    rotate and scale map every defining point by the corresponding transformation, in place or on a clone that leaves the
    source unchanged. Reversing inverts the order of the points and never changes the source. Point count, start and end
    points, point array, closed sequences of points and equality always reflect the current points, and quantities computed
    before a transformation (edges, length, perimeter, area) are recomputed after it.""",
    quant='all points, all transformation matrices, each class of primitive, in place and cloned',
    why='tests clone and transform one or two literal shapes; aliasing and stale caches only show after a mutation',
    files=['Patro/GeometryEngine/Primitive.py', 'Patro/GeometryEngine/Polygon.py', 'Patro/GeometryEngine/Polyline.py',
           'Patro/Common/IterTools.py'],
    mechanism=[('point accessors, clone, transform', 'Patro/GeometryEngine/Primitive.py'),
               ('cache reset in _set_points', 'Patro/GeometryEngine/Polygon.py')])
P = 'C04'

KINDS = ['segment', 'triangle', 'rectangle', 'polyline', 'polygon', 'quadratic', 'cubic', 'quadratic_spline', 'cubic_spline', 'bspline']
CLOSED = ('triangle', 'rectangle', 'polygon')
REVERSIBLE = KINDS


def make(ctx, kind, tag='p', pts=None):
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Triangle import Triangle2D
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    from Patro.GeometryEngine.Polyline import Polyline2D
    from Patro.GeometryEngine.Polygon import Polygon2D
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Spline import QuadraticUniformSpline2D, CubicUniformSpline2D, BSpline2D
    n = {'segment': 2, 'rectangle': 2, 'triangle': 3, 'quadratic': 3, 'quadratic_spline': 3, 'bspline': 5}.get(kind, 4)
    if pts is None:
        pts = ctx.vecs(tag, n)
        if kind == 'triangle':
            cr = (pts[1].x - pts[0].x) * (pts[2].y - pts[0].y) - (pts[1].y - pts[0].y) * (pts[2].x - pts[0].x)
            ctx.assume(ctx.or_(cr > 0.01, cr < -0.01))
    if kind == 'bspline':
        return BSpline2D(pts, 2), pts
    cls = {'segment': Segment2D, 'triangle': Triangle2D, 'rectangle': Rectangle2D, 'polyline': Polyline2D,
           'polygon': Polygon2D, 'quadratic': QuadraticBezier2D, 'cubic': CubicBezier2D,
           'quadratic_spline': QuadraticUniformSpline2D, 'cubic_spline': CubicUniformSpline2D}[kind]
    return cls(*pts), pts


def coords(pts):
    return [[p.x, p.y] for p in pts]


K = [{'kind': k} for k in KINDS]


@harness(P, params=K)
def points(ctx, kind):
    obj, pts = make(ctx, kind)
    c = coords(pts)
    n = len(c)
    ctx.eq(coords(obj.points), c, 'points')
    ctx.is_(obj.number_of_points, n, 'number of points')
    ctx.is_(len(obj), n, 'len')
    ctx.is_(obj.dimension, 2, 'dimension')
    ctx.is_(bool(obj.is_closed), kind in CLOSED, 'is closed')
    ctx.is_(bool(obj.is_infinite), False, 'is infinite')
    ctx.is_(bool(obj.is_reversible), True, 'is reversible')
    ctx.eq(obj.start_point, c[0], 'start point')
    ctx.eq(obj.end_point, c[-1], 'end point')
    a = obj.point_array
    ctx.is_(tuple(a.shape), (2, n), 'shape of the point array')
    for i in range(n):
        ctx.eq([a[0, i], a[1, i]], c[i], 'point array')
    # the primitive owns its points
    pts[0].x = pts[0].x + 1
    ctx.eq(coords(obj.points), c, 'points are not aliases of the arguments')
    if kind not in ('segment', 'rectangle'):
        ctx.eq(coords(obj.iter_from_second_point()), c[1:], 'points after the first one')


@harness(P, params=K)
def clone(ctx, kind):
    obj, pts = make(ctx, kind)
    c = coords(pts)
    o = obj.clone()
    ctx.check(type(o) is type(obj), 'same class')
    ctx.check(o is not obj, 'new object')
    ctx.eq(coords(o.points), c, 'points of the clone')
    ctx.check(o == obj, 'equal to the source')
    for p in o.points:
        p.x = p.x + 1
    ctx.eq(coords(obj.points), c, 'source is independent of the clone')
    if kind == 'bspline':
        ctx.is_(o.degree, 2, 'degree')
        ctx.is_(list(o.knots), list(obj.knots), 'knots')


@harness(P, params=[{'kind': k} for k in ('segment', 'rectangle', 'quadratic_spline')])
def equality(ctx, kind):
    """two arbitrary primitives"""
    obj, pts = make(ctx, kind)
    other, pts2 = make(ctx, kind, 'q')
    same = ctx.and_(*[a == b for p, q in zip(coords(pts), coords(pts2)) for a, b in zip(p, q)])
    r = ctx.and_(obj == other)
    ctx.check(ctx.implies(r, same), 'equal only if every point is')
    ctx.check(obj.is_point_close(obj.clone()), 'close to its clone')


@harness(P, params=K)
def one_coordinate(ctx, kind):
    """primitives which differ by one coordinate"""
    from Patro.GeometryEngine.Vector import Vector2D
    n = {'segment': 2, 'rectangle': 2, 'triangle': 3, 'quadratic': 3, 'quadratic_spline': 3, 'bspline': 5}.get(kind, 4)
    c = [list(p) for p in ((1, -2), (7, 3), (-4, 11), (-9, -5), (2, -13))[:n]]
    i = ctx.choose('coordinate', list(range(2 * n)))
    old, d = ctx.real('v', -2, 2), ctx.real('d', -2, 2)
    c[i // 2][i % 2] = c[i // 2][i % 2] + old
    obj, _ = make(ctx, kind, pts=[Vector2D(*p) for p in c])
    c[i // 2][i % 2] = c[i // 2][i % 2] + d
    old = c[i // 2][i % 2]
    other, _ = make(ctx, kind, pts=[Vector2D(*p) for p in c])
    ctx.check_iff(ctx.and_(obj == other), d == 0, 'equal iff the coordinate is')
    if abs(d) > 0.001 + 0.001 * abs(old):
        ctx.check(not obj.is_point_close(other), 'points are not close')
    ctx.check(obj.is_point_close(obj.clone()), 'close to its clone')


@harness(P, params=[{'kind': k} for k in ('polyline', 'polygon', 'segment', 'triangle')])
def more_points(ctx, kind):
    """primitives of which one starts with the points of the other are not equal"""
    from Patro.GeometryEngine.Vector import Vector2D
    p = [Vector2D(*c) for c in coords(ctx.vecs('p', 5))]
    if kind in ('segment', 'triangle'):
        from Patro.GeometryEngine.Segment import Segment2D
        from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
        a, b = (Segment2D(*p[:2]), QuadraticBezier2D(*p[:3])) if kind == 'segment' else (QuadraticBezier2D(*p[:3]), CubicBezier2D(*p[:4]))
    else:
        from Patro.GeometryEngine.Polyline import Polyline2D
        from Patro.GeometryEngine.Polygon import Polygon2D
        cls = Polyline2D if kind == 'polyline' else Polygon2D
        a, b = cls(*p[:4]), cls(*p)
    ctx.check(not (a == b), 'more points')
    ctx.check(not (b == a), 'less points')


@harness(P, params=K)
def transform(ctx, kind):
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    obj, pts = make(ctx, kind)
    c = coords(pts)
    m = [ctx.real(f'm{i}') for i in range(6)]
    t = AffineTransformation2D(m + [0, 0, 1])
    img = [[m[0] * x + m[1] * y + m[2], m[3] * x + m[4] * y + m[5]] for x, y in c]
    in_place = ctx.choose('how', ['clone', 'in place']) == 'in place'
    r = obj.transform(t) if in_place else obj.transform(t, clone=True)
    ctx.check(type(r) is type(obj), 'class')
    if in_place:
        ctx.check(r is obj, 'in place returns self')
    else:
        ctx.check(r is not obj, 'clone is a new object')
        ctx.eq(coords(obj.points), c, 'source unchanged')
    ctx.eq(coords(r.points), img, 'image of the points')
    ctx.eq([r.start_point.x, r.start_point.y], img[0], 'start point')
    ctx.is_(r.number_of_points, len(c), 'number of points')


@harness(P, params=K)
def named_transform(ctx, kind):
    obj, pts = make(ctx, kind)
    c = coords(pts)
    cl = ctx.choose('clone', [True, False])
    op = ctx.choose('op', ['mirror', 'x_mirror', 'y_mirror', 'rotate', 'scale', 'scale2'])
    if op == 'rotate':
        a = ctx.angle('a')
        cs, sn = ctx.deg_cs(a)
        r = obj.rotate(a, clone=cl)
        f = lambda x, y: [cs * x - sn * y, sn * x + cs * y]
    elif op == 'scale':
        k = ctx.real('k')
        r = obj.scale(k, clone=cl)
        f = lambda x, y: [k * x, k * y]
    elif op == 'scale2':
        k, h = ctx.real('k'), ctx.real('h')
        r = obj.scale(k, h, clone=cl)
        f = lambda x, y: [k * x, h * y]
    else:
        r = getattr(obj, op)(clone=cl)
        sx, sy = {'mirror': (-1, -1), 'x_mirror': (-1, 1), 'y_mirror': (1, -1)}[op]
        f = lambda x, y: [sx * x, sy * y]
    ctx.eq(coords(r.points), [f(*p) for p in c], 'image')
    if cl:
        ctx.eq(coords(obj.points), c, 'source unchanged')
    else:
        ctx.check(r is obj, 'in place')


@harness(P, params=K)
def reverse(ctx, kind):
    obj, pts = make(ctx, kind)
    c = coords(pts)
    ctx.eq(coords(obj.reversed_points), c[::-1], 'reversed points')
    r = obj.reverse()
    ctx.check(type(r) is type(obj), 'class')
    ctx.eq(coords(r.points), c[::-1], 'reversed')
    ctx.eq(r.start_point, c[-1], 'start of reversed')
    ctx.eq(r.end_point, c[0], 'end of reversed')
    ctx.eq(coords(r.reverse().points), c, 'twice reversed')
    for p in r.points:
        p.y = p.y + 1
    ctx.eq(coords(obj.points), c, 'source unchanged')


@harness(P, params=[{'kind': k} for k in CLOSED])
def closed(ctx, kind):
    obj, pts = make(ctx, kind)
    if kind == 'rectangle':
        (x0, y0), (x1, y1) = coords(pts)
        c = [[x0, y0], [x0, y1], [x1, y1], [x1, y0]]
    else:
        c = coords(pts)
    ctx.eq(coords(obj.closed_points), c + c[:1], 'closed points')
    pairs = [[p.x, p.y, q.x, q.y] for p, q in obj.closed_pairwise_points]
    ctx.eq(pairs, [p + q for p, q in zip(c, c[1:] + c[:1])], 'pairs of successive points')
    ctx.eq([[e.p0.x, e.p0.y, e.p1.x, e.p1.y] for e in obj.edges], [p + q for p, q in zip(c, c[1:] + c[:1])], 'edges')
    if kind != 'rectangle':
        a = obj.closed_point_array
        for i in range(len(c) + 1):
            ctx.eq([a[0, i], a[1, i]], c[i % len(c)], 'closed point array')
    path = obj.to_path()
    ctx.eq([path.p0.x, path.p0.y], c[0], 'path start')
    ctx.is_(bool(path.is_closed), True, 'path is closed')
    ctx.eq([[s.stop_point.x, s.stop_point.y] for s in path], c[1:] + c[:1], 'path stops')
    if kind != 'polygon':
        ctx.eq(coords(obj.to_polygon().points), c, 'to polygon')


@harness(P)
def nuplets(ctx):
    kind = ctx.choose('kind', ['polyline', 'polygon', 'bspline'])
    obj, pts = make(ctx, kind)
    c = coords(pts)
    n = ctx.choose('size', [1, 2, 3, len(c)])
    got = [coords(t) for t in obj.iter_on_nuplets(n)]
    ctx.eq(got, [c[i:i + n] for i in range(len(c) - n + 1)], 'nuplets')
    ctx.is_(len(got), len(c) - n + 1, 'number of nuplets')
    ctx.raises(ValueError, lambda: list(obj.iter_on_nuplets(len(c) + 1)), 'too large')
    ctx.eq(obj[1], c[1], 'item')
    ctx.eq(coords(obj[1:3]), c[1:3], 'slice')


@harness(P)
def caches(ctx):
    """derived quantities follow the points"""
    kind = ctx.choose('kind', ['polyline', 'polygon'])
    obj, pts = make(ctx, kind)
    ctx.assume(ctx.or_(pts[0].x != pts[1].x, pts[0].y != pts[1].y))
    e0 = list(obj.edges)[0]
    k = ctx.real('k', 2, 3)
    obj.scale(k)
    e1 = list(obj.edges)[0]
    ctx.eq([e1.p0.x, e1.p0.y, e1.p1.x, e1.p1.y], [k * pts[0].x, k * pts[0].y, k * pts[1].x, k * pts[1].y], 'edge after scale')
    ctx.eq([e0.p0.x, e0.p0.y], [pts[0].x, pts[0].y], 'edge before scale')


@harness(P)
def cached_area(ctx):
    """area, orientation and perimeter of a triangle polygon before and after a mirror and a scale"""
    from Patro.GeometryEngine.Polygon import Polygon2D
    pts = [[0, 0], [ctx.real('a', 0.5, 100), 0], [ctx.real('b'), ctx.real('h', 0.5, 100)]]
    from Patro.GeometryEngine.Vector import Vector2D
    poly = Polygon2D(*[Vector2D(*p) for p in pts])
    area = pts[1][0] * pts[2][1] / 2
    ctx.eq(poly.area, area, 'area')
    ctx.check(not poly.is_clockwise, 'counterclockwise')
    bx, by = (pts[1][0] + pts[2][0]) / 3, pts[2][1] / 3
    ctx.eq(poly.barycenter, [bx, by], 'barycenter')
    p0 = poly.perimeter
    k = ctx.real('k', 0.5, 4)
    op = ctx.choose('op', ['scale', 'x_mirror', 'recenter'])
    if op == 'scale':
        poly.scale(k)
        ctx.eq(poly.area, area * k * k, 'area after scale')
        ctx.eq(poly.perimeter, p0 * k, 'perimeter after scale')
        ctx.eq(poly.barycenter, [k * bx, k * by], 'barycenter after scale')
    elif op == 'x_mirror':
        poly.x_mirror()
        ctx.eq(poly.area, area, 'area after mirror')
        ctx.check(poly.is_clockwise, 'clockwise after mirror')
        ctx.eq(poly.barycenter, [-bx, by], 'barycenter after mirror')
    else:
        poly.recenter()
        ctx.eq(poly.barycenter, [0, 0], 'barycenter after recenter')
        ctx.eq(coords(poly.points), [[x - bx, y - by] for x, y in pts], 'points after recenter')


def values(x):
    """scalars of a result"""
    if x is None or isinstance(x, (str, bool, int, float)):
        return [x]
    if hasattr(x, 'inf'):
        return [x.inf, x.sup]
    if hasattr(x, '_v') or not hasattr(x, '__iter__') and not hasattr(x, 'points'):
        if hasattr(x, 'x') and hasattr(x.x, 'inf'):
            return values(x.x) + values(x.y)
        return [x.x, x.y] if hasattr(x, 'x') else [x]
    if hasattr(x, 'points'):
        return [c for p in x.points for c in (p.x, p.y)]
    return [v for i in x for v in values(i)]


MORE = {
    'segment': ['vector', 'length', 'center', 'cross_product'],
    'triangle': ['edges', 'perimeter', 'area', 'is_equilateral', 'is_scalene', 'is_isosceles', 'is_right', 'is_obtuse', 'is_acute'],
    'rectangle': ['edges', 'p01', 'p10', 'corners', 'diagonal', 'perimeter', 'area'],
    'polyline': ['edges', 'length'],
    'polygon': ['edges', 'number_of_edges', 'is_simple', 'is_convex', 'perimeter', 'point_barycenter', 'area', 'is_clockwise',
                'is_counterclockwise', 'barycenter'],
    'quadratic': ['tangent0', 'tangent1', 'normal0', 'normal1'],
    'cubic': ['tangent1', 'area'],
    'quadratic_spline': [], 'cubic_spline': [], 'bspline': ['knots', 'number_of_spans', 'is_closed'],
}


@harness(P, params=[{'kind': k, 'how': h} for k in KINDS for h in ('transform', 'in place', 'setter', 'copies')
                    if not (h == 'setter' and k in ('polyline', 'polygon', 'bspline'))], max_paths=300)
def ask_modify_ask(ctx, kind, how):
    """everything which can be asked to a primitive is asked, then the primitive is modified: the answers are the ones of a
    new primitive with the same points"""
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GeometryEngine.Vector import Vector2D
    n = {'segment': 2, 'rectangle': 2, 'triangle': 3, 'quadratic': 3, 'quadratic_spline': 3, 'bspline': 5}.get(kind, 4)
    c = [(0, 0), (4, 1), (5, 5), (1, 6), (-2, 2)][:n]
    d = ctx.real('d', 1, 2)

    def new(points):
        return make(ctx, kind, pts=[Vector2D(*p) for p in points])[0]

    def ask(obj):
        r = [('bounding box', values(obj.bounding_box)), ('start', values(obj.start_point)), ('end', values(obj.end_point)),
             ('points', values(obj.points)), ('reversed points', values(obj.reversed_points)), ('point array', list(obj.point_array.reshape(-1)))]
        r += [(a, values(getattr(obj, a))) for a in MORE[kind]]
        if kind in CLOSED:
            r += [(a, values(getattr(obj, a))) for a in ('closed_points', 'closed_pairwise_points')]
            r += [('inside', bool(obj.is_point_inside(Vector2D(2, 2))))]
        if hasattr(obj, 'point_at_t'):
            r += [('point at t', values(obj.point_at_t(0.25)))]
        if hasattr(obj, 'tangent_at'):
            r += [('tangent at t', values(obj.tangent_at(0.25))), ('split', values(obj.split_at_t(0.25)))]
        if hasattr(obj, 'to_bezier'):
            r += [('to bezier', values(obj.to_bezier()))]
        if hasattr(obj, 'to_path'):
            r += [('to path', [s.stop_point for s in obj.to_path()] and values([s.stop_point for s in obj.to_path()]))]
        if kind in ('segment', 'polyline'):
            r += [('distance', values(obj.distance_to_point(Vector2D(9, -7))))]
        return r

    obj = new(c)
    first = ask(obj)
    if how == 'transform':
        m = ctx.choose('matrix', [[-1, 0, 0, 1], [0, -1, 1, 0], [0, 1, 2, 0]])
        obj.transform(AffineTransformation2D([m[0], m[1], d, m[2], m[3], 2 * d, 0, 0, 1]))
        img = [(m[0] * x + m[1] * y + d, m[2] * x + m[3] * y + 2 * d) for x, y in c]
    elif how == 'in place':
        op = ctx.choose('op', ['scale', 'rotate', 'mirror', 'x_mirror', 'y_mirror'])
        getattr(obj, op)(*{'scale': [d], 'rotate': [90]}.get(op, []))
        f = {'scale': lambda x, y: (d * x, d * y), 'rotate': lambda x, y: (-y, x), 'mirror': lambda x, y: (-x, -y),
             'x_mirror': lambda x, y: (-x, y), 'y_mirror': lambda x, y: (x, -y)}[op]
        img = [f(x, y) for x, y in c]
    elif how == 'setter':
        i = ctx.choose('point', list(range(n)))
        img = list(c)
        img[i] = (c[i][0] + d, c[i][1] - d / 2)
        setattr(obj, f'p{i}', Vector2D(*img[i]))
    else:
        # the answers about a transformed copy, then the source again
        o = obj.scale(d, clone=True)
        for (label, v), (_, w) in zip(ask(o), ask(new([(d * x, d * y) for x, y in c]))):
            ctx.eq(v, w, 'copy: ' + label)
        img = c
    for (label, v), (_, w) in zip(ask(obj), ask(new(img))):
        ctx.eq(v, w, label)
    if how == 'copies':
        for (label, v), (_, w) in zip(ask(obj), first):
            ctx.eq(v, w, 'again: ' + label)
