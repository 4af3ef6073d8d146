"""Graphic scene."""
import itertools

from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import rtree_stub
    STUBS['rtree'] = rtree_stub.MODULE
except ImportError:     # replay
    pass

MODULES = ['Patro.GraphicEngine.GraphicScene.Scene', 'Patro.GraphicEngine.GraphicScene.GraphicItem', 'Patro.GraphicEngine.GraphicScene.GraphicItemMixin',
           'Patro.GeometryEngine.Path', 'Patro.GeometryEngine.Conic', 'Patro.GeometryEngine.Segment', 'Patro.GeometryEngine.Spline']
BOUNDS = 'scenes of at most 4 items; coordinates <= 10; scope transformations: identity, translations, rotations by quarter turns and mirrors; z values of 3 items out of 3'
BOUNDS += '; also fourteen items with z values of one to four digits'
ASSUMPTIONS = ['the rtree package is modelled by a list of boxes', 'a transformation moves the positions of an item; radii and angles are in the units of the scene']
META = dict(
    title='A graphic scene keeps its items, their geometry and finds them by position',
    statement="""Iteration gives the items of a scene in the order of their addition, z_value_iter the visible ones by increasing z value then order of addition; selection, user data and named
    coordinates map to the items they were given for, until the item is removed. The geometry of an item is its primitive at its positions, named or not, moved by the transformation of the scope;
    add_geometry, add_path, add_spline and bezier_path draw the curves of their argument. After update_rtree, item_in_bounding_box returns the items whose bounding box meets the box, and item_at those
    at a distance of the point not greater than the radius, the nearest first, including after items were added, moved (dirty) or removed, whatever was computed before.""",
    quant='all positions, radii, histories of additions, moves and removals',
    why='spatial index staleness depends on the history; distances and order on the positions',
    files=['Patro/GraphicEngine/GraphicScene/Scene.py', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py', 'Patro/GraphicEngine/GraphicScene/GraphicItemMixin.py'],
    mechanism=[('update_rtree, item_at, add_geometry', 'Patro/GraphicEngine/GraphicScene/Scene.py'), ('get_geometry', 'Patro/GraphicEngine/GraphicScene/GraphicItem.py')])
P = 'C32'
PERM3 = list(itertools.permutations(range(3)))


def v2(*a):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(*a)


def style():
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
    return GraphicPathStyle()


def new_scene(transformation=None):
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    return GraphicScene(transformation)


@harness(P)
def items(ctx):
    scene = new_scene()
    s = style()
    data = [object(), ctx.choose('data', ['text', 0, ()])]
    # two items share their data, one has none
    d = [data[0], data[1], data[0], None]
    its = []
    for i in range(4):
        p = v2(i, 3 - i)
        kind = (0, 1, 2, 1)[i]
        its.append([lambda: scene.circle(p, 1, s, user_data=d[i]), lambda: scene.segment(p, v2(0, 0), s, user_data=d[i]), lambda: scene.text(p, 'T', None, user_data=d[i])][kind]())
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    ctx.check(same(list(scene), its) and len(scene) == 4 and scene.number_of_items == 4, 'items')
    for i in its:
        ctx.check(i.scene is scene, 'scene of an item')
    ctx.check(same(scene.item_for_user_data(data[0]), [its[0], its[2]]) and same(scene.item_for_user_data(data[1]), [its[1]]), 'items by data')
    ctx.check(not scene.item_for_user_data(object()), 'unknown data')
    z = ctx.choose('z', [(0, 0, 0), (1, 0, 0), (2, 1, 0), (0.5, -3, 0)])
    for i, v in zip(its, z):
        i.z_value = v
    hidden = ctx.choose('hidden', [None, 0, 3])
    if hidden is not None:
        its[hidden].visible = False
    zz = tuple(z) + (0,)
    rank = sorted(range(4), key=lambda i: (zz[i], i))
    ctx.check(same(list(scene.z_value_iter()), [its[i] for i in rank if i != hidden]), 'z order')
    sel = ctx.choose('selected', [(), (0, 3), (2, 1)])
    for i in sel:
        its[i].selected = True
    ctx.check(same(scene.selected_items, [its[i] for i in sorted(sel)]), 'selected')
    removed = ctx.choose('removed', [0, 1, 2, 3])
    if ctx.choose('updated', [False, True]):
        scene.update_rtree()
    scene.remove_item(its[removed])
    rest = [i for i in range(4) if i != removed]
    ctx.check(same(list(scene), [its[i] for i in rest]), 'items after removal')
    ctx.check(same(scene.selected_items, [its[i] for i in sorted(sel) if i != removed]), 'selected after removal')
    for k in (0, 1):
        ctx.check(same(scene.item_for_user_data(data[k]) or [], [its[i] for i in rest if d[i] is data[k]]), 'items by data after removal')
    scene.unselect_items()
    ctx.check(scene.selected_items == [], 'unselected')
    ctx.check(same(list(scene.z_value_iter()), [its[i] for i in rank if i not in (hidden, removed)]), 'z order after removal')


@harness(P)
def coordinates(ctx):
    scene = new_scene()
    p = [v2(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(3)]
    a, b = ctx.choose('names', [('A', 'B'), ('B', 'A'), ('AB', 'A')])
    scene.add_coordinate(a, p[0])
    scene.add_coordinate(b, p[1])
    ctx.is_([(c.name, c.position is q) for c, q in zip(scene.coordinates, p)], [(a, True), (b, True)], 'coordinates')
    item = scene.segment(a, b, style(), user_data=None)
    other = scene.segment(p[2], a, style(), user_data=None)
    ctx.eq(item.casted_positions[0], p[0], 'named position')
    ctx.eq(item.casted_positions[1], p[1], 'named position')
    ctx.eq(other.casted_positions[0], p[2], 'position')
    ctx.eq(other.geometry.p1, p[0], 'geometry')
    ctx.check(scene.coordinate(a).position is p[0] and item.positions == (a, b), 'names')
    scene.remove_coordinate(b)
    ctx.raises(KeyError, lambda: scene.coordinate(b), 'removed')
    ctx.raises(KeyError, lambda: scene.cast_position(b), 'removed')
    ctx.is_([c.name for c in scene.coordinates], [a], 'one left')


def transformations(ctx):
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    k = ctx.choose('transformation', ['none', 'translation', 'quarter', 'mirror'])
    if k == 'none':
        return None, lambda x, y: (x, y)
    if k == 'translation':
        u, v = ctx.real('u', -10, 10), ctx.real('v', -10, 10)
        return AffineTransformation2D.Translation(v2(u, v)), lambda x, y: (x + u, y + v)
    if k == 'quarter':
        u, v = ctx.real('u', -10, 10), ctx.real('v', -10, 10)
        return AffineTransformation2D.RotationAt(v2(u, v), 90), lambda x, y: (u - (y - v), v + (x - u))
    return AffineTransformation2D.Scale(-1, 1), lambda x, y: (-x, y)


KINDS = ['circle', 'arc', 'ellipse', 'elliptic arc', 'segment', 'rectangle', 'polyline', 'polygon', 'cubic_bezier', 'quadratic_bezier', 'text', 'image']


@harness(P, params=[{'kind': k} for k in KINDS], budget=30)
def geometry(ctx, kind):
    """the geometry of an item of each type under a transformation, with positions by name or by value"""
    t, f = transformations(ctx)
    scene = new_scene(t)
    s = style()
    n = {'circle': 1, 'arc': 1, 'ellipse': 1, 'elliptic arc': 1, 'text': 1, 'segment': 2, 'rectangle': 2, 'image': 2, 'polyline': 3, 'polygon': 3, 'quadratic_bezier': 3, 'cubic_bezier': 4}[kind]
    p = [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(n)]
    named = ctx.choose('named', [False, True])
    a = [v2(*q) for q in p]
    if named:
        for i, q in enumerate(a):
            scene.add_coordinate(f'N{i}', q)
        a = [f'N{i}' for i in range(n)]
    data = object()
    r, r2 = ctx.real('r', 0.1, 10), ctx.real('r2', 0.1, 10)
    kw = dict(user_data=data)
    if kind in ('circle', 'arc'):
        if kind == 'arc':
            kw.update(start_angle=20, stop_angle=110)
        item = scene.circle(a[0], r, s, **kw)
    elif kind in ('ellipse', 'elliptic arc'):
        if kind == 'elliptic arc':
            kw.update(start_angle=20, stop_angle=110)
        item = scene.ellipse(a[0], r, r2, 30, s, **kw)
    elif kind == 'text':
        item = scene.text(a[0], 'T', 'F', **kw)
        ctx.is_((item.text, item.font), ('T', 'F'), 'text')
    elif kind == 'image':
        item = scene.image(*a, 'I', **kw)
        ctx.is_(item.image, 'I', 'image')
    elif kind in ('polyline', 'polygon'):
        item = getattr(scene, kind)(a, s, **kw)
    else:
        item = getattr(scene, kind)(*a, s, **kw)
    ctx.check(item.user_data is data, 'data')
    if kind not in ('text', 'image'):
        ctx.check(item.path_style is s, 'style')
    g = item.geometry
    want = [f(*q) for q in p]
    if kind in ('rectangle', 'image', 'text'):
        got = [g.p0, g.p1]
        if kind == 'text':
            want = want * 2
    elif kind in ('circle', 'arc', 'ellipse', 'elliptic arc'):
        got = [g.center]
        if 'ellip' in kind:
            ctx.eq(g.radius_x, r, 'x radius')
            ctx.eq(g.radius_y, r2, 'y radius')
            ctx.eq(g.angle, 30, 'angle')
        else:
            ctx.eq(g.radius, r, 'radius')
        if 'arc' in kind:
            ctx.is_((g.domain.start, g.domain.stop), (20, 110), 'domain')
        ctx.is_(item.is_closed, 'arc' not in kind, 'closed')
    else:
        got = list(g.points)
    ctx.is_(len(got), len(want), 'number of points')
    for q, w in zip(got, want):
        ctx.eq(q.x, w[0], 'x')
        ctx.eq(q.y, w[1], 'y')
    ctx.is_(type(g).__name__, {'circle': 'Circle2D', 'arc': 'Circle2D', 'ellipse': 'Ellipse2D', 'elliptic arc': 'Ellipse2D', 'segment': 'Segment2D', 'rectangle': 'Rectangle2D', 'polyline': 'Polyline2D',
                               'polygon': 'Polygon2D', 'cubic_bezier': 'CubicBezier2D', 'quadratic_bezier': 'QuadraticBezier2D', 'text': 'Rectangle2D', 'image': 'Rectangle2D'}[kind], 'type')
    ctx.check(item.dirty is False, 'clean')
    ctx.check(item.geometry is g, 'computed once')
    if kind == 'quadratic_bezier':
        q = item.cubic_positions
        ctx.eq(q[0].x, want[0][0], 'cubic start')
        ctx.eq(q[1].x * 3, want[0][0] + 2 * want[1][0], 'cubic control')
        ctx.eq(q[2].y * 3, want[2][1] + 2 * want[1][1], 'cubic control')
        ctx.eq(q[3].y, want[2][1], 'cubic stop')
    if named:
        u, v = ctx.real('mx', -10, 10), ctx.real('my', -10, 10)
        scene.add_coordinate('N0', v2(u, v))
        item.dirty = True
        g, moved = item.geometry, f(u, v)
        q = g.center if hasattr(g, 'center') and kind in ('circle', 'arc', 'ellipse', 'elliptic arc') else list(g.points)[0]
        ctx.eq([q.x, q.y], list(moved), 'moved')
        if kind == 'quadratic_bezier':
            q = item.cubic_positions
            ctx.eq([q[0].x, q[0].y], list(moved), 'moved cubic start')
            ctx.eq(q[1].x * 3, moved[0] + 2 * want[1][0], 'moved cubic control')


def same_points(ctx, got, want, label):
    got, want = list(got), list(want)
    ctx.is_(len(got), len(want), label + ': number of points')
    for g, w in zip(got, want):
        ctx.eq(g.x, w.x, label + ' x')
        ctx.eq(g.y, w.y, label + ' y')


PRIMITIVES = ['QuadraticBezier2D', 'CubicBezier2D', 'Circle2D', 'arc', 'Ellipse2D', 'elliptic arc', 'Polygon2D', 'Polyline2D', 'Rectangle2D', 'Segment2D', 'Triangle2D', 'Line2D']


@harness(P, params=[{'kind': k} for k in PRIMITIVES], budget=30)
def add_geometry(ctx, kind):
    from Patro.GeometryEngine import Bezier, Conic, Line, Polygon, Polyline, Rectangle, Segment, Triangle
    scene = new_scene()
    s = style()
    p = [v2(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(4)]
    r, r2 = ctx.real('r', 0.1, 10), ctx.real('r2', 0.1, 10)
    dom = Conic.AngularDomain(ctx.choose('start', [0, 15]), ctx.choose('stop', [180, 300]))
    mk = {
        'QuadraticBezier2D': lambda: Bezier.QuadraticBezier2D(*p[:3]), 'CubicBezier2D': lambda: Bezier.CubicBezier2D(*p), 'Circle2D': lambda: Conic.Circle2D(p[0], r),
        'arc': lambda: Conic.Circle2D(p[0], r, domain=dom), 'Ellipse2D': lambda: Conic.Ellipse2D(p[0], r, r2, 30), 'elliptic arc': lambda: Conic.Ellipse2D(p[0], r, r2, 30, domain=dom),
        'Polygon2D': lambda: Polygon.Polygon2D(*p), 'Polyline2D': lambda: Polyline.Polyline2D(*p), 'Rectangle2D': lambda: Rectangle.Rectangle2D(*p[:2]),
        'Segment2D': lambda: Segment.Segment2D(*p[:2]), 'Triangle2D': lambda: Triangle.Triangle2D(*p[:3]), 'Line2D': lambda: Line.Line2D(*p[:2])}
    if kind == 'Triangle2D':
        a, b = p[1] - p[0], p[2] - p[0]
        ctx.assume(a.x * b.y - a.y * b.x > 0.1)
    g = mk[kind]()
    if kind == 'Line2D':
        ctx.raises(NotImplementedError, lambda: scene.add_geometry(g, s), 'a line is infinite')
        ctx.is_(len(scene), 0, 'nothing added')
        return
    item = scene.add_geometry(g, s)
    ctx.check(list(scene) == [item] and item.user_data is g and item.path_style is s, 'item')
    h = item.geometry
    if kind in ('Rectangle2D', 'Circle2D', 'arc', 'Ellipse2D', 'elliptic arc'):
        if kind == 'Rectangle2D':
            same_points(ctx, [h.p0, h.p1], p[:2], kind)
        else:
            ctx.eq(h.center, p[0], 'center')
            if kind in ('Circle2D', 'arc'):
                ctx.eq(h.radius, r, 'radius')
            else:
                ctx.eq(h.radius_x, r, 'x radius')
                ctx.eq(h.radius_y, r2, 'y radius')
                ctx.eq(h.angle, 30, 'angle')
            if 'arc' in kind:
                ctx.is_((item.start_angle, item.stop_angle), (dom.start, dom.stop), 'arc')
                ctx.is_((h.domain.start, h.domain.stop), (dom.start, dom.stop), 'domain')
            else:
                ctx.is_((item.start_angle, item.stop_angle), (0, 360), 'full')
    else:
        n = {'QuadraticBezier2D': 3, 'Segment2D': 2, 'Triangle2D': 3}.get(kind, 4)
        same_points(ctx, h.points, p[:n], kind)
        ctx.is_(type(h).__name__, 'Polygon2D' if kind == 'Triangle2D' else kind, 'type')


def make_path(ctx, closed):
    from Patro.GeometryEngine.Path import Path2D
    pt = lambda n: v2(ctx.real('x' + n, -10, 10), ctx.real('y' + n, -10, 10))
    parts = [ctx.choose('first', ['line', 'quadratic', 'cubic']), ctx.choose('second', ['line', 'quadratic', 'cubic'])]
    path = Path2D(pt('0'))
    want, last = [], path.p0
    for i, k in enumerate(parts):
        n = {'line': 1, 'quadratic': 2, 'cubic': 3}[k]
        q = [pt(f'{i}{j}') for j in range(n)]
        getattr(path, {'line': 'line_to', 'quadratic': 'quadratic_to', 'cubic': 'cubic_to'}[k])(*q, absolute=True)
        want.append((k, [last] + q))
        last = q[-1]
    if closed:
        path.close()
        want.append(('line', [last, path.p0]))
    return path, want


@harness(P, params=[{'closed': False}, {'closed': True}], budget=30)
def path_segments(ctx, closed):
    scene = new_scene()
    path, want = make_path(ctx, closed)
    s, data = style(), ctx.choose('data', ['text', 0])
    how = ctx.choose('how', ['add_geometry', 'add_path', 'data'])
    its = scene.add_geometry(path, s) if how == 'add_geometry' else scene.add_path(path, s, **(dict(user_data=data) if how == 'data' else {}))
    ctx.check(list(scene) == its and len(its) == len(want), 'one item for each part')
    for it, (k, pts) in zip(its, want):
        ctx.is_(type(it).__name__, {'line': 'SegmentItem', 'quadratic': 'QuadraticBezierItem', 'cubic': 'CubicBezierItem'}[k], 'type')
        same_points(ctx, it.geometry.points, pts, k)
        ctx.check(it.path_style is s and it.user_data is (data if how == 'data' else path), 'style and data')


@harness(P, params=[{'closed': False}, {'closed': True}], budget=30)
def path_item(ctx, closed):
    """as one item; its geometry and bounding box"""
    t, f = transformations(ctx)
    scene = new_scene(t)
    path, want = make_path(ctx, closed)
    s, data = style(), object()
    item = scene.add_path(path, s, user_data=data, as_segments=False)
    ctx.check(list(scene) == [item] and item.path_style is s and item.user_data is data, 'one item')
    ctx.is_(item.is_closed, closed, 'closed')
    ctx.eq(item.position, path.p0, 'start')
    ctx.is_([type(x).__name__ for x in item], [{'line': 'LinearSegment', 'quadratic': 'QuadraticSegment', 'cubic': 'CubicSegment'}[k] for k, p in want], 'parts')
    for x, (k, pts) in zip(item, want):
        same_points(ctx, x.positions, pts[1:], k)
    parts = list(item.geometry)
    for x, (k, pts) in zip(parts, want):
        same_points(ctx, x.points, [v2(*f(p.x, p.y)) for p in pts], k + ' of the geometry')
    ctx.is_(len(parts) - len(want), 1 if closed else 0, 'closure')
    if not closed and ctx.choose('close after', [False, True]):
        item.bounding_box
        item.close()
        ctx.check(item.is_closed, 'closed later')
        again = list(item.geometry)
        ctx.is_(len(again), len(want) + 1, 'closed later')
        same_points(ctx, again[-1].points, [v2(*f(p.x, p.y)) for p in (want[-1][1][-1], path.p0)], 'closing line')


@harness(P)
def path_box(ctx):
    """a path which grows"""
    scene = new_scene()
    from Patro.GraphicEngine.GraphicScene.GraphicItem import PathItem
    p = [v2(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(3)]
    item = scene.add_item(PathItem, p[0], style(), None)
    read = ctx.choose('read', [False, True])
    if read and ctx.choose('empty', [False, True]):
        scene.update_rtree()
        ctx.eq(item.bounding_box.x.inf, p[0].x, 'box of the start')
    item.line_to(p[1])
    scene.update_rtree()
    item.line_to(p[2])
    if read:
        item.bounding_box
    scene.update_rtree()
    b = item.bounding_box
    for i in (0, 1, 2):
        ctx.check(ctx.and_(b.x.inf <= p[i].x, p[i].x <= b.x.sup, b.y.inf <= p[i].y, p[i].y <= b.y.sup), 'in the box')
    d = 1
    for i in (0, 1, 2):
        found = scene.item_in_bounding_box((p[i].x - d, p[i].y - d, p[i].x + d, p[i].y + d)) or []
        ctx.check(found == [item], 'found around its points')


@harness(P)
def path_arcs(ctx):
    """bulges and arcs"""
    from Patro.GeometryEngine.Path import Path2D
    scene = new_scene()
    s = style()
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    path = Path2D(v2(x, y))
    k = ctx.choose('kind', ['bulge', 'arc'])
    if k == 'bulge':
        r = ctx.real('r', 0.1, 2)
        path.line_to(v2(x + 10, y), absolute=True)
        path.line_to(v2(x + 10, y + ctx.choose('side', [10, -10])), radius=r, absolute=True)
        its = scene.add_path(path, s)
        ctx.is_([type(i).__name__ for i in its], ['SegmentItem', 'CircleItem', 'SegmentItem'], 'items')
        side = 1 if path[1].point.y - y > 0 else -1
        ctx.eq(its[1].position, v2(x + 10 - r, y + side * r), 'center')
        ctx.eq(its[1].radius, r, 'radius')
        a, b = its[0].positions
        ctx.eq(a, v2(x, y), 'start')
        ctx.eq(b, v2(x + 10 - r, y), 'start of the bulge')
        a, b = its[2].positions
        ctx.eq(a, v2(x + 10, y + side * r), 'stop of the bulge')
        g = its[1].geometry
        ends = [v2(x + 10 - r, y), v2(x + 10, y + side * r)]
        for q in (g.start_point, g.stop_point):
            ctx.check(ctx.or_(*[ctx.and_(ctx.eq_(q.x, e.x), ctx.eq_(q.y, e.y)) for e in ends]), 'ends of the arc')
    else:
        path.arc_to(v2(x + 6, y), 5, 5, 0, ctx.choose('large', [False, True]), ctx.choose('sweep', [False, True]), absolute=True)
        its = scene.add_path(path, s)
        ctx.is_([type(i).__name__ for i in its], ['EllipseItem'], 'items')
        e = path[0].geometry
        ctx.eq(its[0].position, e.center, 'center')
        ctx.eq(its[0].radius_x, e.radius_x, 'radius')
        ctx.eq(its[0].radius_y, e.radius_y, 'radius')
        ctx.eq(its[0].start_angle, e.domain.start, 'start')
        ctx.eq(its[0].stop_angle, e.domain.stop, 'stop')
    ctx.check(list(scene) == its and all(i.user_data is path and i.path_style is s for i in its), 'style and data')


@harness(P, params=[{'degree': d} for d in (1, 2, 3)])
def bezier_path(ctx, degree):
    scene = new_scene()
    n = ctx.choose('n', [degree + 1, 2 * degree + 1])
    p = [v2(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(n)]
    its = scene.bezier_path(p, degree, style(), user_data=None)
    ctx.check(list(scene) == its and len(its) == (n - 1) // degree, 'items')
    for k, it in enumerate(its):
        same_points(ctx, it.geometry.points, p[k * degree:(k + 1) * degree + 1], 'curve')
    if degree > 1:
        ctx.raises(ValueError, lambda: scene.bezier_path(p + p[:1], degree, style(), user_data=None), 'number of points')
    ctx.raises(ValueError, lambda: scene.bezier_path(p, ctx.choose('bad', [0, 4]), style(), user_data=None), 'degree')


@harness(P)
def spline(ctx):
    from Patro.GeometryEngine.Spline import CubicUniformSpline2D
    scene = new_scene()
    p = [v2(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(5)]
    from Patro.GeometryEngine.Spline import BSpline2D
    g = BSpline2D(p, 3)
    its = scene.add_geometry(g, style())
    curves = g.to_bezier()
    ctx.check(list(scene) == its and len(its) == len(curves), 'items')
    for it, c in zip(its, curves):
        same_points(ctx, it.geometry.points, c.points, 'curve')
        ctx.check(it.user_data is g, 'data')
    same_points(ctx, [its[0].positions[0], its[-1].positions[-1]], [p[0], p[-1]], 'ends')
    for a, b in zip(its, its[1:]):
        same_points(ctx, [a.positions[-1]], [b.positions[0]], 'continuous')


def touches(ctx, box, q, m=0):
    """boxes (x0, y0, x1, y1) meet"""
    return ctx.and_(box[0] <= q[2] + m, q[0] <= box[2] + m, box[1] <= q[3] + m, q[1] <= box[3] + m)


STEPS = ['add', 'move', 'remove', 'restyle']


@harness(P, params=[{'step': s} for s in STEPS], budget=60)
def history(ctx, step):
    """the items found in a box after a history of changes"""
    scene = new_scene()
    s = style()
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    w, h = ctx.real('w', 0, 5), ctx.real('h', 0, 5)
    scene.add_coordinate('A', v2(x, y))
    a = scene.circle('A', 1, s, user_data='a')
    b = scene.rectangle(v2(0, 0), v2(w, h), s, user_data='b')
    boxes = {'a': (x - 1, y - 1, x + 1, y + 1), 'b': (0, 0, w, h)}
    before = ctx.choose('before', ['nothing', 'geometry', 'update', 'update and geometry'])
    if 'update' in before:
        scene.update_rtree()
    if 'geometry' in before:
        b.geometry, a.bounding_box
    if step == 'add':
        scene.segment(v2(0, 0), 'A', s, user_data='c')
        boxes['c'] = (ctx.ite(x < 0, x, 0), ctx.ite(y < 0, y, 0), ctx.ite(x < 0, 0, x), ctx.ite(y < 0, 0, y))
    elif step == 'move':
        u, v = ctx.real('u', -10, 10), ctx.real('v', -10, 10)
        scene.add_coordinate('A', v2(u, v))
        a.dirty = True
        boxes['a'] = (u - 1, v - 1, u + 1, v + 1)
    elif step == 'remove':
        k = ctx.choose('removed', ['a', 'b'])
        scene.remove_item({'a': a, 'b': b}[k])
        del boxes[k]
    else:
        a.selected = True
        b.z_value = 3
    if ctx.choose('read', [False, True]):
        for i in scene:
            i.bounding_box
    for i in range(ctx.choose('updates', [1, 2]) if before == 'update' else 1):
        scene.update_rtree()
    q = (0, 0, ctx.real('q', 0, 8), 3)
    found = scene.item_in_bounding_box(q) or []
    names = [i.user_data for i in found]
    ctx.is_(sorted(names), sorted(set(names)), 'each once')
    for k, box in boxes.items():
        if k in names:
            ctx.check(touches(ctx, box, q, 1e-6), f'{k} meets the box')
        else:
            ctx.check(ctx.not_(touches(ctx, box, q, -1e-6)), f'{k} does not meet the box')
    ctx.check(set(names) <= set(boxes), 'only the items of the scene')


@harness(P, params=[{'kind': k} for k in ('circle', 'segment', 'arc', 'polyline')], budget=60)
def item_at(ctx, kind):
    """two items, one is a circle"""
    scene = new_scene()
    s = style()
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    r = ctx.real('r', 0.5, 5)
    radius = ctx.real('radius', 0.1, 3)
    first = ctx.choose('first', ['circle', 'other']) if kind == 'segment' else 'other'
    its = {}

    def other():
        if kind == 'circle':
            its['o'] = scene.circle(v2(4, 0), 2, s, user_data='o')
        elif kind == 'segment':
            its['o'] = scene.segment(v2(0, 0), v2(6, 0), s, user_data='o')
        elif kind == 'arc':
            its['o'] = scene.circle(v2(0, 0), 3, s, start_angle=0, stop_angle=90, user_data='o')
        else:
            its['o'] = scene.polyline([v2(0, 0), v2(6, 0), v2(6, 4)], s, user_data='o')

    if first == 'other':
        other()
    its['c'] = scene.circle(v2(0, 0), r, s, user_data='c')
    if first == 'circle':
        other()
    if kind == 'segment':
        scene.text(v2(x, y), 'T', None, user_data='t')
    if kind in ('circle', 'segment'):      # the order does not depend on the z values
        its['c' if first == 'other' and kind == 'segment' else 'o'].z_value = 1
    scene.update_rtree()
    got = scene.item_at(v2(x, y), radius)
    n = ctx.sqrt(x * x + y * y)
    ab = lambda v: ctx.ite(v < 0, -v, v)
    d = {'c': ab(n - r)}
    if kind == 'circle':
        d['o'] = ab(ctx.sqrt((x - 4) * (x - 4) + y * y) - 2)
    elif kind == 'arc':
        end = lambda u, v: ctx.sqrt((x - u) * (x - u) + (y - v) * (y - v))
        d['o'] = ctx.ite(ctx.and_(x >= 0, y >= 0), ab(n - 3), ctx.ite(end(3, 0) < end(0, 3), end(3, 0), end(0, 3)))
    else:
        clamp = lambda v, lo, hi: ctx.ite(v < lo, lo, ctx.ite(v > hi, hi, v))
        e = clamp(x, 0, 6)
        d['o'] = ctx.sqrt((x - e) * (x - e) + y * y)
        if kind == 'polyline':
            e = clamp(y, 0, 4)
            d2 = ctx.sqrt((x - 6) * (x - 6) + (y - e) * (y - e))
            d['o'] = ctx.ite(d2 < d['o'], d2, d['o'])
    names = [i.user_data for _, i in got]
    ctx.check(set(names) <= {'c', 'o'} and len(set(names)) == len(names), 'items')
    for k in 'co':
        if k in names:
            v = [dist for dist, i in got if i.user_data == k][0]
            ctx.check(ctx.and_(v <= d[k] + 1e-6, v >= d[k] - 1e-6), f'distance {k}')
            ctx.check(v <= radius, f'{k} in the radius')
        else:
            ctx.check(d[k] > radius - 1e-6, f'{k} is farther')
    if len(got) == 2:
        ctx.check(got[0][0] <= got[1][0], 'the nearest first')


@harness(P)
def empty(ctx):
    scene = new_scene()
    scene.update_rtree()
    ctx.check(not scene.item_in_bounding_box((0, 0, 1, 1)), 'no item')
    ctx.is_(list(scene.item_at(v2(ctx.real('x', -5, 5), 0), 2)), [], 'no item at')
    ctx.is_((len(scene), list(scene), scene.selected_items, list(scene.z_value_iter())), (0, [], [], []), 'empty')


@harness(P)
def many_items(ctx):
    """fourteen items, z values of several digits and signs, two of them symbolic"""
    scene = new_scene()
    s = style()
    z = [0, 10, 9, 2, 100, -1, -10, 0.5, 0, 1, 11, 10, -2, 3]
    k = ctx.choose('place', [0, 6, 13])
    z[k] = ctx.choose('z', [-100, -5, 0, 9.5, 20, 1000])
    its = [scene.circle(v2(i, 0), 1, s, user_data=f'd{i}') for i in range(14)]
    for i, v in zip(its, z):
        i.z_value = v
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    ctx.check(same(list(scene), its), 'items')
    ctx.check(same(list(scene.z_value_iter()), [its[i] for i in sorted(range(14), key=lambda i: (z[i], i))]), 'z order')
    if (k, z[k]) != (0, 9.5):
        zz = list(z)
        its[3].z_value = zz[3] = 100
        its[4].visible = False
        scene.remove_item(its[5])
        its.append(scene.circle(v2(20, 0), 1, s, user_data='new'))
        zz.append(0)
        order = [i for i in sorted(range(15), key=lambda i: (zz[i], i)) if i not in (4, 5)]
        ctx.check(same(list(scene.z_value_iter()), [its[i] for i in order]), 'z order after changes')
        return
    scene.update_rtree()
    x = ctx.real('x', 3, 12)
    ctx.assume(ctx.and_(*[ctx.or_(x - v > 0.001, v - x > 0.001) for v in [i + .5 for i in range(-2, 15)] + list(range(-2, 16))]))
    got = scene.item_at(v2(x, 0), ctx.frac(1, 2))
    want = []
    for i in range(14):
        d = ctx.ite(x < i, i - x, x - i)
        d = ctx.ite(d < 1, 1 - d, d - 1)
        if d < ctx.frac(1, 2):
            want.append((i, d))
    ctx.check({i.user_data for _, i in got} == {f'd{i}' for i, _ in want} and len(got) == len(want), 'the near items')
    for a, b in zip(got, got[1:]):
        ctx.check(a[0] <= b[0], 'the nearest first')


@harness(P)
def turns(ctx):
    """an item is closed when its angles make at least a turn, in both directions"""
    scene = new_scene()
    a, b = ctx.choose('angles', [(0, 360), (360, 0), (90, -270), (-180, 180), (0, 359), (359, 0), (0, 720), (10, 10)])
    kw = dict(start_angle=a, stop_angle=b)
    r = ctx.real('r', 0.1, 9)
    for i in (scene.circle(v2(1, 2), r, style(), user_data=None, **kw), scene.ellipse(v2(1, 2), r, 2, 30, style(), user_data=None, **kw)):
        ctx.is_((bool(i.is_closed), i.start_angle, i.stop_angle), (abs(b - a) >= 360, a, b), 'closed')
        g = i.geometry
        ctx.is_(g.domain is None or bool(g.domain.is_closed), abs(b - a) >= 360, 'domain')
