"""Qt painter and viewport."""
import os
import re
import shutil
import tempfile

from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import rtree_stub, qt_stub
    STUBS['rtree'] = rtree_stub.MODULE
    qt_stub.install(STUBS)
except ImportError:     # replay: the real Qt
    pass

MODULES = ['Patro.GraphicEngine.Painter.QtPainter', 'Patro.GraphicEngine.Painter.Painter']
BOUNDS = 'scenes of at most 3 items; coordinates <= 1000; viewports of 10 to 2000 px; histories of at most 3 operations'
BOUNDS += '; also angles in sixteenths of degree'
ASSUMPTIONS = ['Qt is modelled by points, pens, paths and a painter which records; counterexamples are replayed with PyQt5', 'images and text metrics are not examined']
META = dict(
    title='The Qt viewport maps the scene to pixels and back; items are drawn there',
    statement="""After fit_scene the viewport shows the bounding box of the scene, centred, at the largest scale which leaves 2 % of margin. scene_to_viewport maps the area to the viewport, y upwards to y downwards,
    viewport_to_scene is its inverse, lengths follow the scale; zoom, pan and resizing keep what they should: the scale, the centre, the size of the viewport. Items are drawn at the viewport positions of their
    points, as segments, curves, closed polygons and paths, arcs from their start to their stop angle, ellipses with their angle, with their colours, width, dash, cap and join styles; items without pen or colour have no
    stroke; the selected item nearest to the click is red. The grid has all the multiples of its step in the area. SVG export has the size and scale required.""",
    quant='all scenes, viewports, positions and histories of zooms, pans and resizings',
    why='sign and scale errors depend on the position of the area; states follow each other',
    files=['Patro/GraphicEngine/Painter/QtPainter.py'],
    mechanism=[('ViewportArea, QtPainter, QtQuickPaintedSceneItem', 'Patro/GraphicEngine/Painter/QtPainter.py')])
P = 'C37'
APP = []


def qt(ctx):
    """the model or the real Qt"""
    if ctx.symbolic:
        return qt_stub
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    os.environ.setdefault('XDG_RUNTIME_DIR', tempfile.gettempdir())
    from types import SimpleNamespace
    from PyQt5.QtCore import QPointF, QRectF, Qt
    from PyQt5.QtGui import QColor, QGuiApplication
    if not APP:
        APP.append(QGuiApplication(['patro']))
    from engine import qt_stub as stub
    return SimpleNamespace(QPointF=QPointF, QRectF=QRectF, Qt=Qt, QColor=QColor, Recorder=stub.Recorder)


def v2(*a):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(*a)


def style(**k):
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicBezierStyle
    return GraphicBezierStyle(**k)


def box(ctx, scene, x0, x1, y0, y1):
    import IntervalArithmetic
    if ctx.symbolic:    # for logs
        IntervalArithmetic.Interval.__str__ = lambda self: f'[{self.inf}, {self.sup}]'
    scene.bounding_box = IntervalArithmetic.Interval2D((x0, x1), (y0, y1))


def view(ctx, w, h, x=0, y=0, dx=100, dy=100):
    """an item showing a scene"""
    Q = qt(ctx)
    from Patro.GraphicEngine.Painter.QtPainter import QtScene, QtQuickPaintedSceneItem
    scene = QtScene()
    box(ctx, scene, x, x + dx, y, y + dy)
    # an empty scene is ignored
    scene.segment(v2(900, 900), v2(901, 901), style(), user_data=None).visible = False
    item = QtQuickPaintedSceneItem()
    item.geometryChanged(Q.QRectF(0, 0, w, h), Q.QRectF())
    item.scene = scene
    return item, scene


def px(q):
    return q.x(), q.y()


def check_area(ctx, item, Q, cx, cy, k, w, h, label):
    """the area is centred, its corners are those of the viewport"""
    a = item.scene_area
    near = lambda u, v, l: ctx.eq(u, v, f'{label}: {l}')
    near(item.zoom, k, 'scale')
    near(a.x.inf + a.x.sup, 2 * cx, 'x centre')
    near(a.y.inf + a.y.sup, 2 * cy, 'y centre')
    near((a.x.sup - a.x.inf) * k, w, 'width')
    near((a.y.sup - a.y.inf) * k, h, 'height')
    near(px(item.scene_to_viewport(v2(cx, cy))), (w / 2, h / 2), 'middle of the viewport')
    near(px(item.scene_to_viewport(v2(a.x.inf, a.y.sup))), (0, 0), 'upper left corner')
    near(item.length_scene_to_viewport(3), 3 * k, 'length')
    near(item.length_viewport_to_scene(3 * k), 3, 'length in the scene')


@harness(P, params=[{'first': f} for f in ('x', 'y')])
def fit(ctx, first):
    Q = qt(ctx)
    w, h = ctx.real('w', 10, 2000), ctx.real('h', 10, 2000)
    x, y = ctx.real('x', -1000, 1000), ctx.real('y', -1000, 1000)
    dx, dy = ctx.choose('size', [(100, 200), (3, 1)])
    ctx.assume(w * dy < h * dx if first == 'x' else w * dy >= h * dx)
    item, scene = view(ctx, w, h, x, y, dx, dy)
    k = w / (dx * 1.02) if first == 'x' else h / (dy * 1.02)
    check_area(ctx, item, Q, x + dx / 2, y + dy / 2, k, w, h, 'fit')
    a = item.scene_area
    ctx.check(ctx.and_(a.x.inf < x, x + dx < a.x.sup, a.y.inf < y, y + dy < a.y.sup), 'the scene is visible')
    ctx.eq((scene.bounding_box.x.inf, scene.bounding_box.y.sup), (x, y + dy), 'bounding box unchanged')
    # another box, then another scene
    from Patro.GraphicEngine.Painter.QtPainter import QtScene
    box(ctx, scene, x - dx, x + dx, y - dy, y + dy)
    item.fit_scene()
    check_area(ctx, item, Q, x, y, k / 2, w, h, 'fit another box')
    other = QtScene()
    box(ctx, other, y, y + 2 * dx, x, x + 2 * dy)
    other.segment(v2(900, 900), v2(901, 901), style(), user_data=None).visible = False
    item.scene = other
    check_area(ctx, item, Q, y + dx, x + dy, k / 2, w, h, 'fit another scene')


@harness(P)
def round_trip(ctx):
    Q = qt(ctx)
    w, h = ctx.real('w', 50, 100), ctx.real('h', 300, 400)
    item, scene = view(ctx, w, h, ctx.real('x', -100, 100), ctx.real('y', -100, 100))
    k = w / 102
    area = item.scene_area
    u, v = ctx.real('u', -100, 100), ctx.real('v', -100, 100)
    p, q = item.scene_to_viewport(v2(u, v)), item.scene_to_viewport(v2(u + 1, v + 2))
    ctx.eq((p.x(), p.y()), ((u - area.x.inf) * k, (area.y.sup - v) * k), 'pixels')
    ctx.eq((q.x() - p.x(), q.y() - p.y()), (k, -2 * k), 'scale and orientation')
    s = item._viewport_area.viewport_to_scene(p)
    ctx.eq((s[0], s[1]), (u, v), 'back')
    p2 = item.scene_to_viewport(v2(u, v))
    ctx.eq(px(p), px(p2), 'the same again')
    i, j = ctx.real('i', 0, 100), ctx.real('j', 0, 100)
    s = item._viewport_area.viewport_to_scene(Q.QPointF(i, j))
    ctx.eq(px(item.scene_to_viewport(v2(s[0], s[1]))), (i, j), 'back to pixels')
    if not ctx.symbolic:
        x, y = item.format_coordinate(Q.QPointF(i, j)).split(', ')
        ctx.check(abs(float(x) - s[0]) <= 0.00051 and abs(float(y) - s[1]) <= 0.00051, 'coordinates')


OPERATIONS = ['zoom', 'zoom at', 'pan', 'resize', 'fit']


@harness(P, params=[{'ops': (a, b)} for a in OPERATIONS for b in OPERATIONS] + [{'ops': (a, b, c), '_tier': 'thorough'} for a in OPERATIONS for b in OPERATIONS for c in OPERATIONS])
def history(ctx, ops):
    Q = qt(ctx)
    w, h = 204, 510
    item, scene = view(ctx, w, h, -20, 10)
    cx, cy, k = 30, 60, 2
    for n, op in enumerate(ops):
        a, b = ctx.real(f'a{n}', 0, 100), ctx.real(f'b{n}', 0, 100)
        if op == 'zoom':
            k = ctx.real(f'k{n}', 0.5, 20)
            item.zoom_at_center(k)
        elif op == 'zoom at':
            cx, cy = cx + (a - w / 2) / k, cy - (b - h / 2) / k
            k = ctx.choose(f'K{n}', [0.5, 1, 8])
            item.zoom_at(Q.QPointF(a, b), k)
        elif op == 'pan':
            a, b = a - 50, b - 50
            cx, cy = cx + a / k, cy + b / k
            item.pan(Q.QPointF(a, b))
        elif op == 'resize':
            w, h = 100 + a, 500 + b
            item.geometryChanged(Q.QRectF(0, 0, w, h), Q.QRectF())
        else:
            item.fit_scene()
            cx, cy, k = 30, 60, w / 102
        check_area(ctx, item, Q, cx, cy, k, w, h, f'{n} {op}')


def recorded(ctx, painter):
    r = qt(ctx).Recorder()
    painter._show_grid = False
    from Patro.GraphicEngine.Painter.QtPainter import QtPainter
    QtPainter.paint(painter, r)
    return r.entries


STYLES = [dict(), dict(line_width=2.5, stroke_color='red', stroke_style='DashLine', cap_style='RoundCap', join_style='MiterJoin'),
          dict(stroke_color='#123456', fill_color='yellow', stroke_style='DotLine', cap_style='FlatCap'), dict(stroke_style='NoPen', fill_color='blue'),
          dict(stroke_color=None, fill_color='blue'), dict(stroke_color=None, fill_color=None), dict(stroke_style='DashDotLine', join_style='SvgMiterJoin', stroke_alpha=0.5),
          dict(stroke_style='DashDotDotLine', join_style='RoundJoin', fill_color='green', fill_alpha=0.25),
          dict(stroke_color='red', stroke_alpha=0, fill_color='green', fill_alpha=0)]


def make_style(d):
    from Patro.GraphicStyle import StrokeStyle, CapStyle, JoinStyle
    d = dict(d)
    for k, e in (('stroke_style', StrokeStyle), ('cap_style', CapStyle), ('join_style', JoinStyle)):
        if k in d:
            d[k] = e[d[k]]
    return style(**d)


def hexa(name):
    from Patro.GraphicStyle import Colors
    return str(Colors.ensure_color(name))


def check_style(ctx, Q, e, d, selected=False):
    Qt = Q.Qt
    brush = e.brush
    if hasattr(brush, 'color') and brush.__class__.__name__ == 'QBrush':
        brush = brush.color()
    if d.get('fill_color') is None:
        ctx.check(brush is None or brush == Qt.NoBrush, 'no brush')
    else:
        ctx.is_(brush.name() if hasattr(brush, 'name') else brush, hexa(d['fill_color']), 'fill colour')
        ctx.check(abs(brush.alphaF() - d.get('fill_alpha', 1)) < 1e-2, 'fill alpha')
    color = d.get('stroke_color', 'black')
    if selected:
        color = 'red'
    stroke = d.get('stroke_style', 'SolidLine')
    if color is None or stroke == 'NoPen':
        ctx.is_(int(e.pen.style()), int(Qt.NoPen), 'invisible stroke')
        return
    ctx.is_(e.pen.color().name(), hexa(color), 'stroke colour')
    if not selected:
        ctx.check(abs(e.pen.color().alphaF() - d.get('stroke_alpha', 1)) < 1e-2, 'stroke alpha')
    ctx.is_(int(e.pen.style()), int(getattr(Qt, stroke)), 'line style')
    ctx.is_(int(e.pen.capStyle()), int(getattr(Qt, d.get('cap_style', 'SquareCap'))), 'cap style')
    ctx.is_(int(e.pen.joinStyle()), int(getattr(Qt, d.get('join_style', 'BevelJoin'))), 'join style')
    ctx.eq(e.pen.widthF(), d.get('line_width', 1) * (4 if selected else 1), 'line width')


@harness(P, params=[{'kind': k} for k in ('segment', 'cubic', 'circle', 'quadratic', 'polyline', 'polygon', 'path', 'ellipse')])
def styles(ctx, kind):
    Q = qt(ctx)
    item, scene = view(ctx, 204, 204)
    n = ctx.choose('style', range(len(STYLES)))
    d = dict(STYLES[n])
    if ctx.choose('width', [False, True]):
        d['line_width'] = ctx.real('line width', 0.1, 10)
    s = make_style(d)
    x, y = ctx.real('x', 0, 100), ctx.real('y', 0, 100)
    first = scene.segment(v2(1, 2), v2(3, 4), style(stroke_color='green', fill_color='red'), user_data=None)
    if kind == 'segment':
        i = scene.segment(v2(x, y), v2(3, 4), s, user_data=None)
    elif kind == 'cubic':
        i = scene.cubic_bezier(v2(x, y), v2(3, 4), v2(9, 9), v2(1, 5), s, user_data=None)
    elif kind == 'quadratic':
        i = scene.quadratic_bezier(v2(x, y), v2(3, 4), v2(9, 9), s, user_data=None)
    elif kind in ('polyline', 'polygon'):
        i = getattr(scene, kind)([v2(x, y), v2(3, 4), v2(9, 9)], s, user_data=None)
    elif kind == 'path':
        from Patro.GeometryEngine.Path import Path2D
        path = Path2D(v2(x, y))
        path.line_to(v2(3, 4), absolute=True)
        i = scene.add_as_path(path, s, user_data=None)
    elif kind == 'ellipse':
        i = scene.ellipse(v2(x, y), 5, 3, 20, s, user_data=None)
    else:
        i = scene.circle(v2(x, y), 5, s, user_data=None)
    selected = ctx.choose('selected', [False, True])
    if selected:
        i.selected = True
    a, b = recorded(ctx, item)
    check_style(ctx, Q, a, dict(stroke_color='green', fill_color='red'))
    check_style(ctx, Q, b, d, selected)


KINDS = ['segment', 'cubic', 'quadratic', 'polyline', 'polygon', 'path', 'text', 'circle', 'arc', 'ellipse', 'elliptic arc']


def not_null(ctx, p):
    """Qt drops null lines"""
    for a, b in zip(p, p[1:] + p[:1]):
        ctx.assume(ctx.or_(a[0] > b[0] + 0.01, a[0] < b[0] - 0.01))


@harness(P, params=[{'kind': k, 'moved': m} for m in (False, True) for k in KINDS])
def shapes(ctx, kind, moved):
    Q = qt(ctx)
    item, scene = view(ctx, 204, 300, ctx.real('x0', -50, 50), 7)
    s = style()
    f = lambda p: px(item.scene_to_viewport(v2(*p)))
    if moved:
        # a quarter turn about the origin and a translation
        from Patro.GeometryEngine.Transformation import AffineTransformation2D as T
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        from Patro.GraphicEngine.Painter.QtPainter import QtScene

        class MovedScene(QtScene):
            def __init__(self, t):
                super().__init__()
                GraphicScene.__init__(self, t)
        box_ = scene.bounding_box
        scene = MovedScene(T.Translation(v2(5, -3)) * T.Rotation(90))
        scene.bounding_box = box_
        scene.segment(v2(900, 900), v2(901, 901), s, user_data=None).visible = False
        item.scene = scene
        f = lambda p: px(item.scene_to_viewport(v2(5 - p[1], p[0] - 3)))
    p = [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', -100, 100)) for i in range(1, 5)]
    not_null(ctx, p)
    q = [v2(*i) for i in p]
    types, points, k = None, [f(i) for i in p], 2
    radii = None
    if kind == 'segment':
        scene.add_coordinate('A', q[0])
        scene.segment('A', q[1], s, user_data=None)
        types, points = [0, 1], points[:2]
    elif kind == 'cubic':
        scene.cubic_bezier(*q, s, user_data=None)
        types = [0, 2, 3, 3]
    elif kind == 'quadratic':
        scene.quadratic_bezier(*q[:3], s, user_data=None)
        a, b, c = points[:3]
        types, points = [0, 2, 3, 3], [a, tuple((u + 2 * v) / 3 for u, v in zip(a, b)), tuple((u + 2 * v) / 3 for u, v in zip(c, b)), c]
    elif kind == 'polyline':
        scene.polyline(q, s, user_data=None)
        types = [0, 1, 1, 1]
    elif kind == 'polygon':
        scene.polygon(q, s, user_data=None)
        types, points = [0, 1, 1, 1, 1], points + points[:1]
    elif kind == 'path':
        from Patro.GeometryEngine.Path import Path2D
        path = Path2D(q[0])
        path.line_to(q[1], absolute=True)
        which = ctx.choose('path', ['lines', 'quadratic', 'cubic'])
        if which == 'lines':
            path.line_to(q[2], absolute=True)
            types, points = [0, 1, 1], points[:3]
        elif which == 'quadratic':
            path.quadratic_to(q[2], q[3], absolute=True)
            a, b, c = points[1:]
            types, points = [0, 1, 2, 3, 3], points[:2] + [tuple((u + 2 * v) / 3 for u, v in zip(a, b)), tuple((u + 2 * v) / 3 for u, v in zip(c, b)), c]
        else:
            path.cubic_to(q[2], q[3], v2(1, 2), absolute=True)
            types, points = [0, 1, 2, 3, 3], points + [f((1, 2))]
        i = scene.add_as_path(path, s, user_data=None)
        if ctx.choose('closed', [False, True]):
            ctx.assume(ctx.or_(*[ctx.not_(ctx.eq_(a, b)) for a, b in zip(points[0], points[-1])]))
            i.close()
            types, points = types + [1], points + points[:1]
    elif kind == 'text':
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font
        scene.text(q[0], 'Hello', Font('Sans', 13), user_data=None)
        points = points[:1]
    else:
        r, angle, start, stop = ctx.real('r', 1, 20), 0, 0, 360
        radii = (r, r)
        kw = {}
        if 'arc' in kind:
            start, stop = ctx.choose('angles', [(30, 120), (300, 45), (-90, 90), (10, 369)])
            kw = dict(start_angle=start, stop_angle=stop)
        points = points[:1]
        if kind.startswith('ellip'):
            radii = r, ctx.real('r2', 1, 20)
            angle = ctx.real('angle', -180, 180)
            scene.ellipse(q[0], *radii, angle, s, user_data=None, **kw)
        else:
            scene.circle(q[0], r, s, user_data=None, **kw)
    e, = recorded(ctx, item)
    ctx.eq(e.points, points, f'{kind}: points')
    if types:
        ctx.is_((e.kind, list(e.types)), ('path', types), f'{kind}: elements')
    elif kind == 'text':
        ctx.is_((e.text, e.font.family(), e.font.pointSize()), ('Hello', 'Sans', 13), 'text')
    else:
        ctx.eq(e.radii, [item.length_scene_to_viewport(i) for i in radii], f'{kind}: radii')
        if radii[0] is not radii[1]:
            ctx.eq(e.angle, -angle, f'{kind}: angle')
        if 'arc' in kind:
            ctx.is_(e.kind, 'arc', f'{kind}: arc')
            ctx.is_((e.start - 16 * start) % 5760, 0, f'{kind}: start')
            ctx.is_(e.span, 16 * ((stop - start) % 360), f'{kind}: span')
        else:
            ctx.is_(e.kind, 'ellipse', f'{kind}: whole')


@harness(P, params=[{'kind': k, 'quarter': q} for k in ('circle', 'ellipse') for q in range(4)], budget=40)
def arcs(ctx, kind, quarter):
    """any start and stop angles"""
    item, scene = view(ctx, 204, 300)
    unit = ctx.choose('unit', [1, 16])      # sixteenths of degree
    start = ctx.int('start', 90 * quarter * unit, (90 * quarter + 89) * unit) / unit
    stop = ctx.int('stop', 0, 360 * unit) / unit
    ctx.assume(ctx.or_(stop < start, stop > start))
    ctx.assume(stop - start < 360)
    kw = dict(start_angle=start, stop_angle=stop)
    if kind == 'circle':
        scene.circle(v2(5, 5), 3, style(), user_data=None, **kw)
    else:
        scene.ellipse(v2(5, 5), 3, 2, 10, style(), user_data=None, **kw)
    e, = recorded(ctx, item)
    ctx.is_(e.kind, 'arc', 'arc')
    ctx.eq(e.start, 16 * start, 'start')
    ctx.check(ctx.and_(e.span > 0, e.span < 5760), 'span within a turn')
    ctx.check(ctx.or_(*[ctx.eq_(e.span, 16 * (stop - start) + 5760 * k) for k in (0, 1)]), 'span')


@harness(P, params=[{'step': s} for s in (1, 10)], budget=40)
def grid_lines(ctx, step):
    """the lines on the limits of the area are drawn"""
    Q = qt(ctx)
    import IntervalArithmetic
    from Patro.GraphicEngine.Painter.QtPainter import QtPainter
    n, m = ctx.choose('limits', [(0, 2), (-2, 0), (-1, 1), (3, 4), (-4, -1), (0, 1)])
    d, e = ctx.choose('beyond', [(0, 0), (1, 0), (0, 1), (1, 1)])
    d, e = (ctx.real('d', 0.01, 0.99) if d else 0), (ctx.real('e', 0.01, 0.99) if e else 0)
    lo, hi = n * step - d, m * step + e
    area = IntervalArithmetic.Interval2D((lo, hi), (1.5, 2.4))

    class View(QtPainter):
        scene_area = area

        def scene_to_viewport(self, p):
            return Q.QPointF(p.x, p.y)
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GeometryEngine.Transformation import AffineTransformation2D as T
    # the area is that of the scene as it is shown
    scene = GraphicScene(T.Translation(v2(ctx.real('tx', -9, 9), 0)) if ctx.choose('moved', [False, True]) else None)
    scene.segment(v2(900, 900), v2(901, 901), style(), user_data=None).visible = False
    r = Q.Recorder()
    View(scene).paint(r)
    width = {10: 0.75, 1: 0.25}[step]
    at = [p[0][0] for p in (e.points for e in r.entries if e.pen.widthF() == width) if zero(p[0][0] - p[1][0])]
    ctx.eq(at, [i * step for i in range(n, m + 1)], 'lines of the grid')


def zero(d):
    return d.is_const and not d.value if hasattr(d, 'is_const') else abs(d) < 1e-9


@harness(P)
def control_points(ctx):
    Q = qt(ctx)
    item, scene = view(ctx, 204, 300)
    show = ctx.choose('show', [False, True])
    p = [(ctx.real(f'x{i}', -100, 100), ctx.real(f'y{i}', -100, 100)) for i in range(1, 5)]
    not_null(ctx, p)
    scene.cubic_bezier(*[v2(*i) for i in p], style(show_control=show, control_color='blue'), user_data=None)
    after = scene.segment(v2(0, 0), v2(1, 1), style(), user_data=None)
    got = recorded(ctx, item)
    points = [px(item.scene_to_viewport(v2(*i))) for i in p]
    ctx.eq(got[0].points, points, 'curve')
    ctx.is_([e.kind for e in got], ['path'] + (['path'] + ['ellipse'] * 4) * show + ['path'], 'drawings')
    if show:
        ctx.eq(got[1].points, points, 'control polygon')
        ctx.is_(list(got[1].types), [0, 1, 1, 1], 'control polygon')
        ctx.eq([e.points[0] for e in got[2:6]], points, 'control points')
        for e in got[1:6]:
            ctx.is_(e.pen.color().name(), '#0000ff', 'control colour')
    check_style(ctx, Q, got[-1], {})


@harness(P, params=[{'axis': a, 'size': (30, 40)} for a in 'xy'] + [{'axis': a, 'size': (150, 120), '_tier': 'thorough'} for a in 'xy'], budget=40)
def grid(ctx, axis, size):
    Q = qt(ctx)
    x, y = ctx.real('x', -3, 3), 3
    if axis == 'y':
        x, y = y, x
    # a viewport with the proportions of the scene
    item, scene = view(ctx, 10 * size[0], 10 * size[1], x, y, *size)
    area = item.scene_area
    r = Q.Recorder()
    from Patro.GraphicEngine.Painter.QtPainter import QtPainter
    QtPainter.paint(item, r)
    step = 10 if size[0] < 100 else 100
    a, b = (0, 1) if axis == 'x' else (1, 0)
    i, other = (area.x, area.y) if a == 0 else (area.y, area.x)
    zero = lambda d: (d.is_const and not d.value if hasattr(d, 'is_const') else abs(d) < 1e-9)
    for width, s in ((0.75, step), (0.25, step // 10)):
        found = [e.points for e in r.entries if e.pen.widthF() == width and zero(e.points[0][a] - e.points[1][a])]
        ctx.check(bool(found), 'lines')
        at = []
        for u, v in found:
            p, q = (item._viewport_area.viewport_to_scene(Q.QPointF(*t)) for t in (u, v))
            at.append(p[a])
            if len(at) in (1, len(found)):
                ctx.eq((p[b], q[b]), (other.inf, other.sup), 'a line crosses the area')
        ctx.check(ctx.and_(at[0] >= i.inf - 1e-6, at[0] - s < i.inf + 1e-6), 'first line')
        ctx.check(ctx.and_(at[-1] <= i.sup + 1e-6, at[-1] + s > i.sup - 1e-6), 'last line')
        ctx.eq([v - u for u, v in zip(at, at[1:])], [s] * (len(at) - 1), 'step')
        # multiples of the step
        ctx.check(ctx.or_(*[ctx.eq_(at[0], m * s) for m in range(-10, 10)]), 'multiple of the step')


@harness(P)
def select(ctx):
    Q = qt(ctx)
    item, scene = view(ctx, 204, 204)
    s = style()
    a = scene.circle(v2(20, 20), 5, s, user_data='a')
    b = scene.circle(v2(60, 20), 5, s, user_data='b')
    for i in ctx.choose('selected before', [(), (a,), (a, b)]):
        i.selected = True
    x = ctx.real('x', 0, 80)
    p = item.scene_to_viewport(v2(x, 20))
    for d in (x - 20, x - 60):
        for t in (0, 10):       # not at the limits
            ctx.assume(ctx.or_(d < t - 0.01, d > t + 0.01))
            ctx.assume(ctx.or_(d < -t - 0.01, d > -t + 0.01))
    # 10 px are 5 mm
    if ctx.choose('radius', [10, 1]) == 10:
        item.item_at(p, 10)
        near = lambda c: abs(x - c) < 10
    else:
        for d in (x - 20, x - 60):
            for t in (4.5, 5.5):
                ctx.assume(ctx.or_(d < t - 0.01, d > t + 0.01))
                ctx.assume(ctx.or_(d < -t - 0.01, d > -t + 0.01))
        item.item_at(p, 1)
        near = lambda c: ctx.and_(abs(x - c) < 5.5, abs(x - c) > 4.5)
    ctx.check_iff(a.selected, near(20), 'the first is selected')
    ctx.check_iff(b.selected, near(60), 'the second is selected')
    ctx.check(len(scene.selected_items) <= 1, 'one item')


@harness(P)
def svg(ctx):
    Q = qt(ctx)
    from Patro.GraphicEngine.Painter.QtPainter import QtScene, QtPainter
    scene = QtScene()
    x, y = ctx.real('x', -50, 50), ctx.real('y', -50, 50)
    box(ctx, scene, x, x + 30, y, y + 20)
    scene.segment(v2(x, y), v2(x + 30, y + 20), style(), user_data=None)
    painter = QtPainter(scene)
    k = ctx.choose('scale', [10, 2.5])
    path = tempfile.mkdtemp(prefix='patro-c37-')
    try:
        painter.to_svg(os.path.join(path, 'out.svg'), scale=k, dpi=100, title='t', description='d')
        if ctx.symbolic:
            g = qt_stub.Generator.last
            size, view_box = (g.size.width(), g.size.height()), g.view_box.r
            e, = g.recorder.entries
            points = e.points
        else:
            with open(os.path.join(path, 'out.svg')) as f:
                text = f.read()
            m = re.search(r'<svg width="(.*?)mm" height="(.*?)mm"\s+viewBox="(.*?)"', text)
            size = [float(i) / 25.4 * 100 for i in m.groups()[:2]]
            view_box = [float(i) for i in m.group(3).split()]
            m = re.search(r'<polyline .*?points="(.*?)"', text)
            points = [tuple(map(float, t.split(','))) for t in m.group(1).split()]
    finally:
        shutil.rmtree(path, ignore_errors=True)
    close = lambda a, b, label, e=1e-2: ctx.check(ctx.and_(*[ctx.and_(i - j <= e, j - i <= e) for i, j in zip(a, b)]), label)
    close(size, (30 * k, 20 * k), 'size', 1)
    close(view_box[2:], (30 * k, 20 * k), 'size of the view box')
    # the lower left corner of the box (y is downwards) is the first point
    close(points[0], (view_box[0], view_box[1] + view_box[3]), 'lower left corner')
    close(points[1], (view_box[0] + view_box[2], view_box[1]), 'upper right corner')


@harness(P)
def no_scene(ctx):
    Q = qt(ctx)
    from Patro.GraphicEngine.Painter.QtPainter import QtQuickPaintedSceneItem, ViewportArea
    item = QtQuickPaintedSceneItem()
    x = ctx.real('x', 1, 100)
    item.geometryChanged(Q.QRectF(0, 0, x, 10), Q.QRectF())
    item.pan(Q.QPointF(x, 1))
    item.zoom_at_center(2)
    item.zoom_at(Q.QPointF(x, 1), 2)
    item.fit_scene()
    item.item_at(Q.QPointF(x, 1))
    ctx.is_((item.format_coordinate(Q.QPointF(x, 1)), item.scene_area), ('', None), 'no scene')
    area = ViewportArea()
    ctx.check(not area and area.scene_area is None, 'empty viewport')
    for bad in (None, 3, 'scene'):
        def f():
            area.scene = bad
        ctx.raises(ValueError, f, 'not a scene')
