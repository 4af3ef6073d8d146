"""DXF import: polylines with bulges, circles, arcs, ellipses, splines."""
import sys
import types

from engine.harness import harness

try:
    import ezdxf
except ImportError:
    ezdxf = None
try:
    from engine.loader import STUBS
    STUBS['ezdxf'] = types.ModuleType('ezdxf')
except ImportError:
    STUBS = None

MODULES = ['Patro.FileFormat.Dxf.Polyline', 'Patro.FileFormat.Dxf.Importer']
BOUNDS = ('polylines of two vertices (arbitrary coordinates and bulge, both senses) and of three to four vertices; arcs and ellipses with arbitrary centre and radii')
BOUNDS += '; also polylines of a dozen vertices'
ASSUMPTIONS = ['The ezdxf library is replaced by plain entities holding the symbolic values; replays use the real ezdxf entities.']
META = dict(
    title='DXF import: bulges, arcs, ellipses and splines are the curves of the file',
    statement="""A bulge b between two vertices of a DXF polyline is the circular arc through both vertices whose sagitta
    is |b| times the half chord, on the right of the chord when b is positive (the arc is counterclockwise from the first vertex to the
    second one) and on its left when b is negative; a null bulge is the segment; a closed polyline also has the part from the last vertex to
    the first one, an open one has not. Lines, circles, arcs (start and end angles in degrees, counterclockwise), ellipses (centre, major axis
    vector, ratio, parameters in radians) and splines (control points, degree) are imported as these curves, in the order of the file; other
    entities are skipped.""",
    quant='all vertices, bulges of both signs (minor and major arcs), centres, radii and axes',
    why='the sign and the magnitude of the bulge select among four cases of centre and angles',
    files=['Patro/FileFormat/Dxf/Polyline.py', 'Patro/FileFormat/Dxf/Importer.py'],
    mechanism=[('Polyline.geometry', 'Patro/FileFormat/Dxf/Polyline.py'), ('DxfImporter', 'Patro/FileFormat/Dxf/Importer.py')])
P = 'C24'


def polyline(points, bulges, closed):
    from Patro.FileFormat.Dxf.Polyline import Polyline
    from Patro.GeometryEngine.Vector import Vector2D
    p = Polyline(closed)
    for (x, y), b in zip(points, bulges):
        p.add(Vector2D(x, y), b)
    return p


def check_arc(ctx, arc, p, q, b, label, angles=True):
    """circle of the arc from p to q with bulge b, domain"""
    cx, cy, r = arc.center.x, arc.center.y, arc.radius
    ctx.check(r > 0, label + ' radius is positive')
    for v in (p, q):
        ctx.eq((v[0] - cx) * (v[0] - cx) + (v[1] - cy) * (v[1] - cy), r * r, label + ' vertex on the circle')
    # top of the arc: middle + right normal * b * half chord
    mx, my = (p[0] + q[0]) / 2, (p[1] + q[1]) / 2
    dx, dy = (q[0] - p[0]) / 2, (q[1] - p[1]) / 2
    t = (mx + b * dy, my - b * dx)
    ctx.eq((t[0] - cx) * (t[0] - cx) + (t[1] - cy) * (t[1] - cy), r * r, label + ' top of the arc on the circle')
    if not angles:
        return
    s, e = (p, q) if b > 0 else (q, p)
    for name, a, v in (('start', arc.domain.start, s), ('stop', arc.domain.stop, e)):
        c, n = ctx.deg_cs(a)
        ctx.eq([cx + r * c, cy + r * n], list(v), f'{label} {name} of the domain')
    ctx.check(not arc.domain.is_closed, label + ' domain is an arc')


@harness(P, params=[{'sign': s, 'size': z} for s in (1, -1) for z in ('minor', 'half', 'major', 'flat', 'huge')], budget=40)
def bulge(ctx, sign, size):
    p, q = [(ctx.real(f'x{i}', -10, 10), ctx.real(f'y{i}', -10, 10)) for i in range(2)]
    ctx.assume(ctx.or_(q[0] - p[0] > 1, p[0] - q[0] > 1, q[1] - p[1] > 1, p[1] - q[1] > 1))
    b = {'minor': lambda: ctx.real('b', 0.05, 0.95), 'half': lambda: ctx.frac(1), 'major': lambda: ctx.real('b', 1.05, 8),
         'flat': lambda: ctx.choose('b', [ctx.frac(1, 128), ctx.frac(1, 1000)]), 'huge': lambda: ctx.choose('b', [50, 1000])}[size]() * sign
    items = polyline([p, q], [b, 0], False).geometry()
    ctx.is_(len(items), 1, 'one part')
    ctx.is_(type(items[0]).__name__, 'Circle2D', 'circular arc')
    check_arc(ctx, items[0], p, q, b, 'bulge', angles=False)


CHORDS = [(6, 0), (0, 6), (-6, 0), (0, -6), (6, 8), (-8, 6), (-6, -8), (8, -6)]


@harness(P, params=[{'d': d} for d in CHORDS], budget=40)
def bulge_domain(ctx, d):
    """eight directions of the chord: extent of the domain"""
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    b = ctx.choose('b', [1, -1, ctx.frac(1, 2), ctx.frac(-1, 2), 2, -2, ctx.frac(1, 3), -3, ctx.frac(3, 4), ctx.frac(-3, 4)])
    p, q = (x, y), (x + d[0], y + d[1])
    items = polyline([p, q], [b, 0], False).geometry()
    check_arc(ctx, items[0], p, q, b, 'bulge')
    l = items[0].domain.length
    if b in (1, -1):
        ctx.eq(l, ctx.pi, 'half circle')
    else:
        ctx.check((l > ctx.pi) if abs(b) > 1 else ctx.and_(l > 0, l < ctx.pi), 'minor or major arc')


@harness(P, budget=60)
def vertices(ctx):
    """sequence of parts; closed or not"""
    n = ctx.choose('n', [2, 3, 4])
    closed = ctx.choose('closed', [False, True])
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    ps = [(x + [0, 3, 7, 2][i], y + [0, 4, 4, 16][i]) for i in range(n)]
    k = ctx.choose('k', list(range(-1, n)))
    b = ctx.choose('b', [ctx.frac(1, 2), -2])
    bs = [b if i == k else 0 for i in range(n)]
    pl = polyline(ps, bs, closed)
    items = pl.geometry()
    m = n if closed else n - 1
    ctx.is_(len(items), m, 'number of parts')
    ctx.is_(len(pl), n, 'number of vertices')
    for i in range(m):
        p, q = ps[i], ps[(i + 1) % n]
        if bs[i]:
            check_arc(ctx, items[i], p, q, bs[i], f'part {i}', angles=False)
        else:
            ctx.eq([items[i].p0.x, items[i].p0.y, items[i].p1.x, items[i].p1.y], [*p, *q], f'segment {i}')
    ctx.is_([(a is None) for a in (pl[0].prev, pl[n - 1].next)], [not closed, not closed], 'ends')
    for i in range(1, n):
        ctx.check(pl[i].prev is pl[i - 1] and pl[i - 1].next is pl[i], 'neighbours')
    if closed:
        ctx.check(pl[0].prev is pl[n - 1] and pl[n - 1].next is pl[0], 'neighbours of the ends')
    ctx.check(isinstance(str(pl), str) if not ctx.symbolic else True, 'text')


# -- importer --------------------------------------------------------------------------------------

class Entity:
    def __init__(self, kind, points=None, control_points=None, closed=False, **dxf):
        self.kind, self.closed, self.control_points = kind, closed, control_points
        self.points = points
        self.dxf = types.SimpleNamespace(**dxf)

    def dxftype(self):
        return self.kind

    def get_points(self):
        return self.points


def load(ctx, entities):
    """entities: (kind, values)"""
    import Patro.FileFormat.Dxf.Importer as M
    if ctx.symbolic:
        class Drawing:
            @staticmethod
            def modelspace():
                out = []
                for kind, v in entities:
                    if kind == 'LWPOLYLINE':
                        out.append(Entity(kind, points=[(x, y, 0, 0, b) for x, y, b in v['points']], closed=v['closed']))
                    elif kind == 'SPLINE':
                        out.append(Entity(kind, control_points=v['points'], degree=v['degree']))
                    else:
                        out.append(Entity(kind, **v))
                return out
        drawing = Drawing
    else:
        drawing = ezdxf.new('R2010')
        m = drawing.modelspace()
        for kind, v in entities:
            if kind == 'LWPOLYLINE':
                m.add_lwpolyline([(x, y, 0, 0, b) for x, y, b in v['points']], close=v['closed'])
            elif kind == 'SPLINE':
                m.add_open_spline(v['points'], degree=v['degree'])
            else:
                m.new_entity(kind, {k: x for k, x in v.items()})
    real, M.ezdxf = M.ezdxf, types.SimpleNamespace(readfile=lambda path: drawing)
    try:
        return M.DxfImporter('x')
    finally:
        M.ezdxf = real


@harness(P)
def entities(ctx):
    x = [ctx.real(f'v{i}', -10, 10) for i in range(8)]
    r = ctx.real('r', 1, 10)
    a, b = ctx.real('a', 0, 350), ctx.real('b', 0, 350)
    closed, degree = ctx.choose('closed', [False, True]), ctx.choose('degree', [2, 3])
    doc = load(ctx, [
        ('LINE', dict(start=(x[0], x[1], 0), end=(x[2], x[3], 0))),
        ('POINT', dict(location=(0, 0, 0))),
        ('CIRCLE', dict(center=(x[4], x[5], 0), radius=r)),
        ('LWPOLYLINE', dict(points=[(x[0], x[1], 0), (x[2], x[3], 0), (x[4], x[5], 0)], closed=closed)),
        ('ARC', dict(center=(x[6], x[7], 0), radius=r, start_angle=a, end_angle=b)),
        ('SPLINE', dict(points=[(x[0], x[1], 0), (x[2], x[3], 0), (x[4], x[5], 0), (x[6], x[7], 0)], degree=degree)),
    ])
    items = list(doc)
    ctx.is_([type(i).__name__ for i in items], ['Segment2D', 'Circle2D', 'list', 'Circle2D', 'BSpline2D'], 'items in order')
    ctx.is_(len(doc), 5, 'number of items')
    xy = lambda ps: [[p.x, p.y] for p in ps]
    ctx.eq(xy(items[0].points), x[:4], 'line')
    ctx.eq([items[1].center.x, items[1].center.y, items[1].radius], [x[4], x[5], r], 'circle')
    ctx.check(items[1].domain is None, 'whole circle')
    ctx.is_(len(items[2]), 3 if closed else 2, 'polyline')
    ctx.eq(xy(items[2][1].points), [x[2], x[3], x[4], x[5]], 'second segment')
    ctx.eq([items[3].center.x, items[3].center.y, items[3].radius], [x[6], x[7], r], 'arc')
    ctx.eq([items[3].domain.start, items[3].domain.stop], [a, b], 'angles of the arc')
    ctx.eq(xy(items[4].points), x, 'spline')
    ctx.is_(items[4].degree, degree, 'degree')


AXES = [(1, 0), (0, 1), (3, 4), (-1, 0), (0, -1), (-4, 3), (4, -3), (-3, -4)]


@harness(P, params=[{'axis': a} for a in AXES], budget=40)
def ellipse(ctx, axis):
    """points of the ellipse at an arbitrary parameter, and domain"""
    cx, cy = ctx.real('cx', -10, 10), ctx.real('cy', -10, 10)
    k, ratio = ctx.real('k', 1, 5), ctx.real('ratio', 0.1, 1)
    mx, my = k * axis[0], k * axis[1]
    s, e = ctx.real('s', 0, 350), ctx.real('e', 0, 350)
    doc = load(ctx, [('ELLIPSE', dict(center=(cx, cy, 0), major_axis=(mx, my, 0), ratio=ratio,
                                      start_param=s * ctx.pi / 180, end_param=e * ctx.pi / 180))])
    g = doc[0]
    ctx.eq([g.center.x, g.center.y], [cx, cy], 'centre')
    m = k * (5 if abs(axis[0]) > 1 else 1)
    ctx.eq([g.radius_x, g.radius_y], [m, m * ratio], 'radii')
    c, n = ctx.deg_cs(g.angle)
    ctx.eq([g.radius_x * c, g.radius_x * n], [mx, my], 'major axis')
    ctx.eq([g.domain.start, g.domain.stop], [s, e], 'domain')
    t = ctx.angle('t')
    ct, st = ctx.deg_cs(t)
    p = g.point_at_angle(t)
    ctx.eq([p.x, p.y], [cx + mx * ct - my * ratio * st, cy + my * ct + mx * ratio * st], 'point')


@harness(P, budget=60)
def many_vertices(ctx):
    """twelve vertices, with a bulge on every third one"""
    closed = ctx.choose('closed', [False, True])
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    n = 12
    ps = [(x + 5 * i, y + (i * 7) % 4) for i in range(n)]
    bs = [(ctx.frac(1, 2) if i % 2 else -2) if i % 3 == 2 else 0 for i in range(n)]
    items = polyline(ps, bs, closed).geometry()
    m = n if closed else n - 1
    ctx.is_(len(items), m, 'number of parts')
    for i in range(m):
        p, q = ps[i], ps[(i + 1) % n]
        if bs[i]:
            check_arc(ctx, items[i], p, q, bs[i], f'part {i}', angles=False)
        else:
            ctx.eq([items[i].p0.x, items[i].p0.y, items[i].p1.x, items[i].p1.y], [*p, *q], f'segment {i}')
