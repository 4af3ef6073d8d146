"""Paper sizes and tiling."""
from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import rtree_stub
    STUBS['rtree'] = rtree_stub.MODULE
except ImportError:     # replay
    pass

MODULES = ['Patro.GraphicEngine.Painter.Painter', 'Patro.GraphicEngine.Painter.Paper']
BOUNDS = 'bounding boxes of at most 5 tiles on each axis; sizes A, B and C from 0 to 10, both orientations; paper margins <= 30 mm, margin of the tiler 0.5, 1 or 2.5 cm'
BOUNDS += '; also up to twelve tiles on an axis, exact multiples of the tile'
ASSUMPTIONS = ['real arithmetic']
META = dict(
    title='Tiles cover the drawing, side by side; paper sizes follow ISO 216',
    statement="""The tiles of a drawing have the printable size of the paper, are numbered by rows and columns from the lower left corner, each is next to its neighbours without overlap, their union
    contains the bounding box enlarged by the margin, and no row nor column is useless; the bounding box of the scene is not modified. A paper of size n+1 is half of the one of size n with the same
    proportions (1:sqrt 2), landscape exchanges width and height, unknown sizes and orientations are rejected; dimensions in inches are those in millimetres over 25.4.""",
    quant='all bounding boxes and margins, all paper sizes',
    why='the last column or row is lost for particular ratios only',
    files=['Patro/GraphicEngine/Painter/Painter.py', 'Patro/GraphicEngine/Painter/Paper.py'],
    mechanism=[('Tiler', 'Patro/GraphicEngine/Painter/Painter.py'), ('PaperSize', 'Patro/GraphicEngine/Painter/Paper.py')])
P = 'C33'


class Paper:

    def __init__(self, width, height, margin):
        self.width, self.height, self.margin = width, height, margin


def interval(ctx):
    import IntervalArithmetic
    if ctx.symbolic:    # for the log
        IntervalArithmetic.Interval.__str__ = lambda self: f'[{self.inf}, {self.sup}]'
    return IntervalArithmetic.Interval2D


def tiles_check(ctx, box, enlarged, area, got, limit):
    (x0, x1), (y0, y1) = enlarged
    ax, ay = area
    rows, columns = max(r for _, r, c in got) + 1, max(c for _, r, c in got) + 1
    ctx.is_([(r, c) for _, r, c in got], [(r, c) for r in range(rows) for c in range(columns)], 'numbers')
    t = {(r, c): i for i, r, c in got}
    for (r, c), i in t.items():
        ctx.eq(i.x.sup - i.x.inf, ax, 'width')
        ctx.eq(i.y.sup - i.y.inf, ay, 'height')
        if c:
            ctx.eq(i.x.inf, t[r, c-1].x.sup, 'next column')
            ctx.eq(i.y.inf, t[r, c-1].y.inf, 'same row')
        if r:
            ctx.eq(i.y.inf, t[r-1, c].y.sup, 'next row')
            ctx.eq(i.x.inf, t[r-1, c].x.inf, 'same column')
    first, last = t[0, 0], t[rows-1, columns-1]
    e = 1e-6
    ctx.check(first.x.inf <= x0 + e, 'left')
    ctx.check(first.y.inf <= y0 + e, 'bottom')
    ctx.check(last.x.sup >= x1 - e, 'right')
    ctx.check(last.y.sup >= y1 - e, 'top')
    ctx.check(last.x.inf < x1 + e, 'no useless column')
    ctx.check(last.y.inf < y1 + e, 'no useless row')
    ctx.check(first.x.sup > x0 - e, 'first column is useful')
    ctx.check(first.y.sup > y0 - e, 'first row is useful')


@harness(P, params=[{'how': h} for h in ('size', 'position', 'margin')], budget=60)
def tiles(ctx, how):
    Interval2D = interval(ctx)
    from Patro.GraphicEngine.Painter.Painter import Tiler
    x, y, m, k = 3, -2, 10, 1
    w, h = ctx.real('w', 0, 60), 10
    if how == 'position':
        x, y = ctx.real('x', -50, 50), ctx.real('y', -50, 50)
        h = ctx.real('h', 0, 30)
        w = ctx.choose('W', [0, 17, 40])
    elif how == 'margin':
        m, k = ctx.real('m', 0, 30), ctx.choose('k', [0.5, 1, 2.5])
    box = Interval2D((x, x + w), (y, y + h))
    pw, ph = ctx.choose('paper', [(210, 297), (297, 210)])
    paper = Paper(pw, ph, m)
    got = list(Tiler(box, paper) if k == 1 else Tiler(box, paper, margin=k))
    # 2 mm around the figure
    area = ((pw - 2 * m) - 4) / 10, ((ph - 2 * m) - 4) / 10
    tiles_check(ctx, box, ((x - k, x + w + k), (y - k, y + h + k)), area, got, 5)
    ctx.eq(box.x.inf, x, 'box unchanged')
    ctx.eq(box.x.sup, x + w, 'box unchanged')
    ctx.eq(box.y.inf, y, 'box unchanged')
    ctx.eq(box.y.sup, y + h, 'box unchanged')


@harness(P, budget=60)
def any_paper(ctx):
    Interval2D = interval(ctx)
    from Patro.GraphicEngine.Painter.Painter import Tiler
    pw, ph = ctx.real('pw', 100, 1200), ctx.real('ph', 200, 1200)
    w, h = ctx.choose('box', [(20, 20), (30, 8), (5, 40)])
    box = Interval2D((0, w), (0, h))
    tiler = Tiler(box, Paper(pw, ph, 10))
    got = list(tiler)
    tiles_check(ctx, box, ((-1, w + 1), (-1, h + 1)), ((pw - 24) / 10, (ph - 24) / 10), got, 5)
    again = list(tiler)
    ctx.is_([t[1:] for t in again], [t[1:] for t in got], 'the same tiles again')
    ctx.eq(again[-1][0].x.sup, got[-1][0].x.sup, 'the same last tile')


@harness(P, params=[{'letter': l} for l in 'ABC'])
def paper(ctx, letter):
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    n = ctx.choose('n', range(11))
    o = ctx.choose('orientation', ['portrait', 'landscape'])
    m = ctx.real('m', 0, 30)
    lower = ctx.choose('case', [False, True])
    p = PaperSize((letter.lower() if lower else letter) + str(n), o, m)
    ctx.is_((p.name, p.orientation), (f'{letter}{n}', o), 'name')
    ctx.eq(p.margin, m, 'margin')
    w, h = (p.width, p.height) if o == 'portrait' else (p.height, p.width)
    ctx.check(w < h, 'orientation')
    near = lambda a, b: ctx.and_(a - b <= 1e-3, b - a <= 1e-3)
    ctx.check(near(h * h, 2 * w * w), 'proportions')
    top = {'A': 1189, 'B': 1414, 'C': 1297}[letter]
    ctx.check(near(h * h * 2 ** n, top * top), 'height')
    ctx.check(near(p.width_in * 25.4, p.width), 'width in inches')
    ctx.check(near(p.height_in * 25.4, p.height), 'height in inches')
    if n < 10:
        q = PaperSize(f'{letter}{n+1}', o, m)
        qw, qh = (q.width, q.height) if o == 'portrait' else (q.height, q.width)
        ctx.check(near(qh, w), 'half of the previous one')
        ctx.check(near(2 * qw, h), 'half of the previous one')


@harness(P)
def bad_paper(ctx):
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    name, o = ctx.choose('bad', [('D4', 'portrait'), ('A11', 'portrait'), ('B-1', 'portrait'), ('A4', 'upright'), ('Z0', 'landscape')])
    ctx.raises(ValueError, lambda: PaperSize(name, o, ctx.real('m', 0, 30)), 'unknown paper')


@harness(P, params=[{'axis': a} for a in ('x', 'y')], budget=40)
def many_tiles(ctx, axis):
    """a dozen of tiles in a direction, the size of the drawing may be an exact number of tiles"""
    Interval2D = interval(ctx)
    from Patro.GraphicEngine.Painter.Painter import Tiler
    a, b = (210 - 24) / 10, (297 - 24) / 10
    n = ctx.choose('n', [9, 10, 11, 12])
    side = a if axis == 'x' else b
    exact = ctx.choose('exact', [True, False])
    if exact:       # n tiles without margin, up to the rounding
        w = n * side - 2 - 1e-5
    else:
        w = ctx.real('w', (n - 1) * side - 1.9, n * side - 2.1)
    size = (w, 10) if axis == 'x' else (10, w)
    p = ctx.real('p', -50, 50)
    box = Interval2D((p, p + size[0]), (p, p + size[1]))
    got = list(Tiler(box, Paper(210, 297, 10)))
    tiles_check(ctx, box, ((p - 1, p + size[0] + 1), (p - 1, p + size[1] + 1)), (a, b), got, n)
    ctx.is_(max(t[2 if axis == 'x' else 1] for t in got) + 1, n, 'number of tiles')


@harness(P, params=[{'axis': a} for a in 'xy'])
def exact(ctx, axis):
    """sizes which are multiples of the tile, in numbers which are exact"""
    Interval2D = interval(ctx)
    from Patro.GraphicEngine.Painter.Painter import Tiler
    n, k = ctx.choose('n', [1, 2, 3]), ctx.choose('k', [8, 16])
    w = n * k - 2, 3
    w = w if axis == 'x' else w[::-1]
    p = ctx.int('p', -50, 50)
    box = Interval2D((p, p + w[0]), (p, p + w[1]))
    got = list(Tiler(box, Paper(10 * k + 24, 10 * k + 24, 10)))
    tiles_check(ctx, box, ((p - 1, p + w[0] + 1), (p - 1, p + w[1] + 1)), (k, k), got, n)
    ctx.is_([t[1:] for t in got], [(i if axis == 'y' else 0, i if axis == 'x' else 0) for i in range(n)], 'tiles')
