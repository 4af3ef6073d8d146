"""Painters of documents."""
import os
import re
import shutil
import tempfile
from xml.etree import ElementTree

from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import rtree_stub, painter_stubs
    STUBS['rtree'] = rtree_stub.MODULE
    painter_stubs.install(STUBS)
except ImportError:     # replay: the real libraries
    pass

MODULES = ['Patro.GraphicEngine.Painter.' + m for m in ('SvgPainter', 'DxfPainter', 'PdfPainter', 'MplPainter', 'TexPainter', 'Painter')] + ['Patro.GraphicEngine.TeX.Tikz', 'Patro.GraphicEngine.TeX.Document']
BOUNDS = 'scenes of at most 4 items; coordinates <= 50; drawings of at most 2x2 tiles; scope transformations: translations, quarter turns and mirrors'
BOUNDS += '; also thirteen items with z values of one to three digits; coordinates up to 20000 with a fixed offset'
ASSUMPTIONS = ['ezdxf, reportlab and matplotlib are modelled by recorders with their interface; counterexamples are replayed with the real libraries',
               'fonts, text anchors and radii of dots are not examined; PDF line styles are not implemented by Patro; DXF has no dots']
META = dict(
    title='Painters draw every visible item at its place and in order, or fail',
    statement="""A scene painted to SVG, DXF, PDF, TeX or Matplotlib has one drawing per visible item, by increasing z value then order of addition, with its text, its end points and its control points
    where they are in the scene (named or not, moved by the transformation of the scope): in mm on the page from the upper left corner of the bounding box for SVG, in mm for DXF, at one scale with the lower
    left corner of the bounding box at 1 cm from the corner of the page for PDF, in scene units for TeX (to 2 decimals) and Matplotlib. Colours and line widths are those of the item (DXF: colours), dashed
    styles are not drawn solid, items without pen or colour are invisible; items which cannot be drawn raise NotImplementedError. Tiled TeX documents have a clipped figure per tile at true scale.""",
    quant='all scenes of supported items',
    why='orientation, scale and order errors show up for particular boxes, z values and styles',
    files=['Patro/GraphicEngine/Painter/' + m for m in ('Painter.py', 'SvgPainter.py', 'DxfPainter.py', 'PdfPainter.py', 'MplPainter.py', 'TexPainter.py')] + ['Patro/GraphicEngine/TeX/Tikz.py', 'Patro/GraphicEngine/TeX/Document.py',
        'Patro/GraphicEngine/TeX/Buffer.py', 'Patro/GraphicEngine/TeX/Environment.py'],
    mechanism=[('paint, cast_position', 'Patro/GraphicEngine/Painter/Painter.py'), ('_graphic_style', 'Patro/GraphicEngine/Painter/SvgPainter.py'), ('_graphic_style, _format_position', 'Patro/GraphicEngine/Painter/TexPainter.py')])
P = 'C36'
ALL = ['svg', 'dxf', 'pdf', 'mpl', 'tex']


class Scratch:

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='patro-c36-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def v2(*a):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(*a)


def style(**k):
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, GraphicBezierStyle
    return GraphicBezierStyle(**k)


class Builder:
    """a scene whose items have no user data"""

    def __init__(self, transformation=None):
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        self.scene = GraphicScene(transformation)

    def __getattr__(self, name):
        f = getattr(self.scene, name)
        if name in ('segment', 'cubic_bezier', 'text', 'circle', 'ellipse', 'quadratic_bezier', 'polyline', 'polygon', 'add_as_path'):
            return lambda *a: f(*a, user_data=None)
        return f


    def box(self, x0, x1, y0, y1):
        """the users of scenes set their bounding box"""
        from IntervalArithmetic import Interval2D
        self.scene.bounding_box = Interval2D((x0, x1), (y0, y1))
        return x0, x1, y0, y1


def new_scene(transformation=None):
    return Builder(transformation)


def paper(size='A4', margin=10):
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    return PaperSize(size, 'portrait', margin)


class Drawn:

    def __init__(self, kind, points, **k):
        self.kind, self.points = kind, points
        self.text = self.color = self.width = None      # color: (r, g, b), None if invisible
        self.dashed = False
        self.__dict__.update(k)


NUMBER = r'[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?'


def rgb(text):
    return tuple(int(text[i:i+2], 16) for i in (1, 3, 5))


# -- readers ---------------------------------------------------------------------------------------

def paint_svg(ctx, scene, page, path, **k):
    from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
    path = os.path.join(path, 'out.svg')
    SvgPainter(path, scene, page)
    root = ElementTree.parse(path).getroot()
    for a, b in zip([root.attrib['width'][:-2], root.attrib['height'][:-2]] + root.attrib['viewBox'].split(), [page.width, page.height, 0, 0, page.width, page.height]):
        ctx.check(ctx.and_(ctx.num(a) - b <= 0.0006, b - ctx.num(a) <= 0.0006), 'size of the page, a unit is a millimetre')
    ctx.is_((root.attrib['width'][-2:], root.attrib['height'][-2:]), ('mm', 'mm'), 'unit')
    got = []
    for e in root.iter():
        tag = e.tag.split('}')[-1] if isinstance(e.tag, str) else None
        a = e.attrib
        n = lambda *names: [(ctx.num(a[x]), ctx.num(a[y])) for x, y in zip(names[::2], names[1::2])]
        if tag == 'line':
            d = Drawn('segment', n('x1', 'y1', 'x2', 'y2'))
        elif tag == 'circle':
            got.append(Drawn('circle', n('cx', 'cy')))
            continue
        elif tag == 'text':
            got.append(Drawn('text', n('x', 'y'), text=e.text))
            continue
        elif tag == 'path':
            numbers = [ctx.num(x) for x in re.findall(NUMBER, a['d'])]
            letters = re.sub(NUMBER, '', a['d']).replace(',', '').replace(' ', '')
            kind = {'MC': 'cubic', 'ML': 'segment', 'M': 'segment'}.get(letters)
            if kind is None:
                ctx.fail('path', a['d'])
            d = Drawn(kind, list(zip(numbers[::2], numbers[1::2])))
            ctx.is_(a.get('fill'), 'none', 'a curve is not filled')
        else:
            continue
        if a.get('stroke', 'none') != 'none':
            d.color, d.width, d.dashed = rgb(a['stroke']), ctx.num(a['stroke-width']), bool(a.get('stroke-dasharray'))
        got.append(d)
    return got


def paint_dxf(ctx, scene, page, path, version=None, **k):
    from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
    path = os.path.join(path, 'out.dxf')
    if version:
        DxfPainter(path, scene, page, dxf_version=version)
    else:
        DxfPainter(path, scene, page)
    if ctx.symbolic:
        doc = painter_stubs.SAVED[path]
    else:
        import ezdxf
        doc = ezdxf.readfile(path)
    if version:
        import ezdxf as real
        ctx.is_(doc.dxfversion, real.new(version).dxfversion, 'DXF version')
    got = []
    for e in doc.modelspace():
        kind = e.dxftype()
        if kind == 'LINE':
            d = Drawn('segment', [tuple(e.dxf.start)[:2], tuple(e.dxf.end)[:2]])
        elif kind == 'SPLINE':
            points = [tuple(p) for p in e.control_points]
            ctx.is_((e.dxf.degree, len(points)), (3, 4), 'cubic')
            for p in points:
                ctx.eq(p[2], 0, 'z')
            d = Drawn('cubic', [(p[0], p[1]) for p in points])
        elif kind == 'TEXT':
            _, p, _ = e.get_placement()
            got.append(Drawn('text', [tuple(p)[:2]], text=e.dxf.text))
            continue
        else:
            ctx.fail('DXF entity', kind)
        lt = e.dxf.linetype
        ctx.check(lt.upper() in [l.dxf.name.upper() for l in doc.linetypes], f'line type {lt}')
        if e.dxf.hasattr('true_color'):
            import ezdxf as real
            d.color = tuple(real.colors.int2rgb(e.dxf.true_color))
        else:
            d.color = {0: (0, 0, 0), 7: (0, 0, 0), 256: (0, 0, 0)}.get(e.dxf.color)
        d.dashed = lt.upper() != 'CONTINUOUS'
        got.append(d)
    return got


def paint_pdf(ctx, scene, page, path, driver=None, **k):
    path = os.path.join(path, 'out.pdf')
    if not ctx.symbolic:
        record_canvas()
    from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
    if driver:
        PdfPainter(path, scene, page, driver=driver)
    else:
        PdfPainter(path, scene, page)
    c = (painter_stubs.SAVED if ctx.symbolic else RECORDS)[path]
    ctx.is_([round(x, 6) for x in c.pagesize], [round(x * 72 / 25.4, 6) for x in (page.width, page.height)], 'size of the page')
    ctx.check(c.entries[-1][0] == 'page' and c.pages == 1 and c.saved, 'one page')
    return [Drawn(kind, points, **k) for kind, points, k in c.entries[:-1]]


RECORDS = {}


def record_canvas():
    """the real canvas, which also records"""
    from reportlab.pdfgen import canvas
    real = canvas.Canvas
    if hasattr(real, 'entries_of'):
        return

    class Canvas(real):
        entries_of = True

        def __init__(self, path, *a, pagesize=None, **k):
            self.entries, self.pages, self.saved = [], 0, False
            RECORDS[str(path)] = self
            real.__init__(self, path, *a, pagesize=pagesize, **k)
            self.pagesize = pagesize

        def _add(self, kind, *xy, **k):
            self.entries.append((kind, [self.absolutePosition(x, y) for x, y in zip(xy[::2], xy[1::2])], k))

        def line(self, *xy):
            self._add('segment', *xy)
            real.line(self, *xy)

        def bezier(self, *xy):
            self._add('cubic', *xy)
            real.bezier(self, *xy)

        def drawString(self, x, y, text, *a, **k):
            self._add('text', x, y, text=text)
            real.drawString(self, x, y, text, *a, **k)

        def circle(self, x_cen, y_cen, r, *a, **k):
            self._add('circle', x_cen, y_cen)
            real.circle(self, x_cen, y_cen, r, *a, **k)

        def showPage(self):
            if not self.saved:
                self.pages += 1
                self.entries.append(('page', [], {}))
            real.showPage(self)

        def save(self):
            self.saved = True
            real.save(self)

    canvas.Canvas = Canvas


def paint_mpl(ctx, scene, page, path, **k):
    if not ctx.symbolic:
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib import pyplot as plt
    else:
        plt = painter_stubs.PYPLOT
    from Patro.GraphicEngine.Painter.MplPainter import MplPainter
    MplPainter(scene, page)
    axes, = plt.gcf().axes
    ctx.is_(axes.get_aspect(), 1, 'the same scale on both axes')
    box = scene.bounding_box
    for (a, b), i in ((axes.get_xlim(), box.x), (axes.get_ylim(), box.y)):
        ctx.check(a <= i.inf, 'limits')
        ctx.check(b >= i.sup, 'limits')
    got = []
    for p in axes.patches:
        if hasattr(p, 'center'):
            got.append(Drawn('circle', [tuple(p.center)]))
            continue
        vertices, codes = p.get_path().vertices, list(p.get_path().codes)
        kind = {(1, 2): 'segment', (1, 4, 4, 4): 'cubic'}.get(tuple(int(c) for c in codes))
        if kind is None:
            ctx.fail('path', str(codes))
        d = Drawn(kind, [tuple(v) for v in vertices])
        *color, alpha = p.get_edgecolor()
        if alpha:
            ls = p.get_linestyle()
            ctx.check(ls not in ('None', ' ', '', 'none'), 'visible line style')
            d.color, d.width, d.dashed = tuple(round(255 * c) for c in color), p.get_linewidth(), ls not in ('solid', '-')
        got.append(d)
    for t in axes.texts:
        got.append(Drawn('text', [tuple(t.get_position())], text=t.get_text()))
    plt.close('all')
    return got


TEX_POINT = r'\((?:[^()]*)\)'


def tex_figures(ctx, text):
    """-> preamble, [(options, [line])]"""
    m = re.fullmatch(r'(.*?)\\begin\{document\}(.*)\\end\{document\}\n?', text, re.S)
    ctx.check(m is not None, 'document')
    figures = re.findall(r'\\begin\{center\}\n\\begin\{tikzpicture\}(?:\[(.*?)\])?\n(.*?)\\end\{tikzpicture\}\n\\end\{center\}\n', m.group(2), re.S)
    ctx.is_(m.group(2).count(r'\begin{'), 2 * len(figures), 'environments')
    return m.group(1), [(o, [l.strip() for l in t.splitlines() if l.strip()]) for o, t in figures]


def tex_drawings(ctx, lines):
    names = {}
    got, other = [], []

    def point(t):
        t = t[1:-1]
        if t in names:
            return names[t]
        x, y = t.split(',')
        return ctx.num(x), ctx.num(y)

    for l in lines:
        m = re.fullmatch(r'\\coordinate \((\w+)\) at (%s);' % TEX_POINT, l)
        if m:
            names[m.group(1)] = point(m.group(2))
            continue
        m = re.fullmatch(r'\\draw\[\] *(%s) *node\[.*?\] *\{(.*)\};' % TEX_POINT, l)
        if m:
            got.append(Drawn('text', [point(m.group(1))], text=m.group(2)))
            continue
        m = re.fullmatch(r'\\fill *\[black\] *(%s) circle \(.*?\);' % TEX_POINT, l)
        if m:
            got.append(Drawn('circle', [point(m.group(1))]))
            continue
        m = re.fullmatch(r'\\draw\[(.*?)\] *(%s.*);' % TEX_POINT, l)
        if m and m.group(1) != 'clip':
            options, path = m.groups()
            p = [point(t) for t in re.findall(TEX_POINT, path)]
            shape = re.sub(TEX_POINT, 'P', path).replace(' ', '')
            kind = {'P--P': 'segment', 'P..controlsPandP..P': 'cubic'}.get(shape)
            if kind is None:
                ctx.fail('path', path)
            d = Drawn(kind, p)
            if 'draw=none' not in options:
                c = re.search(r'color=\{rgb,255:red,(\d+);green,(\d+);blue,(\d+)\}', options)
                n = re.search(r'(?:^|[ ,=])(black|red|blue)(?:,|$)', options)
                d.color = tuple(map(int, c.groups())) if c else {'black': (0, 0, 0), 'red': (255, 0, 0), 'blue': (0, 0, 255)}.get(n and n.group(1), 'unknown')
                d.width = ctx.num(re.search(r'line width=(%s)' % NUMBER, options).group(1))
                d.dashed = 'dash' in options or 'dott' in options
            got.append(d)
            continue
        other.append(l)
    return got, other


def paint_tex(ctx, scene, page, path, **k):
    from Patro.GraphicEngine.Painter.TexPainter import TexPainter
    path = os.path.join(path, 'out.tex')
    painter = TexPainter(path, scene, page)
    painter.add_detail_figure()
    preamble, figures = tex_figures(ctx, tex_text(painter))
    ctx.check(rf'paper={page.name.lower()}paper' in preamble and f'margin={page.margin}mm' in preamble, 'paper')
    (options, lines), = figures
    x, y = re.fullmatch(r'x=(.*)mm,y=(.*)mm', options).groups()
    ctx.is_(x, y, 'the same scale on both axes')
    got, other = tex_drawings(ctx, lines)
    ctx.is_(other, [], 'other statements')
    return got


def tex_text(painter):
    document = painter._document
    document.write()
    with open(document.tex_filename) as f:
        return f.read()


PAINT = {'svg': paint_svg, 'dxf': paint_dxf, 'pdf': paint_pdf, 'mpl': paint_mpl, 'tex': paint_tex}


def paint(ctx, painter, scene, page=None, **k):
    with Scratch() as path:
        return PAINT[painter](ctx, scene.scene, page or paper(), path, **k)


def to_page(ctx, painter, box, p):
    """place on the page of a point of the scene; box: (xinf, ysup)"""
    x, y = p
    if painter == 'svg':
        return 10 * (x - box[0]), 10 * (box[1] - y)
    if painter == 'dxf':
        return 10 * x, 10 * y
    return x, y


def compare(ctx, painter, box, got, exp):
    """box: x inf, x sup, y inf, y sup of the scene"""
    if painter == 'dxf':
        exp = [e for e in exp if e[0] != 'circle']
    if painter == 'mpl':        # texts are above
        exp = [e for e in exp if e[0] != 'text'] + [e for e in exp if e[0] == 'text']
    ctx.is_([(d.kind, d.text) for d in got], [(k, t) for k, _, t in exp], f'{painter}: drawings in order')
    if painter == 'pdf':
        pairs = [(g, e) for d, (_, points, _) in zip(got, exp) for g, e in zip(d.points, points)]
        cm = 72 / 2.54
        (g0, e0) = pairs[0]
        gx, ex = pdf_scale(ctx, pairs)
        near = lambda a, b, label: ctx.check(ctx.and_(a - b <= 1e-4 * cm, b - a <= 1e-4 * cm), label)
        for (x, y), (u, v) in pairs:
            near((x - cm) * ex, (u - box[0]) * gx, 'pdf: x')
            near((y - cm) * ex, (v - box[2]) * gx, 'pdf: y')
        return
    for d, (_, points, _) in zip(got, exp):
        ctx.is_(len(d.points), len(points), f'{painter}: number of points')
        for g, e in zip(d.points, points):
            for a, b, axis in zip(g, to_page(ctx, painter, (box[0], box[3]), e), 'xy'):
                if painter == 'tex':
                    ctx.check(ctx.and_(a - b <= 0.00501, b - a <= 0.00501), f'tex: {axis}')
                else:
                    ctx.eq(a, b, f'{painter}: {axis}')


def pdf_scale(ctx, pairs):
    """a length of the page and the one of the scene"""
    (g0, e0), (g1, e1) = pairs[:2]
    gx, ex = g1[0] - g0[0], e1[0] - e0[0]
    ctx.check(gx * ex > 0, 'pdf: scale')
    ctx.check(gx * gx <= (ex * 72 / 2.54) * (ex * 72 / 2.54) * 1.0001, 'pdf: not larger than the scene')
    return gx, ex


# -- harnesses --------------------------------------------------------------------------------------

@harness(P, params=[{'painter': p} for p in ALL], budget=40)
def geometry(ctx, painter):
    scene = new_scene()
    s = style()
    x, y = ctx.real('x', -50, 50), ctx.real('y', -50, 50)
    far = ctx.choose('far', [0, 1200, -20000])
    x, y = x + far, y - far
    w, h = ctx.real('w', 10, 40), ctx.real('h', 10, 40)
    up = ctx.choose('up', [True, False])
    a, b = ((x, y), (x + w, y + h)) if up else ((x, y + h), (x + w, y))
    u, v = ctx.real('u', 3, 6), ctx.real('v', 3, 6)
    c = [(x + u, y + v), (x + u + 1, y + v + 2), (x + u + 2, y + v - 1), (x + 9, y + v)]
    t, d = (x + v, y + u), (x + u, y + u)
    scene.segment(v2(*a), v2(*b), s)
    scene.cubic_bezier(*[v2(*p) for p in c], s)
    scene.text(v2(*t), 'Label A1', None)
    scene.circle(v2(*d), 1, s)
    exp = [('segment', [a, b], None), ('cubic', c, None), ('text', [t], 'Label A1'), ('circle', [d], None)]
    k = {}
    if painter == 'dxf':
        k['version'] = ctx.choose('version', [None, 'R2000', 'R2018'])
    if painter == 'pdf':
        k['driver'] = ctx.choose('driver', [None, 'reportlab'])
    compare(ctx, painter, scene.box(x, x + w, y, y + h), paint(ctx, painter, scene, paper(ctx.choose('paper', ['A4', 'B3'])), **k), exp)


@harness(P, params=[{'painter': p} for p in ALL], budget=40)
def order(ctx, painter):
    scene = new_scene()
    s = style()
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)
    exp, items = [], []
    kinds = ctx.choose('kinds', [('segment', 'segment', 'text', 'cubic'), ('text', 'cubic', 'segment', 'text')])
    for i, kind in enumerate(kinds):
        p = [(x + i, y), (x + 10 + i, y + 10), (x + 5, y + i), (x + 3, y + 4)]
        if kind == 'segment':
            items.append(scene.segment(*[v2(*q) for q in p[:2]], s))
            exp.append((kind, p[:2], None))
        elif kind == 'text':
            items.append(scene.text(v2(*p[0]), f'T{i}', None))
            exp.append((kind, p[:1], f'T{i}'))
        else:
            items.append(scene.cubic_bezier(*[v2(*q) for q in p], s))
            exp.append((kind, p, None))
    z = ctx.choose('z', [(0, 0, 0, 0), (3, 2, 1, 0), (1, 0, 1, 0), (-1, 5, -2, 5)])
    for i, k in zip(items, z):
        i.z_value = k
    hidden = ctx.choose('hidden', [None, 1, 3])
    if hidden is not None:
        items[hidden].visible = False
    exp = [exp[i] for i in sorted(range(4), key=lambda i: (z[i], i)) if i != hidden]
    box = scene.box(x, x + 14, y, y + 14)
    if painter == 'pdf':    # a scale from two distinct points
        got = paint(ctx, painter, scene)
        ctx.is_([(d.kind, d.text) for d in got], [(k, t) for k, _, t in exp], 'pdf: drawings in order')
        return
    compare(ctx, painter, box, paint(ctx, painter, scene), exp)


@harness(P, params=[{'painter': p} for p in ALL], budget=40)
def many(ctx, painter):
    """a dozen of items, z values of several digits"""
    scene = new_scene()
    s = style()
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)
    z = ctx.choose('z', [[0, 10, 9, 2, 100, -1, -10, 0.5, 0, 1, 11, 10, -2], [0] * 13, list(range(13, 0, -1))])
    exp = []
    for i in range(13):
        kind = ('segment', 'text', 'cubic')[i % 3]
        p = [(x + i, y), (x + 20 + i, y + 10), (x + 5, y + i), (x + 3, y + 4)][:dict(segment=2, text=1, cubic=4)[kind]]
        q = [v2(*i) for i in p]
        item = scene.segment(*q, s) if kind == 'segment' else scene.text(*q, f'T{i}', None) if kind == 'text' else scene.cubic_bezier(*q, s)
        item.z_value = z[i]
        exp.append((kind, p, f'T{i}' if kind == 'text' else None))
    exp = [exp[i] for i in sorted(range(13), key=lambda i: (z[i], i))]
    box = scene.box(x, x + 32, y, y + 12)
    got = paint(ctx, painter, scene)
    if painter == 'pdf':
        ctx.is_([(d.kind, d.text) for d in got], [(k, t) for k, _, t in exp], 'pdf: drawings in order')
        return
    compare(ctx, painter, box, got, exp)


@harness(P, params=[{'painter': p} for p in ALL], budget=40)
def names(ctx, painter):
    """named coordinates, transformation of the scope"""
    from Patro.GeometryEngine.Transformation import AffineTransformation2D as T
    x, y, w, h = ctx.real('x', -9, 9), ctx.real('y', -9, 9), ctx.real('w', 5, 9), ctx.real('h', 5, 9)
    i, j = ctx.real('i', -9, 9), ctx.real('j', -9, 9)
    k = ctx.choose('transformation', ['none', 'translation', 'quarter', 'mirror'])
    f = {'none': lambda p: p, 'translation': lambda p: (p[0] + i, p[1] + j), 'quarter': lambda p: (-p[1], p[0]), 'mirror': lambda p: (p[0], -p[1])}[k]
    t = {'none': None, 'translation': T.Translation(v2(i, j)), 'quarter': T.Rotation(90), 'mirror': T.XReflection() if k == 'mirror' and False else T.Scale(1, -1)}[k]
    scene = new_scene(t)
    s = style()
    a, b, c = (x, y), (x + w, y + h), (x + 2, y + 3)
    scene.add_coordinate('A', v2(*a))
    scene.add_coordinate('B', v2(*b))
    scene.segment('A', v2(*b), s)
    scene.cubic_bezier(v2(*a), v2(*c), 'B', 'A', s)
    scene.text('B', 'b', None)
    exp = [('segment', [a, b], None), ('cubic', [a, c, b, a], None), ('text', [b], 'b')]
    exp = [(kind, [f(p) for p in points], txt) for kind, points, txt in exp]
    (x0, y0), (x1, y1) = f(a), f(b)
    box = {'quarter': (x1, x0, y0, y1), 'mirror': (x0, x1, y1, y0)}.get(k, (x0, x1, y0, y1))
    scene.box(*box)
    compare(ctx, painter, box, paint(ctx, painter, scene), exp)


COLORS = [('black', (0, 0, 0)), ('blue', (0, 0, 255)), ('#12ab9f', (0x12, 0xab, 0x9f)), ('coral', None), ('dark_teal', None), (None, None)]


@harness(P, params=[{'painter': p} for p in ALL if p != 'pdf'], budget=40)
def styles(ctx, painter):
    from Patro.GraphicStyle import StrokeStyle, Colors
    name, color = ctx.choose('color', COLORS)
    if name is not None and color is None:
        c = Colors.ensure_color(name)
        color = c.red, c.green, c.blue
    stroke = ctx.choose('stroke', ['NoPen', 'SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine'])
    width = ctx.real('width', 0.1, 10)
    s = style(stroke_style=StrokeStyle[stroke], stroke_color=name, line_width=width)
    scene = new_scene()
    if ctx.choose('curve', [True, False]):
        scene.cubic_bezier(v2(0, 0), v2(1, 2), v2(3, 4), v2(7, 0), s)
    else:
        scene.segment(v2(0, 0), v2(3, 4), s)
    scene.segment(v2(5, 0), v2(3, 4), style())
    scene.box(0, 9, 0, 9)
    d, other = paint(ctx, painter, scene)
    ctx.is_((other.color, other.dashed), ((0, 0, 0), False), f'{painter}: style of another item')
    if painter == 'dxf':    # construction lines
        ctx.is_(d.dashed, stroke != 'SolidLine' or name is None, 'dxf: line type')
        if name is not None:
            ctx.is_(d.color, color, 'dxf: colour')
        return
    if stroke == 'NoPen' or name is None:
        ctx.is_(d.color, None, f'{painter}: invisible')
    else:
        ctx.is_(d.color, color, f'{painter}: colour')
        ctx.is_(d.dashed, stroke != 'SolidLine', f'{painter}: line style')
        ctx.eq(d.width, width, f'{painter}: line width')


@harness(P, params=[{'painter': p} for p in ALL])
def unsupported(ctx, painter):
    scene = new_scene()
    s = style()
    x = ctx.real('x', -9, 9)
    p, q, r = v2(x, 0), v2(x + 10, 3), v2(x + 5, 7)
    scene.segment(p, q, s)
    kind = ctx.choose('kind', ['ellipse', 'quadratic', 'polyline', 'polygon', 'path'])
    if kind == 'ellipse':
        i = scene.ellipse(p, 2, 1, 0, s)
    elif kind == 'quadratic':
        i = scene.quadratic_bezier(p, q, r, s)
    elif kind == 'polyline':
        i = scene.polyline([p, q, r], s)
    elif kind == 'polygon':
        i = scene.polygon([p, q, r], s)
    else:
        from Patro.GeometryEngine.Path import Path2D
        path = Path2D(p)
        path.line_to(q)
        i = scene.add_as_path(path, s)
    scene.box(0, 9, 0, 9)
    ctx.raises(NotImplementedError, lambda: paint(ctx, painter, scene), f'{painter}: {kind}')
    i.visible = False
    got = paint(ctx, painter, scene)
    ctx.is_([d.kind for d in got], ['segment'], f'{painter}: hidden {kind}')


@harness(P, budget=60)
def tiles(ctx):
    from Patro.GraphicEngine.Painter.TexPainter import TexPainter
    import IntervalArithmetic
    if ctx.symbolic:    # for the log
        IntervalArithmetic.Interval.__str__ = lambda self: f'[{self.inf}, {self.sup}]'
    x, y = ctx.real('x', -20, 20), ctx.real('y', -20, 20)
    w, h = ctx.choose('size', [(10, 20), (30, 20), (30, 40)])
    scene = new_scene()
    scene.add_coordinate('A', v2(x, y))
    scene.segment('A', v2(x + w, y + h), style())
    scene.text(v2(x + 1, y), 'X', None)
    scene.box(x, x + w, y, y + h)
    with Scratch() as path:
        painter = TexPainter(os.path.join(path, 'tiles.tex'), scene.scene, paper())
        painter.add_tiled_detail_figure()
        _, figures = tex_figures(ctx, tex_text(painter))
    page = paper()
    aw, ah = (page.width - 24) / 10, (page.height - 24) / 10
    columns, rows = 1 + (w + 2 > aw), 1 + (h + 2 > ah)
    ctx.is_(len(figures), rows * columns, 'figures')
    near = lambda a, b, label: ctx.check(ctx.and_(a - b <= 0.00501, b - a <= 0.00501), label)
    for n, (options, lines) in enumerate(figures):
        r, c = divmod(n, columns)
        ctx.is_(options, 'x=10mm,y=10mm', 'true scale')
        clips = [i for i, l in enumerate(lines) if l.startswith(r'\draw[clip]')]
        ctx.is_(len(clips), 1, 'clip path')
        corners = re.findall(r'\(([^()]*),([^()]*)\)', lines[clips[0]])
        ctx.check(len(corners) == 4 and lines[clips[0]].endswith('cycle;'), 'closed clip path')
        x0, y0 = x - 1 + c * aw, y - 1 + r * ah
        for (a, b), (e, f) in zip(corners, [(x0, y0), (x0 + aw, y0), (x0 + aw, y0 + ah), (x0, y0 + ah)]):
            near(ctx.num(a), e, 'clip x')
            near(ctx.num(b), f, 'clip y')
        label, _ = tex_drawings(ctx, lines[:clips[0]])
        ctx.is_([(d.kind, d.text) for d in label], [('text', f'{r+1}, {c+1}')], 'label')
        a, b = label[0].points[0]
        ctx.check(ctx.and_(a >= x0, a <= x0 + aw, b >= y0, b <= y0 + ah), 'the label is in the tile')
        got, other = tex_drawings(ctx, lines[clips[0] + 1:])
        ctx.is_(other, [], 'statements')
        ctx.is_([(d.kind, d.text) for d in got], [('segment', None), ('text', 'X')], 'items of the scene')
        for (a, b), (e, f) in zip(got[0].points + got[1].points, [(x, y), (x + w, y + h), (x + 1, y)]):
            near(a, e, 'x')
            near(b, f, 'y')


@harness(P)
def documents(ctx):
    from Patro.GraphicEngine.TeX.Document import Document
    with Scratch() as path:
        name = ctx.choose('name', ['abc', 'abc.tex', 'a', 'a.tex', 'x.tex.tex', 'texture', 'drawing.pdf'])
        base = name[:-4] if name.endswith('.tex') else name
        d = Document(os.path.join(path, name), 'article', '12pt')
        ctx.is_((d.tex_filename, d.pdf_filename, d.output_directory), (os.path.join(path, base + '.tex'), os.path.join(path, base + '.pdf'), path), 'file names')
        d.preambule.append('P')
        d.content.append(['Q', 'R'])
        d.newpage()
        d.write()
        with open(os.path.join(path, base + '.tex')) as f:
            text = f.read()
        ctx.is_(text, '\\documentclass[12pt]{article}\nP\\begin{document}\nQR\\newpage\n\\end{document}\n', 'document')
        ctx.is_(Document(name, 'article').tex_filename, base + '.tex', 'relative name')
        x = ctx.real('x', -9, 9)
        t = Document._format('{a}«0.real»{«1»}', x if not ctx.symbolic else type('X', (), {'real': x})(), name)
        ctx.is_(t[-len(name)-2:], '{' + name + '}', 'braces')
        ctx.eq(ctx.num(t[3:-len(name)-2]), x, 'value')
