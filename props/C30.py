"""Units, graphic styles, textile data."""
import itertools
import os
import tempfile

from engine.harness import harness

MODULES = ['Patro.GraphicEngine.GraphicScene.TypographyUnit', 'Patro.GraphicEngine.GraphicScene.GraphicStyle', 'Patro.TextileTechnology.Yarn', 'Patro.TextileTechnology.Fabric',
           'Patro.TextileTechnology.Fiber', 'Patro.TextileTechnology.Needle', 'Patro.TextileTechnology.Seam', 'Patro.TextileTechnology.StitchType', 'Patro.Pattern.SketchStyle']
BOUNDS = 'all lengths of magnitude <= 1000, chains of up to 3 conversions; all attribute values of a style'
META = dict(
    title='Length and yarn units convert exactly; styles and textile data keep their values',
    statement="""One inch is 25.4 mm and 72 points, whatever the chain of conversions between InchUnit, MmUnit and PointUnit, and a unit converted to itself is unchanged. The denier of a yarn is its weight in grams
    for 9 km, tex for 1 km, and the metric number is the length in metres of one gram; the conversion functions are inverse of each other. Graphic path and Bézier styles have the given attributes (colours
    given as a name, a text or a colour) and documented defaults; a clone has the same attributes and is independent. Yarns, fabrics, fibres, needles, seams and stitch types have the data which they are given,
    and the database of fibres contains the fibres of its file.""",
    quant='all values of lengths, weights and style attributes',
    why='conversion factors are never used by the tests; a dropped attribute of a copy shows only for non default values',
    files=['Patro/GraphicEngine/GraphicScene/TypographyUnit.py', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py', 'Patro/TextileTechnology/Yarn.py', 'Patro/TextileTechnology/Fabric.py',
           'Patro/TextileTechnology/Fiber.py', 'Patro/TextileTechnology/StitchType.py', 'Patro/TextileTechnology/Database.py'],
    mechanism=[('TypographyUnit', 'Patro/GraphicEngine/GraphicScene/TypographyUnit.py'), ('GraphicPathStyle.clone', 'Patro/GraphicEngine/GraphicScene/GraphicStyle.py'),
               ('tex2den, tex2nm', 'Patro/TextileTechnology/Yarn.py')])
P = 'C30'
UNITS = ('mm', 'inch', 'point')


def unit(name, x):
    from Patro.GraphicEngine.GraphicScene import TypographyUnit as T
    return {'mm': T.MmUnit, 'inch': T.InchUnit, 'point': T.PointUnit}[name](x)


def number(u):
    return u.__float__()


@harness(P, params=[{'a': a} for a in UNITS])
def conversions(ctx, a):
    """value = unit * factor"""
    f = {'mm': ctx.frac(254, 10), 'inch': 1, 'point': 72}   # per inch
    x = ctx.real('x', -1000, 1000)
    u = unit(a, x)
    ctx.eq(number(u), x, 'value')
    for n in (1, 2, 3):
        for chain in itertools.product(UNITS, repeat=n):
            v = u
            for k in chain:
                v = getattr(v, 'to_' + k)()
            ctx.eq(number(v), x * f[chain[-1]] / f[a], 'converted to ' + ' '.join(chain))
            ctx.check(type(v) is type(unit(chain[-1], 0)), 'type')
    ctx.eq(number(u), x, 'the unit is not modified')


@harness(P)
def yarn(ctx):
    from Patro.TextileTechnology import Yarn as Y
    grams, km = ctx.real('grams', 0.01, 1000), ctx.real('km', 0.01, 100)
    tex = grams / km
    y = Y.Yarn('cotton', 'white', tex)
    ctx.eq(y.tex, tex, 'tex: grams per km')
    ctx.eq(y.denier, 9 * grams / km, 'denier: grams per 9 km')
    ctx.eq(y.nm, 1000 * km / grams, 'metric number: metres per gram')
    ctx.eq(Y.tex2den(tex), 9*tex, 'tex2den')
    ctx.eq(Y.den2tex(Y.tex2den(tex)), tex, 'den2tex is the inverse of tex2den')
    ctx.eq(Y.nm2tex(Y.tex2nm(tex)), tex, 'nm2tex is the inverse of tex2nm')
    ctx.eq(Y.tex2den(Y.den2tex(tex)), tex, 'tex2den is the inverse of den2tex')
    ctx.check(y.fiber == 'cotton' and y.color == 'white' and y.twist_type is None, 'data')
    for t in Y.TwistType:
        ctx.check(Y.Yarn('wool', None, tex, t).twist_type is t, 'twist')
    ctx.raises(ValueError, lambda: Y.Yarn('wool', None, tex, 'X'), 'unknown twist')


STYLE = ('stroke_style', 'line_width', 'stroke_color', 'stroke_alpha', 'fill_color', 'fill_alpha', 'cap_style', 'join_style')


def style_values(ctx, n=''):
    from Patro.GraphicStyle import StrokeStyle, CapStyle, JoinStyle
    return dict(stroke_style=ctx.choose('stroke_style' + n, [StrokeStyle.DashLine, StrokeStyle.NoPen]),
                line_width=ctx.real('line_width' + n, 0, 10), stroke_alpha=ctx.real('stroke_alpha' + n, 0, 1), fill_alpha=ctx.real('fill_alpha' + n, 0, 1),
                cap_style=ctx.choose('cap_style' + n, [CapStyle.FlatCap, CapStyle.RoundCap]), join_style=ctx.choose('join_style' + n, [JoinStyle.MiterJoin, JoinStyle.RoundJoin]),
                **{k: ctx.choose(k + n, ['red', '#102030', None] if k == 'fill_color' else ['blue', '#a0b0c0']) for k in ('stroke_color', 'fill_color')})


def check_style(ctx, s, want, label):
    from Patro.GraphicStyle import Colors
    for k, v in want.items():
        got = getattr(s, k)
        if k.endswith('color'):
            c = Colors.ensure_color(v)
            ctx.check(got is None if c is None else got == c, f'{label} {k}')
        elif k in ('line_width', 'stroke_alpha', 'fill_alpha'):
            ctx.eq(got, v, f'{label} {k}')
        else:
            ctx.check(got is v, f'{label} {k}')


def make_style(kind, **k):
    from Patro.GraphicEngine.GraphicScene import GraphicStyle as G
    return getattr(G, kind)(**k)


KINDS = [{'kind': k} for k in ('GraphicPathStyle', 'GraphicBezierStyle')]


@harness(P, params=KINDS)
def style(ctx, kind):
    want = style_values(ctx)
    if kind == 'GraphicBezierStyle':
        want.update(show_control=ctx.choose('show', [True, False]), control_color=ctx.choose('cc', ['red', None]))
    s = make_style(kind, **want)
    check_style(ctx, s, want, 'style')
    c = s.clone()
    ctx.check(type(c) is type(s) and c is not s, 'clone')
    check_style(ctx, c, want, 'clone')
    ctx.eq(s.line_width_as_float, want['line_width'], 'line width')


@harness(P, params=KINDS)
def clone_is_independent(ctx, kind):
    from Patro.GraphicStyle import StrokeStyle, CapStyle, JoinStyle
    want = dict(stroke_style=StrokeStyle.DotLine, line_width=ctx.real('w', 0, 10), stroke_alpha=ctx.real('a', 0, 1), fill_alpha=ctx.real('b', 0, 1), stroke_color='red', fill_color='green',
                cap_style=CapStyle.FlatCap, join_style=JoinStyle.MiterJoin)
    s = make_style(kind, **want)
    c = s.clone()
    k = ctx.choose('k', STYLE)
    new = dict(stroke_style=StrokeStyle.DashLine, line_width=ctx.real('w2', 0, 10), stroke_alpha=ctx.real('a2', 0, 1), fill_alpha=ctx.real('b2', 0, 1), stroke_color='blue', fill_color=None,
               cap_style=CapStyle.RoundCap, join_style=JoinStyle.RoundJoin)
    setattr(c, k, new[k])
    check_style(ctx, s, want, 'original')
    check_style(ctx, c, dict(want, **{k: new[k]}), 'modified')
    setattr(s, k, new[k])
    check_style(ctx, s, dict(want, **{k: new[k]}), 'modified original')


@harness(P, params=KINDS)
def style_defaults(ctx, kind):
    from Patro.GraphicStyle import StrokeStyle, CapStyle, JoinStyle
    want = dict(stroke_style=StrokeStyle.SolidLine, line_width=1, stroke_color='black', stroke_alpha=1, fill_color=None, fill_alpha=1, cap_style=CapStyle.SquareCap, join_style=JoinStyle.BevelJoin)
    if kind == 'GraphicBezierStyle':
        want.update(show_control=False, control_color=None)
    check_style(ctx, make_style(kind), want, 'default')
    for k, v in (('stroke_color', 'red'), ('fill_color', 'green'), ('line_width', 3), ('stroke_alpha', .5), ('fill_alpha', .25)):
        check_style(ctx, make_style(kind, **{k: v}), dict(want, **{k: v}), 'default but ' + k)
    ctx.raises(ValueError, lambda: make_style(kind, stroke_style='unknown'), 'unknown style')
    ctx.raises((KeyError, ValueError), lambda: make_style(kind, stroke_color='not a colour'), 'unknown colour')


@harness(P)
def font(ctx):
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font
    x = ctx.real('x', 1, 100)
    f = Font('Helvetica', x)
    ctx.check(f.family == 'Helvetica', 'family')
    ctx.eq(f.point_size, x, 'size')


@harness(P)
def fabric(ctx):
    from Patro.TextileTechnology.Fabric import WovenFabric, FabricType
    names = ('shear', 'friction', 'weight', 'pressure')
    v = {n: ctx.real(n, 0, 100) for n in names}
    pairs = {n: [ctx.real(n + '0', 0, 100), ctx.real(n + '1', 0, 100)] for n in ('bending', 'stretch', 'shrinkage')}
    shrinkage = ctx.choose('shrinkage', [True, False])
    if not shrinkage:
        pairs.pop('shrinkage')
    f = WovenFabric(**v, **pairs)
    ctx.check(f.__fabric_type__ is FabricType.WovenFabric, 'type')
    ctx.eq(f._bending, pairs['bending'], 'bending')
    ctx.eq(f._stretch, pairs['stretch'], 'stretch')
    ctx.eq(f._shrinkage, pairs.get('shrinkage', [0, 0]), 'shrinkage')
    ctx.eq([f._shear, f._weight, f._pressure], [v['shear'], v['weight'], v['pressure']], 'numbers')


@harness(P)
def objects(ctx):
    from Patro.TextileTechnology import Needle as N, Seam as S, StitchType as T
    n, m = ctx.int('n', 1, 200), ctx.int('m', 1, 5)
    system, kind = N.NeedleSystem('130/705 H', 'home'), N.NeedleType('jeans', 'sharp', 'denim')
    ctx.check((system.name, system.description, kind.name, kind.description, kind.fabric_use) == ('130/705 H', 'home', 'jeans', 'sharp', 'denim'), 'names')
    x = N.Needle(system, kind, n, m)
    ctx.check(x.system is system and x.type is kind, 'needle')
    ctx.eq([x.nm_size, x.multiplicity], [n, m], 'needle numbers')
    ctx.eq(N.Needle(system, kind, n).multiplicity, 1, 'a single needle')
    ctx.check(S.AstmSeam('SS', 'a', 2).name == 'SSa-2', 'name of the seam')
    t = T.StitchType(n, 'lock', m, m + 1, m + 2)
    ctx.check(t.name == 'lock', 'stitch name')
    ctx.eq([t.number, t.number_of_needles, t.number_of_threads, t.number_of_loops], [n, m, m + 1, m + 2], 'stitch numbers')
    t = T.StitchType(n, 'lock', m, m + 1, 0)
    ctx.eq([t.number, t.number_of_needles, t.number_of_threads, t.number_of_loops], [n, m, m + 1, 0], 'a stitch without loop')


@harness(P)
def fibers(ctx):
    from Patro.TextileTechnology import Fiber as F
    d = F.FiberDatabase()
    data = F.Database.load(d)
    d.load()
    names = set(data['Natural Fibres']['Plant Fibres']) | set(data['Natural Fibres']['Animal Fibres']) | set(data['Synthetic Fibres'])
    ctx.check({x.name for x in d} == names and len(d) == len(names), 'the fibres of the file')
    ctx.check(all(d[n].name == n for n in names), 'by name')
    ctx.check(all(d[n].fiber_type is F.FiberType.Natural and d[n].source == x['source'] for k in ('Plant Fibres', 'Animal Fibres') for n, x in data['Natural Fibres'][k].items()), 'natural fibres')
    for k, t in (('Plant Fibres', 'Plant'), ('Animal Fibres', 'Animal')):
        ctx.check(all(t in d[n].source_type for n in data['Natural Fibres'][k]), 'source of the natural fibres')
    ctx.check(all(d[n].fiber_type is F.FiberType.Synthetic for n in data['Synthetic Fibres']), 'synthetic fibres')
    other = F.Fiber('Cotton', F.FiberType.Plant, 'x', 'y')
    d.add(other)
    ctx.check(d['Cotton'] is not other and len(d) == len(names), 'the first fibre of a name is kept')
