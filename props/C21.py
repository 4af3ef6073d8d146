"""SVG transform attribute."""
from engine.harness import harness

MODULES = ['Patro.FileFormat.Svg.SvgFormat']
BOUNDS = ('lists of one to three transforms among matrix, translate (one or two values), scale (one or two values), rotate (with or '
          'without centre), arbitrary values, four ways to write the separators; skewX and skewY are not supported by the library')
META = dict(
    title='SVG transform attributes denote the specified affine map, and are written back',
    statement="""Reading a transform attribute gives the affine map of the SVG specification: matrix(a b c d e f) maps (x, y)
    to (a x + c y + e, b x + d y + f), translate(tx [ty = 0]), scale(s [t = s]), rotate(degrees [cx cy]), a list applies its
    rightmost transform first, whatever the separators (commas, white spaces, newlines). Writing a transformation then reading it
    gives the same map. A malformed transform raises an error.""",
    quant='all values, points and lists of transforms up to the bound',
    why='conventions (row or column order, order of composition, default values) agree on the symmetric cases that tests use',
    files=['Patro/FileFormat/Svg/SvgFormat.py'],
    mechanism=[('TransformAttribute', 'Patro/FileFormat/Svg/SvgFormat.py')])
P = 'C21'

KINDS = ['matrix', 'translate', 'translate1', 'scale', 'scale1', 'rotate', 'rotate3']
SEPS = [(',', '', ' '), (' ', '', ' '), (', ', ' ', ','), ('\n', '  ', '\n '), (' , ', '', '')]


def make(ctx, kind, n):
    """-> (name, values, map of a point)"""
    r = lambda i, lo=-10, hi=10: ctx.real(f'v{n}{i}', lo, hi)
    if kind == 'matrix':
        a, b, c, d, e, f = v = [r(i) for i in range(6)]
        return 'matrix', v, lambda p: (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)
    if kind == 'translate':
        v = [r(0), r(1)]
        return 'translate', v, lambda p: (p[0] + v[0], p[1] + v[1])
    if kind == 'translate1':
        v = [r(0)]
        return 'translate', v, lambda p: (p[0] + v[0], p[1])
    if kind == 'scale':
        v = [r(0), r(1)]
        return 'scale', v, lambda p: (p[0] * v[0], p[1] * v[1])
    if kind == 'scale1':
        v = [r(0)]
        return 'scale', v, lambda p: (p[0] * v[0], p[1] * v[0])
    a = ctx.angle(f'angle{n}')
    c, s = ctx.deg_cs(a)
    v = [a]
    o = (0, 0)
    if kind == 'rotate3':
        o = (r(0), r(1))
        v += list(o)
    return 'rotate', v, lambda p: (o[0] + c * (p[0] - o[0]) - s * (p[1] - o[1]), o[1] + s * (p[0] - o[0]) + c * (p[1] - o[1]))


def parse(s):
    from Patro.FileFormat.Svg.SvgFormat import TransformAttribute
    return TransformAttribute.from_xml(s)


def text(items, seps):
    sep, blank, between = seps
    return between.join(name + blank + '(' + blank + sep.join(f'{x}' for x in v) + blank + ')' for name, v in items)


def check_map(ctx, t, fn, label):
    p = ctx.vec('p ' + label, lo=-1000, hi=1000)
    ctx.eq(t * p, list(fn((p.x, p.y))), label)


@harness(P, params=[{'kind': k} for k in KINDS])
def single(ctx, kind):
    name, v, fn = make(ctx, kind, 0)
    t = parse(text([(name, v)], ctx.choose('seps', SEPS)))
    check_map(ctx, t, fn, name)


@harness(P, params=[{'first': k} for k in KINDS], budget=30, budget_thorough=200)
def composed(ctx, first):
    n1, v1, f1 = make(ctx, first, 0)
    n2, v2, f2 = make(ctx, ctx.choose('second', KINDS), 1)
    t = parse(text([(n1, v1), (n2, v2)], SEPS[KINDS.index(first) % len(SEPS)]))
    check_map(ctx, t, lambda p: f1(f2(p)), 'list of two transforms')


@harness(P, params=[{'ks': k} for k in (('translate', 'scale1', 'translate'), ('scale', 'translate1', 'scale1'), ('matrix', 'translate', 'rotate'))],
         budget=30, budget_thorough=300)
def three(ctx, ks):
    items = [make(ctx, k, i) for i, k in enumerate(ks)]
    t = parse(text([i[:2] for i in items], SEPS[1]))
    check_map(ctx, t, lambda p: items[0][2](items[1][2](items[2][2](p))), 'list of three transforms')


@harness(P, params=[{'kind': k} for k in ('matrix', 'translate', 'rotate', 'scale')])
def write_read(ctx, kind):
    from Patro.FileFormat.Svg.SvgFormat import TransformAttribute
    name, v, fn = make(ctx, kind, 0)
    t = parse(text([(name, v)], SEPS[0]))
    s = TransformAttribute.to_xml(t)
    ctx.check(isinstance(s, str) and s.startswith('matrix(') and s.endswith(')'), 'matrix form')
    check_map(ctx, parse(s), fn, 'written transform')
    check_map(ctx, TransformAttribute.from_xml(t), fn, 'Python value')


@harness(P)
def matrix_text(ctx):
    """six values, in the order of the specification"""
    from Patro.FileFormat.Svg.SvgFormat import TransformAttribute
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    m = [ctx.real(f'm{i}', -10, 10) for i in range(6)]
    t = AffineTransformation2D([m[0], m[2], m[4], m[1], m[3], m[5], 0, 0, 1])
    s = TransformAttribute.to_xml(t)
    vs = s[len('matrix('):-1].replace(',', ' ').split()
    ctx.is_(len(vs), 6, 'number of values')
    from Patro.FileFormat.Svg.SvgFormat import NumberAttribute
    ctx.eq([NumberAttribute.from_xml(x) for x in vs], m, 'values')


@harness(P)
def malformed(ctx):
    x = ctx.real('x', -10, 10)
    t = ctx.choose('t', ['translate', 'translate({0}', 'translate {0})', '({0})', 'foo({0})', 'matrix({0} {0})', 'translate({0} a)',
                         'scale({0}) translate({0}', 'matrix({0} {0} {0} {0} {0})', 'translate({0}) x', 'Scale({0})'])
    ctx.raises((ValueError, NotImplementedError, IndexError, TypeError), lambda: parse(t.format(x)), 'malformed transform')


@harness(P)
def element(ctx):
    """through the element"""
    from Patro.FileFormat.Svg import SvgFormat
    kind = ctx.choose('kind', ['matrix', 'scale1'])
    cls = ctx.choose('cls', ['Group', 'Path', 'Rect', 'Circle', 'Ellipse', 'Line', 'Polygon', 'Polyline', 'Text'])
    name, v, fn = make(ctx, kind, 0)

    class Element:
        attrib = {'transform': text([(name, v)], SEPS[1]), 'id': 'x'}
        text = ''
    e = getattr(SvgFormat, cls)(Element)
    ctx.is_(e.id, 'x', 'id')
    check_map(ctx, e.transform, fn, 'transform of the element')


@harness(P)
def same_text(ctx):
    """transforms read from the same text are independent"""
    kind = ctx.choose('kind', ['matrix', 'translate', 'scale1'])
    name, v, fn = make(ctx, kind, 0)
    s = text([(name, v)], SEPS[0])
    t = parse(s)
    check_map(ctx, t, fn, 'first')
    other = make(ctx, 'translate', 1)
    t *= parse(text([other[:2]], SEPS[0]))
    check_map(ctx, parse(s), fn, 'again')
    check_map(ctx, t, lambda p: other[2](fn(p)), 'product')
