"""Reading SVG documents: scope of transforms and presentation attributes, view box, shapes."""
from engine.harness import harness

MODULES = ['Patro.FileFormat.Svg.SvgFile', 'Patro.FileFormat.Svg.SvgFormat', 'Patro.Common.Xml.Objectivity']
BOUNDS = ('documents of five items in three groups nested two deep, groups and items with or without a transform, a stroke, a width, a style; '
          'arbitrary numbers; rectangles with radii at most half of their sides')
BOUNDS += '; also twelve groups or items side by side; six levels of groups'
ASSUMPTIONS = ['lxml, which parses the document, runs as it is on the text; the numbers in the text are symbolic.']
META = dict(
    title='SVG documents: transforms and presentation attributes apply to their own group',
    statement="""Reading an SVG document, the state of an item is made of the attributes of the groups that contain it and
    of its own: its transform is the composition of the transforms of its ancestors, outermost first, and of its own one; a stroke, a
    width, a cap, a dash array... is the one of the nearest element that sets it, and keeps its default value when none does; the
    style attribute has precedence over the other attributes of the same element. What a group sets does not leak to
    the elements after it. Every circle, ellipse, line, path, polyline, polygon and rectangle is reported once, in the order of the document,
    with its attributes. The view box is the rectangle given by its corner and its size. A rectangle has the given corner, size and
    corner radius, as a path.""",
    quant='all numeric values; all combinations of attributes of the groups and items of the documents within the bounds',
    why='leaks depend on the nesting and on the combination of attributes that are set or not',
    files=['Patro/FileFormat/Svg/SvgFile.py', 'Patro/FileFormat/Svg/SvgFormat.py', 'Patro/Common/Xml/Objectivity.py'],
    mechanism=[('RenderState, RenderStateStack, SvgDispatcher', 'Patro/FileFormat/Svg/SvgFile.py'),
               ('elements and attributes', 'Patro/FileFormat/Svg/SvgFormat.py')])
P = 'C22'


def read(body, head='viewBox="0 0 100 100"'):
    """-> [(item, state)], reader"""
    from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
    items, groups = [], []

    class Reader(SvgFileInternal):
        def on_group(self, group):
            groups.append(group)

        def on_graphic_item(self, item):
            items.append((item, self._dispatcher.state.clone().merge(item)))
    reader = Reader(None, f'<svg xmlns="http://www.w3.org/2000/svg" {head}>{body}</svg>')
    reader.groups = groups
    return items, reader


class Node:
    def __init__(self, attrs, tr, props):
        self.attrs, self.tr, self.props = attrs, tr, props


def node(ctx, n, transforms, props):
    """random attributes -> text of the attributes, map, presentation"""
    out, tr, pr = '', None, {}
    k = ctx.choose(f't{n}', transforms) if transforms else None
    if k == 'translate':
        a, b = ctx.real(f'a{n}', -10, 10), ctx.real(f'b{n}', -10, 10)
        out += f' transform="translate({a},{b})"'
        tr = lambda p: (p[0] + a, p[1] + b)
    elif k == 'matrix':
        m = [ctx.real(f'm{n}{i}', -10, 10) for i in range(6)]
        ctx.assume(m[1] > 0.125)     # TransformationType is the business of C03
        out += ' transform="matrix(' + ' '.join(f'{x}' for x in m) + ')"'
        tr = lambda p: (p[0] * m[0] + p[1] * m[2] + m[4], p[0] * m[1] + p[1] * m[3] + m[5])
    k = ctx.choose(f'p{n}', props) if props else None
    w = ctx.real(f'w{n}', 0, 9)
    if k == 'stroke':
        out += f' stroke="c{n}"'
        pr = dict(stroke=f'c{n}')
    elif k == 'width':
        out += f' stroke-width="{w}" fill="none"'
        pr = dict(stroke_width=w, fill=None)
    elif k == 'style':
        out += f' stroke="bad" style="stroke:s{n}; stroke-width : {w};"'
        pr = dict(stroke=f's{n}', stroke_width=w)
    elif k == 'caps':
        out += f' stroke-linecap="round" stroke-linejoin="bevel" stroke-miterlimit="{w}"'
        pr = dict(stroke_linecap='round', stroke_linejoin='bevel', stroke_miterlimit=w)
    return Node(out, tr, pr)


DEFAULT = dict(stroke=None, stroke_width=1, fill=None, stroke_linecap='butt', stroke_linejoin='miter', stroke_miterlimit=4)


def compare(ctx, state, chain, label):
    pr = dict(DEFAULT)
    p = q = (ctx.real('px ' + label, -10, 10), ctx.real('py ' + label, -10, 10))
    for n in reversed(chain):
        if n.tr:
            q = n.tr(q)
    for n in chain:
        pr.update(n.props)
    from Patro.GeometryEngine.Vector import Vector2D
    ctx.eq(state.transform * Vector2D(*p), list(q), label + ' transform')
    for k, v in pr.items():
        s = getattr(state, k)
        if isinstance(v, str) or v is None:
            ctx.is_(s, v, f'{label} {k}')
        else:
            # PercentLengthAttribute may keep a number
            ctx.eq(s, v, f'{label} {k}')


def tree(ctx, g, i):
    """item0 g0(item1 g1(item2) item3) g2() item4"""
    item = lambda k: f'<line id="i{k}" x1="0" y1="0" x2="1" y2="1"{i[k].attrs}/>'
    body = f'{item(0)}<g{g[0].attrs}>{item(1)}<g{g[1].attrs}>{item(2)}</g>{item(3)}</g><g{g[2].attrs}/>{item(4)}'
    items, reader = read(body)
    ctx.is_([x.id for x, _ in items], [f'i{k}' for k in range(5)], 'items in order')
    ctx.is_(len(reader.groups), 3, 'groups')
    chains = [[], [g[0]], [g[0], g[1]], [g[0]], []]
    for k, (x, state) in enumerate(items):
        compare(ctx, state, chains[k] + [i[k]], f'item {k}')


NONE = Node('', None, {})


@harness(P, params=[{'t': t} for t in ('translate', 'matrix', None)], budget=40)
def transforms(ctx, t):
    ts = ['translate', None]
    g = [node(ctx, 0, [t], None), node(ctx, 1, ts, None), node(ctx, 2, ts, None)]
    i = [NONE, NONE, node(ctx, 4, ts, None), node(ctx, 5, ts, None), NONE]
    tree(ctx, g, i)


PR = [None, 'stroke', 'width', 'style', 'caps']


@harness(P, params=[{'p': p} for p in PR], budget=40)
def presentation(ctx, p):
    g = [node(ctx, 0, None, [p]), node(ctx, 1, None, PR), node(ctx, 2, None, [None, 'width'])]
    i = [NONE, NONE, node(ctx, 4, None, PR), node(ctx, 5, None, [None, 'style']), NONE]
    tree(ctx, g, i)


@harness(P)
def both(ctx):
    g = [node(ctx, 0, ['translate'], ['stroke', 'style']), NONE, node(ctx, 2, ['translate'], ['stroke'])]
    i = [node(ctx, 3, ['translate', None], ['style', None]), NONE, NONE, node(ctx, 5, ['translate'], [None, 'caps']), NONE]
    tree(ctx, g, i)


@harness(P)
def deep(ctx):
    """six levels of groups, an item before and after each one"""
    g = [node(ctx, k, ['translate'] if k in (1, 5) else None, [['width', 'stroke', None][k % 3]]) for k in range(6)]
    item = lambda k: f'<line id="i{k}" x1="0" y1="0" x2="1" y2="1"/>'
    body = ''.join(item(k) + f'<g{g[k].attrs}>' for k in range(6)) + item(6) + ''.join('</g>' + item(7 + k) for k in range(6))
    items, _ = read(body)
    ctx.is_([x.id for x, _ in items], [f'i{k}' for k in range(13)], 'items in order')
    for k, (x, state) in enumerate(items):
        compare(ctx, state, g[:k] if k < 7 else g[:12 - k], f'item {k}')


@harness(P)
def dashes(ctx):
    a, b = ctx.real('a', 0.5, 9), ctx.real('b', 0.5, 9)
    sep = ctx.choose('sep', [' ', ',', ', ', ' , '])
    items, _ = read(f'<g stroke-dasharray="{a}{sep}{b}"><line id="x"/></g><line id="y" stroke-dasharray="{b}"/><line id="z"/>')
    ctx.eq(items[0][1].stroke_dasharray, [a, b], 'inherited dash array')
    ctx.eq(items[1][1].stroke_dasharray, [b], 'dash array')
    ctx.check(items[2][1].stroke_dasharray is None, 'no dash array')


@harness(P)
def style_values(ctx):
    v, f = ctx.choose('v', [('1e-3', 0.001), ('2', 2), ('0.5', 0.5), ('-3', -3), ('none', None), ('url(#a:b)', 'url(#a:b)'), ('#00ff00', '#00ff00')])
    end = ctx.choose('end', ['', ';', ' ; '])
    items, _ = read(f'<line id="x" style="fill:{v};stroke-opacity: {v}{end}"/>')
    for k in ('fill', 'stroke_opacity'):
        s = getattr(items[0][1], k)
        if isinstance(f, (int, float)):
            ctx.eq(s, f, k)
        else:
            ctx.is_(s, f, k)
    a = ctx.real('a', -10, 10)
    items, _ = read(f'<g transform="translate({a} 0)"><line id="x" style="transform:scale({a})"/></g>')
    p = ctx.vec('p', lo=-10, hi=10)
    ctx.eq(items[0][1].transform * p, [a + a * p.x, a * p.y], 'transform in the style')


@harness(P)
def view_box(ctx):
    x, y, w, h = ctx.real('x', -10, 10), ctx.real('y', -10, 10), ctx.real('w', 1, 10), ctx.real('h', 1, 10)
    sep = ctx.choose('sep', [' ', ',', ', '])
    _, reader = read('', f'width="{w}mm" height="{h}mm" viewBox="{x}{sep}{y}{sep}{w}{sep}{h}"')
    b = reader.view_box
    ctx.eq([b.x.inf, b.y.inf, b.x.sup, b.y.sup], [x, y, x + w, y + h], 'view box')
    ctx.is_((reader.width, reader.height), (f'{w}mm', f'{h}mm'), 'size')


@harness(P)
def shapes(ctx):
    v = [ctx.real(f'v{i}', -10, 10) for i in range(4)]
    t = [f'{x}' for x in v]
    k = ctx.choose('k', [
        ('circle', 'cx="{}" cy="{}" r="{}"', ('cx', 'cy', 'r')),
        ('ellipse', 'cx="{}" cy="{}" rx="{}" ry="{}"', ('cx', 'cy', 'rx', 'ry')),
        ('line', 'x1="{}" y1="{}" x2="{}" y2="{}"', ('x1', 'y1', 'x2', 'y2')),
        ('rect', 'x="{}" y="{}" rx="{}" ry="{}"', ('x', 'y', 'rx', 'ry')),
        ('polygon', 'points="{},{} {},{}"', None),
        ('polyline', 'points="{},{} {},{}"', None)])
    tag, attrs, names = k
    items, _ = read(f'<metadata/><{tag} id="i" stroke="red" {attrs.format(*t)}/><defs><line/></defs>')
    ctx.is_(len(items), 1, 'one item')
    e, s = items[0]
    ctx.is_(type(e).__name__.lower(), tag, 'class')
    ctx.is_((e.id, e.stroke, s.stroke), ('i', 'red', 'red'), 'attributes')
    if names:
        ctx.eq([getattr(e, n) for n in names], v[:len(names)], 'numbers')
    else:
        ctx.is_(e.points, '{},{} {},{}'.format(*t), 'points')


@harness(P, budget=40)
def rectangle(ctx):
    x, y, w, h = ctx.real('x', -10, 10), ctx.real('y', -10, 10), ctx.real('w', 10, 30), ctx.real('h', 10, 30)
    r = ctx.real('r', 0.5, 4)
    k = ctx.choose('k', ['sharp', 'ry', 'rx', 'both', 'no corner', 'zero'])
    a = f'width="{w}" height="{h}"'
    if k == 'no corner':
        x = y = 0
    else:
        a += f' x="{x}" y="{y}"'
    a += {'ry': f' ry="{r}"', 'rx': f' rx="{r}"', 'both': f' rx="{r}" ry="{r}"', 'zero': ' rx="0" ry="0"'}.get(k, '')
    items, _ = read(f'<rect {a}/>')
    path = items[0][0].geometry
    ctx.check(path.is_closed and len(path) == 4, 'closed path of four parts')
    c = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    ctx.eq([[p.stop_point.x, p.stop_point.y] for p in path], [c[1], c[2], c[3], c[0]], 'corners')
    for p in path:
        if k in ('rx', 'ry', 'both'):
            ctx.eq(p.radius, r, 'radius')
        else:
            ctx.check(p.radius is None, 'no radius')


@harness(P, params=[{'groups': k} for k in (3, 12)], budget=40)
def many(ctx, groups):
    """twelve groups or items side by side, each with its own attributes"""
    kinds = PR[1:]
    body, chains = '', []
    for k in range(12):
        g = node(ctx, k, ['translate'] if k in (0, 8) else None, [kinds[k % 4]]) if k % (12 // groups) == 0 else g
        i = node(ctx, 20 + k, ['translate'] if k in (3, 10) else None, [PR[k % 5]])
        body += (f'<g{g.attrs}>' if k % (12 // groups) == 0 else '') + f'<line id="i{k}" x1="0" y1="0" x2="1" y2="1"{i.attrs}/>'
        chains.append([g, i])
        if (k + 1) % (12 // groups) == 0:
            body += f'</g><line id="o{k}" x1="0" y1="0" x2="1" y2="1"/>'
            chains.append([])
    items, reader = read(body)
    ctx.is_(len(items), 12 + groups, 'items')
    ctx.is_([x.id for x, _ in items if x.id[0] == 'i'], [f'i{k}' for k in range(12)], 'items in order')
    ctx.is_(len(reader.groups), groups, 'groups')
    for k, ((x, state), c) in enumerate(zip(items, chains)):
        compare(ctx, state, c, f'item {k}')
