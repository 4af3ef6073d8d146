"""SVG path data: parsing against the SVG 1.1 grammar, writing."""
from engine.harness import harness

MODULES = ['Patro.FileFormat.Svg.SvgFormat']
BOUNDS = ('path data of one to three commands after the move, all 18 command letters, arbitrary coordinates, five ways to write the separators; '
          'a few texts of numbers (signs, decimals, exponents) and of malformed data')
BOUNDS += '; also paths of about twenty commands'
META = dict(
    title='SVG path data are parsed as the SVG specification says, and written back',
    statement="""Reading the d attribute of an SVG path gives the path the specification describes: upper case commands take absolute
    coordinates, lower case ones relative coordinates, H and V take one coordinate, S and T reflect the last control
    point of a previous cubic or quadratic curve, a command letter can be omitted when it is repeated (a
    repeated M is an L), commas and white spaces are optional wherever the grammar allows to omit them, A keeps its
    radii, rotation and flags and Z closes the path. Malformed data (no move at the beginning, unknown letter, missing argument)
    raise an error. A path written to SVG describes the same points, bulges being written as arcs.""",
    quant='all coordinates; all sequences of commands up to the bound',
    why='the meaning of a command depends on the previous one and on the way it is written: there are too many combinations for examples',
    files=['Patro/FileFormat/Svg/SvgFormat.py'],
    mechanism=[('PathDataAttribute', 'Patro/FileFormat/Svg/SvgFormat.py')])
P = 'C20'

NARGS = {'m': 2, 'l': 2, 'h': 1, 'v': 1, 'c': 6, 's': 4, 'q': 4, 't': 2}
LETTERS = [f(c) for c in 'lhvcsqt' for f in (str.lower, str.upper)]
STYLES = ['space', 'comma', 'compact', 'newline', 'mixed']


def text(commands, style):
    """commands: (letter or '' when omitted, values)"""
    out = ''
    for letter, values in commands:
        v = [f'{x}' for x in values]
        if style == 'space':
            out += f' {letter} ' + ' '.join(v)
        elif style == 'comma':
            out += f' {letter}' + ','.join(v)
        elif style == 'compact':
            if not letter and not v[0].startswith('-'):
                out += ' '
            out += letter
            for i, x in enumerate(v):
                out += ('' if i == 0 or x.startswith('-') else ' ') + x
        elif style == 'newline':
            out += f'\n\t{letter}\r\n' + '\n'.join(v)
        else:
            out += f' , {letter}  '.replace(',', '' if letter else ',')
            for i, x in enumerate(v):
                out += (('' if i == 0 else ' , ' if i % 2 == 0 else '  ') + x)
    return out.strip()


class Interpreter:
    """list of parts [start, controls..., stop]"""

    def __init__(self, p):
        self.cur, self.parts = p, []

    def do(self, letter, v):
        k, absolute = letter.lower(), letter.isupper()
        cur = self.cur
        if k == 'h':
            pts = [(v[0] if absolute else cur[0] + v[0], cur[1])]
        elif k == 'v':
            pts = [(cur[0], v[0] if absolute else cur[1] + v[0])]
        else:
            pts = [(v[i], v[i + 1]) if absolute else (cur[0] + v[i], cur[1] + v[i + 1]) for i in range(0, len(v), 2)]
        if k in 'st':
            prev = self.parts[-1] if self.parts else []
            if len(prev) == (4 if k == 's' else 3):
                pts.insert(0, (2 * cur[0] - prev[-2][0], 2 * cur[1] - prev[-2][1]))
            else:
                pts.insert(0, cur)
        self.parts.append([cur] + pts)
        self.cur = pts[-1]


def parse(s):
    from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute
    return PathDataAttribute.from_xml(s)


def compare(ctx, path, it, label=''):
    ctx.is_(len(path), len(it.parts), label + 'number of parts')
    for i, e in enumerate(it.parts):
        ctx.eq([[p.x, p.y] for p in path[i].points], [list(p) for p in e], f'{label}part {i}')


def values(ctx, letter, n):
    return [ctx.real(f'a{n}{i}', -100000, 100000) for i in range(NARGS[letter.lower()])]


@harness(P, params=[{'first': c} for c in LETTERS], budget=60)
def commands(ctx, first):
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    style = ctx.choose('style', STYLES)
    cs = [(ctx.choose('move', ['M', 'm']), [x, y]), (first, values(ctx, first, 0))]
    second = ctx.choose('second', LETTERS + ['repeated'])
    if second == 'repeated':
        cs.append(('', values(ctx, first, 1)))
        second = first
    else:
        cs.append((second, values(ctx, second, 1)))
    it = Interpreter((x, y))
    it.do(first, cs[1][1])
    it.do(second, cs[2][1])
    close = ctx.choose('close', ['', 'Z', ' z '])
    path = parse(text(cs, style) + close)
    ctx.eq(path.p0, [x, y], 'start')
    ctx.is_(bool(path.is_closed), bool(close), 'closed')
    if close:
        it.parts.append([it.cur, (x, y)])
    compare(ctx, path, it)


@harness(P, params=[{'k': k} for k in 'ctsqT'], budget=60)
def three(ctx, k):
    """reflection of control points through three curves"""
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    style = ctx.choose('style', ['space', 'compact'])
    cs = [('M', [x, y])]
    it = Interpreter((x, y))
    for i, c in enumerate([ctx.choose('c0', ['c', 'Q', 'l', 't', 'S']), k, ctx.choose('c2', ['s', 'S', 't', 'T', 'repeated'])]):
        name, c = ('', k) if c == 'repeated' else (c, c)
        v = values(ctx, c, i)
        cs.append((name, v))
        it.do(c, v)
    compare(ctx, parse(text(cs, style)), it)


@harness(P)
def implicit_line(ctx):
    """the coordinates that follow those of a move are lines"""
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    m = ctx.choose('move', ['m', 'M'])
    a, b = values(ctx, 'l', 0), values(ctx, 'l', 1)
    path = parse(text([(m, [x, y]), ('', a), ('', b)], ctx.choose('style', STYLES)))
    it = Interpreter((x, y))
    it.do('l' if m == 'm' else 'L', a)
    it.do('l' if m == 'm' else 'L', b)
    compare(ctx, path, it)


@harness(P)
def arcs(ctx):
    import Patro.GeometryEngine.Path as M
    x, y, sx, sy = (ctx.real(n, -100000, 100000) for n in ('x', 'y', 'sx', 'sy'))
    rx, ry, a = ctx.real('rx', 1, 50), ctx.real('ry', 1, 50), ctx.real('a', -180, 180)
    large, sweep = ctx.choose('large', [0, 1]), ctx.choose('sweep', [0, 1])
    c = ctx.choose('c', ['a', 'A'])
    second = ctx.choose('second', ['none', 'l', 'L', 'repeated'])
    v = [rx, ry, a, large, sweep, sx, sy]
    cs = [('M', [x, y]), (c, v)]
    if second in 'lL':
        cs.append((second, [sx, sy]))
    elif second == 'repeated':
        cs.append(('', [ry, rx, a, 1 - large, 1 - sweep, sy, sx]))
    path = parse(text(cs, ctx.choose('style', STYLES)))
    stop = (sx, sy) if c == 'A' else (x + sx, y + sy)
    args = []

    class Spy:
        @staticmethod
        def svg_arc(*k):
            args.append(k)
    real, M.Ellipse2D = M.Ellipse2D, Spy
    try:
        path[0].geometry
        if second == 'repeated':
            path[1].geometry
    finally:
        M.Ellipse2D = real
    ctx.is_(len(path), 1 if second == 'none' else 2, 'number of parts')
    exp = [((x, y), stop, (rx, ry, a), (large, sweep))]
    if second == 'repeated':
        exp.append((stop, (sy, sx) if c == 'A' else (stop[0] + sy, stop[1] + sx), (ry, rx, a), (1 - large, 1 - sweep)))
    for i, (s, e, r, f) in enumerate(exp):
        ctx.eq(args[i][0], list(s), 'start')
        ctx.eq(args[i][1], list(e), 'stop')
        ctx.eq(args[i][2:5], list(r), 'radii and rotation')
        ctx.is_((bool(args[i][5]), bool(args[i][6])), (bool(f[0]), bool(f[1])), 'flags')
    if second in 'lL':
        ctx.eq(path[1].stop_point, [sx, sy] if second == 'L' else [stop[0] + sx, stop[1] + sy], 'next part')


NUMBERS = [('1', 1), ('-1', -1), ('+2', 2), ('.5', .5), ('-.5', -.5), ('3.', 3), ('1e2', 100), ('1E+2', 100), ('25e-1', 2.5), ('-1.5e1', -15), ('007', 7)]


@harness(P)
def numbers(ctx):
    t, n = ctx.choose('n', NUMBERS)
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    sep = '' if t[0] in '+-' else ctx.choose('sep', [' ', ',', ' , ', '\n'])
    if ctx.choose('first', [True, False]):
        path = parse(f'M{x},{y}L{t} {x}')
        ctx.eq(path[0].stop_point, [n, x], 'first number')
    else:
        path = parse(f'M{x},{y}L{x}{sep}{t}')
        ctx.eq(path[0].stop_point, [x, n], 'second number')
    path = parse(f'M{t}{ctx.choose("sep2", [" ", ","])}{t}h{y}')
    ctx.eq([path.p0.x, path.p0.y, path[0].stop_point.x, path[0].stop_point.y], [n, n, n + y, n], 'move')


@harness(P)
def malformed(ctx):
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    t = ctx.choose('t', ['L{0} {1}', '{0} {1}', 'M{0} {1} L{0}', 'M{0} {1} X{0}', 'M{0} {1} C{0} {1} {0} {1}', 'M{0}',
                         'M{0} {1} Q{0} {1} {0} {1} {0}', 'M{0} {1} L{0} L {0} {1}', 'M{0} {1}L{0};{1}', 'M{0} {1} L{0} {1} Z {0}',
                         'M{0} {1} T{0}', 'M{0} {1} A{0} {1} 0 0 1 {0}'])
    ctx.raises((ValueError, NameError, TypeError), lambda: parse(t.format(x, y)), 'malformed path data')


# -- writing ---------------------------------------------------------------------------------------

def write(path):
    from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute
    return PathDataAttribute.to_xml(path)


@harness(P, params=[{'first': c} for c in 'lHvcTQS'], budget=60)
def write_read(ctx, first):
    """a path which is written is read as the same path"""
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    it = Interpreter((x, y))
    cs = [('M', [x, y])]
    for i, c in enumerate([first, ctx.choose('c1', LETTERS)]):
        v = values(ctx, c, i)
        cs.append((c, v))
        it.do(c, v)
    close = ctx.choose('close', [False, True])
    path = parse(text(cs, 'space') + (' Z' if close else ''))
    if close:
        it.parts.append([it.cur, (x, y)])
    again = parse(write(path))
    ctx.eq(again.p0, [x, y], 'start')
    ctx.is_(bool(again.is_closed), close, 'closed')
    compare(ctx, again, it, 'written ')


@harness(P)
def write_arc(ctx):
    x, y, sx, sy = (ctx.real(n, -100000, 100000) for n in ('x', 'y', 'sx', 'sy'))
    rx, ry, a = ctx.real('rx', 1, 50), ctx.real('ry', 1, 50), ctx.real('a', -180, 180)
    large, sweep = ctx.choose('large', [0, 1]), ctx.choose('sweep', [0, 1])
    c = ctx.choose('c', ['a', 'A'])
    path = parse(text([('M', [x, y]), (c, [rx, ry, a, large, sweep, sx, sy])], 'space'))
    part = parse(write(path))[0]
    ctx.eq([part.radius_x, part.radius_y, part.angle], [rx, ry, a], 'radii and rotation')
    ctx.is_((bool(part.large_arc), bool(part.sweep)), (bool(large), bool(sweep)), 'flags')
    ctx.eq(part.stop_point, [sx, sy] if c == 'A' else [x + sx, y + sy], 'stop')


@harness(P, params=[{'closed': c} for c in (False, True)], budget=60)
def write_bulge(ctx, closed):
    """turn right then left; bulges are written as circular arcs"""
    from Patro.GeometryEngine.Path import Path2D
    p = ctx.vec('p', lo=-100000, hi=100000)
    w, h, r = ctx.real('w', 10, 30), ctx.real('h', 10, 30), ctx.real('r', 0.5, 4)
    s = ctx.choose('side', [1, -1])
    path = Path2D(p)
    path.horizontal_to(w)
    path.vertical_to(s * h, radius=r)
    path.horizontal_to(-w, radius=r)
    sweep = s > 0
    q = lambda a, b: [p.x + a, p.y + s * b]
    exp = [('L', q(w - r, 0)), ('A', q(w, r)), ('L', q(w, h - r)), ('A', q(w - r, h))]
    if closed:
        # bulge before the closing line, after it
        before, after = ctx.choose('bulges', [(True, True), (True, False), (False, True), (False, False)])
        path.close(radius=r if before else None, close_radius=r if after else None)
        if before:
            exp += [('L', q(r, h)), ('A', q(0, h - r))]
        else:
            exp += [('L', q(0, h))]
        if after:
            exp += [('L', q(0, r)), ('A', q(r, 0))]
    else:
        exp += [('L', q(0, h))]
    again = parse(write(path))
    ctx.eq(again.p0, q(r, 0) if closed and after else q(0, 0), 'start')
    parts = list(again)
    if closed:
        ctx.check(again.is_closed, 'closed')
        parts = parts[:-1]
    ctx.is_(len(parts), len(exp), 'number of parts')
    for i, (part, (k, e)) in enumerate(zip(parts, exp)):
        ctx.is_(type(part).__name__, 'PathSegment' if k == 'L' else 'ArcSegment', f'kind of part {i}')
        ctx.eq(part.stop_point, e, f'part {i}')
        if k == 'A':
            ctx.eq([part.radius_x, part.radius_y], [r, r], 'radius')
            ctx.is_((bool(part.large_arc), bool(part.sweep)), (False, sweep), 'flags')


LONG = 'lHvcSsqTtCVhLQ'


@harness(P, params=[{'turn': k, 'style': s} for k, s in ((0, 'space'), (3, 'compact'), (6, 'mixed'), (9, 'comma'), (12, 'newline'))], budget=60)
def many_commands(ctx, turn, style):
    """a path with every command, each one given or repeated, read and written"""
    x, y = ctx.real('x', -100000, 100000), ctx.real('y', -100000, 100000)
    it = Interpreter((x, y))
    cs = [('M', [x, y])]
    for i, c in enumerate(LONG[turn:] + LONG[:turn]):
        for k in range(1 + (i % 3 == turn % 3)):
            v = values(ctx, c, f'{i}_{k}_')
            cs.append(('' if k else c, v))
            it.do(c, v)
    path = parse(text(cs, style) + ' z')
    it.parts.append([it.cur, (x, y)])
    compare(ctx, path, it)
    if ctx.choose('write', [False, True]):
        compare(ctx, parse(write(path)), it, 'written ')
