"""Colours."""
import importlib.util

from engine.harness import harness

try:
    from engine.loader import STUBS, custom_builtins
    import colorsys
    import types
    m = types.ModuleType('colorsys')
    m.__dict__['__builtins__'] = custom_builtins()
    exec(compile(open(colorsys.__file__).read(), colorsys.__file__, 'exec'), m.__dict__)
    STUBS['colorsys'] = m
except ImportError:     # replay
    pass

MODULES = ['Patro.GraphicStyle.Color', 'Patro.GraphicStyle.Color.ColorDataBase']
BOUNDS = 'all the components (integers of 0 to 255, or numbers of 0 to 1), all the hexadecimal digits; databases of up to 3 colours'
ASSUMPTIONS = ['the source of colorsys of the Python installation is executed symbolically too']
META = dict(
    title='Colours: components, hexadecimal notation, HSV and HLS, copies, database',
    statement="""A colour made from integer components (0 to 255), floating ones (0 to 1), a #rrggbb or #rgb text, hue/value/saturation, hue/light/saturation or another colour has these components; values out
    of range and other texts are refused with ValueError. Its integer components are the nearest integers; its text is #rrggbb, which gives back the same colour, as do its hsv and hls
    components. A copy is equal to and independent of the colour and keeps its name. Two colours are equal exactly when their texts are. The database gives for a name, as an item or an attribute, the colour registered
    with it, an unknown name being an error of the usual type, and ensure_color accepts a colour, a text or a name.""",
    quant='all components and digits',
    why='rounding errors of the conversions hit particular colours only (469 of the 1051 of the database); tests use none',
    files=['Patro/GraphicStyle/Color/ColorDataBase.py', 'Patro/GraphicStyle/Color/__init__.py'],
    mechanism=[('Color, ColorDataBase', 'Patro/GraphicStyle/Color/ColorDataBase.py')])
P = 'C29'


def color(*a, **k):
    from Patro.GraphicStyle import Color
    return Color(*a, **k)


def ints(ctx, n=''):
    return [ctx.int(c + n, 0, 255) for c in 'rgb']


def rgb(c):
    return [c.red, c.green, c.blue]


def rgb_float(c):
    return [c.red_float, c.green_float, c.blue_float]


@harness(P)
def integers(ctx):
    v = ints(ctx)
    c = color(*v)
    ctx.eq(rgb(c), v, 'components')
    ctx.eq(rgb_float(c), [x / 255 for x in v], 'float components')
    ctx.check(c.name is None, 'no name')
    d = color(*v, name='x')
    ctx.check(d.name == 'x', 'name')
    ctx.eq(rgb(d), v, 'components of the named colour')


@harness(P)
def floats(ctx):
    v = [ctx.real(c, 0, 1) for c in 'rgb']
    c = color(*v)
    ctx.eq(rgb_float(c), v, 'float components')
    for x, i in zip(v, rgb(c)):
        ctx.check(ctx.and_(ctx.le_(i, 255*x + .5), ctx.le_(255*x - .5, i)), 'nearest integer')


@harness(P)
def default(ctx):
    ctx.eq(rgb(color()), [0, 0, 0], 'black')


@harness(P, params=[{'k': k} for k in range(3)])
def out_of_range(ctx, k):
    v = ints(ctx)
    kind = ctx.choose('kind', ['low', 'high', 'float low', 'float high'])
    bad = {'low': lambda: ctx.int('bad', -300, -1), 'high': lambda: ctx.int('bad', 256, 1000),
           'float low': lambda: ctx.real('bad', -10, -.001), 'float high': lambda: ctx.real('bad', 1.001, 300)}[kind]()
    w = list(v)
    w[k] = bad
    ctx.raises(ValueError, lambda: color(*w), 'refused')
    c = color(*v)
    ctx.raises(ValueError, lambda: setattr(c, ('red', 'green', 'blue')[k], bad), 'refused by the setter')
    ctx.eq(rgb(c), v, 'the colour is not modified')


@harness(P, params=[{'k': k} for k in range(3)])
def setters(ctx, k):
    v = ints(ctx)
    c = color(*v)
    d = c.clone()
    setattr(c, ('red', 'green', 'blue')[k], ctx.int('x', 0, 255) if ctx.choose('kind', [True, False]) else ctx.real('x', 0, 1))
    for i in range(3):
        if i != k:
            ctx.eq(rgb_float(c)[i], v[i] / 255, 'the other components')
    ctx.eq(rgb(d), v, 'the copy is independent')


@harness(P, params=[{'k': k} for k in range(3)])
def setter_values(ctx, k):
    c = color(*ints(ctx))
    name = ('red', 'green', 'blue')[k]
    x = ctx.int('x', 0, 255)
    setattr(c, name, x)
    ctx.eq(getattr(c, name), x, 'integer')
    ctx.eq(getattr(c, name + '_float'), x / 255, 'float')
    y = ctx.real('y', 0, 1)
    setattr(c, name, y)
    ctx.eq(getattr(c, name + '_float'), y, 'value')


@harness(P, params=[{'upper': u} for u in (False, True)])
def text(ctx, upper):
    ds = [ctx.hexdigit(f'd{i}') for i in range(6)]
    t = '#' + ''.join(c for _, c in ds)
    c = color(t.upper() if upper else t)
    want = [16*ds[i][0] + ds[i+1][0] for i in (0, 2, 4)]
    ctx.eq(rgb(c), want, 'components')
    s = str(c)
    ctx.check(s == t, 'the text of the colour')
    ctx.eq(rgb(color(s)), want, 'read again')


@harness(P)
def short_text(ctx):
    ds = [ctx.hexdigit(f'd{i}') for i in range(3)]
    c = color('#' + ''.join(c for _, c in ds))
    ctx.eq(rgb(c), [17*d for d, _ in ds], 'each digit is repeated')


@harness(P)
def bad_text(ctx):
    n = ctx.choose('n', [0, 1, 2, 4, 5, 7])
    ds = [ctx.hexdigit(f'd{i}') for i in range(n)]
    t = ''.join(c for _, c in ds)
    ctx.raises(ValueError, lambda: color('#' + t), 'refused')
    ctx.raises(ValueError, lambda: color('x' + t), 'no sharp')


@harness(P, params=[{'k': k} for k in range(3)])
def equality(ctx, k):
    v = [7, 130, 201]
    v[k] = ctx.int('v', 0, 255)
    w = list(v)
    w[k] = ctx.int('w', 0, 255)
    a, b = color(*v), color(*w)
    same = ctx.and_(*[ctx.eq_(x, y) for x, y in zip(v, w)])
    ctx.check_iff(a == b, same, 'equality')
    ctx.check_iff(a == str(b), same, 'equality with a text')
    ctx.check_iff(a != b, ctx.not_(same), 'difference')


@harness(P)
def copies(ctx):
    v = [ctx.real(c, 0, 1) for c in 'rgb']
    a = color(*v, name='a')
    for b, label in ((a.clone(), 'clone'), (color(a), 'colour of a colour')):
        ctx.eq(rgb_float(b), v, label)
        ctx.check(b is not a, label)
        b.red = ctx.real('x' + label[0] + label[1], 0, 1)
        ctx.eq(rgb_float(a), v, 'independent of the ' + label)
    ctx.check(a.clone().name == 'a', 'the name is kept')
    ctx.check(color(a, name='b').name == 'b' and a.name == 'a', 'names')


@harness(P, params=[{'space': s} for s in ('hsv', 'hls')], budget=60)
def spaces(ctx, space):
    """the components of a colour in the space give the same colour"""
    v = ints(ctx)
    c = color(*v)
    h, y, z = getattr(c, space)
    d = color(hue=h, value=z, saturation=y) if space == 'hsv' else color(hue=h, light=y, saturation=z)
    ctx.eq(rgb_float(d), rgb_float(c), 'the same components')
    ctx.check(d == c, 'the same colour')


@harness(P, params=[{'space': s, 'sector': k} for s in ('value', 'light') for k in range(6)], budget=40)
def hue(ctx, space, sector):
    """HSV and HLS formulas"""
    f, s, x = ctx.real('f', 0.01, .99), ctx.real('s', 0.01, .99), ctx.real('x', 0.02, .98)
    c = color(hue=(sector + f)/6, saturation=s, **{space: x})
    if space == 'value':
        high, low = x, x*(1 - s)
    elif x <= .5:
        high, low = x*(1 + s), x*(1 - s)
    else:
        high, low = x + s - x*s, x - s + x*s
    up, down = low + (high - low)*f, high - (high - low)*f
    want = [(high, up, low), (down, high, low), (low, high, up), (low, down, high), (up, low, high), (high, low, down)][sector]
    ctx.eq(rgb_float(c), want, 'components')


@harness(P)
def missing(ctx):
    h = ctx.real('h', 0, 1)
    ctx.raises(ValueError, lambda: color(hue=h), 'a hue alone')


@harness(P)
def database(ctx):
    from Patro.GraphicStyle.Color.ColorDataBase import ColorDataBase
    vs = [ints(ctx, str(i)) for i in range(2)]
    db = ColorDataBase()
    names = ctx.choose('names', [('red', 'blue'), ('a', 'ab'), ('Red', 'red')])
    cs = [color(*v, name=n) for v, n in zip(vs, names)]
    for n, c in zip(names, cs):
        ctx.check(n not in db, 'not yet')
        db.add(n, c)
    ctx.check(len(db) == 2 and list(db.iter_names()) == list(names), 'names')
    ctx.check([id(x) for x in db] == [id(x) for x in cs], 'iteration')
    for n, v in zip(names, vs):
        ctx.check(n in db, 'name')
        ctx.eq(rgb(db[n]), v, 'item')
        ctx.eq(rgb(getattr(db, n)), v, 'attribute')
        ctx.eq(rgb(db.ensure_color(n)), v, 'a name')
        ctx.eq(rgb(db.ensure_color(color(*v))), v, 'a colour')
    ctx.check(db.ensure_color(None) is None, 'no colour')
    ctx.check(db.ensure_color(cs[0]) is cs[0], 'a colour is returned as it is')
    other = color(*ints(ctx, 'o'), name=names[0])
    ctx.check(db.ensure_color(other) is other, 'a colour is returned as it is, whatever its name')
    ds = [ctx.hexdigit(f'd{i}') for i in range(6)]
    c = db.ensure_color('#' + ''.join(c for _, c in ds))
    ctx.eq(rgb(c), [16*ds[i][0] + ds[i+1][0] for i in (0, 2, 4)], 'a text')
    ctx.raises(KeyError, lambda: db['nothing'], 'unknown item')
    for n in ('RED', 'Blue', 'A', 'AB', ' red', 'reD'):
        if n not in names:
            ctx.raises(KeyError, lambda: db[n], 'unknown item, close to a known one')
            ctx.check(n not in db, 'not registered')
    ctx.raises(AttributeError, lambda: db.nothing, 'unknown attribute')
    ctx.raises(ValueError, lambda: db.ensure_color(ctx.int('z', 0, 255)), 'not a colour')
    ctx.check(len(db) == 2, 'ensure_color registers nothing')
    db.add(names[0], other)
    ctx.check(db[names[0]] is other and db[names[1]] is cs[1] and len(db) == 2, 'registered again')


@harness(P)
def registered(ctx):
    """the colours of the library: the first set which defines a name gives its colour"""
    from Patro.GraphicStyle import Colors
    from Patro.GraphicStyle.Color import color_data as D
    want = {}
    for d in (D.BASE_COLORS, D.TABLEAU_COLORS, D.XKCD_COLORS, D.CSS4_COLORS, D.QML_COLORS, D.VALENTINA_COLORS):
        for k, v in d.items():
            want.setdefault(k.replace(' ', '_'), v.lower())
    ctx.check(set(want) == set(Colors.iter_names()), 'names')
    ctx.check(all(str(Colors[k]) == v and Colors[k].name == k for k, v in want.items()), 'colours')
