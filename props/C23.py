"""XML object adaptors: attributes survive writing and reading."""
from engine.harness import harness

MODULES = ['Patro.Common.Xml.Objectivity', 'Patro.FileFormat.Svg.SvgFormat']
BOUNDS = ('adaptor classes built in the harness (single, inherited, multiple bases) with attributes of the five base kinds and the SVG number and '
          'length kinds, present or not; arbitrary numbers, a few strings; lists of one to three numbers')
ASSUMPTIONS = ['lxml elements run as they are; numbers are written and read through their text, which stands for the symbolic value.']
META = dict(
    title='XML object adaptors: attributes are the same after writing and reading',
    statement="""An object adapted to an XML element keeps the value of each of its attributes (boolean, integer,
    number, list of numbers, string, SVG length with its unit or percentage) when it is written to XML, as text, and read back,
    or when it is built from keywords; an attribute which is absent has its default value and, when it has none, is not written; the
    XML name is used in the document and the Python name in the object; the attributes of all base classes are taken into account; two
    objects do not share values. The text of a text element is kept. An ill-formed boolean, integer or number raises an error. A list accepts commas and
    white spaces as separators.""",
    quant='all numbers; all subsets of the attributes',
    why='conversions are written per kind and per direction; a value that is not its own text (list, boolean, percentage) is where they diverge',
    files=['Patro/Common/Xml/Objectivity.py', 'Patro/FileFormat/Svg/SvgFormat.py'],
    mechanism=[('XmlObjectAdaptator and Attribute classes', 'Patro/Common/Xml/Objectivity.py'),
               ('NumberAttribute, PercentLengthAttribute', 'Patro/FileFormat/Svg/SvgFormat.py')])
P = 'C23'

KINDS = ['bool', 'int', 'float', 'list', 'string', 'number']


def classes():
    from Patro.Common.Xml import Objectivity as O
    from Patro.FileFormat.Svg.SvgFormat import NumberAttribute, PercentLengthAttribute

    class Top(O.XmlObjectAdaptator):
        __tag__ = 'top'
        __attributes__ = (O.BoolAttribute('bool', 'xbool', True), O.IntAttribute('int', 'x-int', 7))

    class Mixin:
        __attributes__ = (O.FloatAttribute('float', 'x:f'.replace(':', '.')), O.FloatListAttribute('list'))

    class Base(Mixin):
        __attributes__ = (O.StringAttribute('string', 'STRING', 'default'),)

    class All(Base, Top):
        __tag__ = 'all'
        __attributes__ = (NumberAttribute('number', default=3.5), PercentLengthAttribute('length'))
    return Top, All


NAMES = dict(bool='xbool', int='x-int', float='x.f', list='list', string='STRING', number='number', length='length')
DEFAULTS = dict(bool=True, int=7, float=None, list=None, string='default', number=3.5, length=None)


def value(ctx, kind):
    """-> (Python value, text)"""
    if kind == 'bool':
        return ctx.choose('bool', [(True, 'true'), (False, 'false'), (True, '1'), (False, '0')])
    if kind == 'int':
        i = ctx.int('int', -10**7, 10**7)
        return i, f'{i}'
    if kind in ('float', 'number'):
        x = ctx.real(kind, -1000, 1000)
        return x, f'{x}'
    if kind == 'list':
        n = ctx.choose('n', [1, 2, 3])
        v = [ctx.real(f'l{i}', -1000, 1000) for i in range(n)]
        return v, ctx.choose('sep', [' ', ',', ', ', '\n']).join(f'{x}' for x in v)
    return ctx.choose('string', [('abc', 'abc'), ('', ''), ('a "b" <é>', 'a "b" <é>'), ('1.0', '1.0'), ('true', 'true')])


def compare(ctx, o, exp, label):
    for k in KINDS:
        v, e = getattr(o, k), exp[k]
        if k in ('int', 'float', 'list', 'number') and e is not None:
            ctx.eq(v, e, f'{label} {k}')
        else:
            ctx.is_(v, e, f'{label} {k}')
            ctx.is_(type(v).__name__, type(e).__name__, f'{label} type of {k}')


@harness(P, params=[{'kind': k, 'other': o} for k in KINDS for o in (None, 'float')])
def one(ctx, kind, other):
    """one attribute is given, possibly another one too"""
    from lxml import etree
    Top, All = classes()
    v, t = value(ctx, kind)
    given = {kind: (v, t)}
    if other and other != kind:
        given[other] = value(ctx, other)
    exp = dict(DEFAULTS)
    exp.update({k: x[0] for k, x in given.items()})
    element = etree.fromstring(etree.tostring(etree.Element('all', **{NAMES[k]: x[1] for k, x in given.items()}, unknown='1')))
    a, b = All(element), All(**{k: x[0] for k, x in given.items()})
    compare(ctx, a, exp, 'read')
    compare(ctx, b, exp, 'keywords')
    for o, label in ((a, 'read'), (b, 'keywords')):
        s = etree.fromstring(o.to_xml_string())
        ctx.is_(s.tag, 'all', 'tag')
        ctx.is_(set(s.attrib), {NAMES[k] for k in NAMES if exp.get(k) is not None}, label + ': written attributes')
        compare(ctx, All(s), exp, label + ', written, read')
    ctx.is_(set(a.to_dict()), set(NAMES), 'dictionary')
    compare_dict = a.to_dict(exclude=(kind,))
    ctx.check(kind not in compare_dict and len(compare_dict) == len(NAMES) - 1, 'excluded attribute')


@harness(P)
def setter(ctx):
    """properties, objects are independent, extra attributes of the document"""
    Top, All = classes()
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    a, b = All(float=x), All(float=y)
    ctx.eq([a.float, b.float], [x, y], 'two objects')
    a.float = y
    a.int = 3
    b.string = 'z'
    ctx.eq([a.float, a.int, b.int], [y, 3, 7], 'set')
    ctx.is_((a.string, b.string), ('default', 'z'), 'string')
    e = a.to_xml(extra='1')
    ctx.is_(e.attrib['extra'], '1', 'extra attribute')
    ctx.is_(e.attrib['x-int'], '3', 'written value')
    t = Top(int=5)
    ctx.check(not hasattr(t, 'float') and t.int == 5 and t.bool is True, 'base class')


@harness(P)
def none(ctx):
    from Patro.Common.Xml.Objectivity import FloatListAttribute
    ctx.check(FloatListAttribute.from_xml('none') is None, 'none is no list')
    Top, All = classes()
    a = All(string='none')
    ctx.is_(a.string, 'none', 'a string is kept')


@harness(P)
def errors(ctx):
    from Patro.Common.Xml import Objectivity as O
    x = ctx.real('x', 0.1, 0.9)
    k, t = ctx.choose('case', [('Bool', 'True'), ('Bool', ''), ('Bool', '2'), ('Int', '{}'), ('Int', 'a'), ('Int', ''), ('Float', 'a'), ('Float', ''),
                               ('Float', '{},{}'), ('FloatList', '{} a'), ('FloatList', '{};{}'), ('Bool', '{}')])
    cls = getattr(O, k + 'Attribute')
    ctx.raises(ValueError, lambda: cls.from_xml(t.format(x, x)), 'ill-formed value')


@harness(P)
def length(ctx):
    from Patro.FileFormat.Svg.SvgFormat import PercentLengthAttribute as L
    x = ctx.real('x', -100000, 100000)
    u = ctx.choose('u', ['', '%', 'em', 'ex', 'px', 'in', 'cm', 'mm', 'pt', 'pc'])
    v = L.from_xml(f'{x}{u}')
    number = (lambda a: a) if u == '' else (lambda a: a.__float__())
    ctx.eq(number(v) * (100 if u == '%' else 1), x, 'number')
    if u not in ('', '%'):
        ctx.is_(v.unit, u, 'unit')
    t = L.to_xml(v)
    if u:
        ctx.check(t.endswith(u), 'written unit')
    w = L.from_xml(t)
    ctx.is_(type(w).__name__, type(v).__name__, 'kind')
    ctx.eq(number(w), number(v), 'number after writing')
    if u not in ('', '%'):
        ctx.is_(w.unit, u, 'unit after writing')
    ctx.is_(L.from_xml('inherit'), 'inherit', 'inherit')


@harness(P)
def text(ctx):
    from lxml import etree
    from Patro.FileFormat.Svg.SvgFormat import Style, Text
    x = ctx.real('x', -10, 10)
    t = ctx.choose('t', ['', 'abc', ' a <b> & é ', '\n.normal { font: 12px }\n'])
    cls = ctx.choose('cls', [Text, Style])
    k = dict(x=x, fill='red') if cls is Text else {}
    a = cls(text=t, **k)
    b = cls(etree.fromstring(a.to_xml_string()))
    ctx.is_(a.text, t, 'text')
    ctx.is_(b.text, t, 'text after writing and reading')
    if k:
        ctx.eq(b.x, x, 'attribute')
        ctx.is_(b.fill, 'red', 'attribute')
        ctx.check(b.y is None, 'absent attribute')


ELEMENTS = {'Circle': ('cx', 'cy', 'r'), 'Ellipse': ('cx', 'cy', 'rx', 'ry'), 'Line': ('x1', 'y1', 'x2', 'y2'), 'Rect': ('x', 'y', 'rx', 'ry'),
            'Text': ('x', 'y', 'dx', 'dy'), 'Svg': ('x', 'y')}


@harness(P)
def svg_elements(ctx):
    """SVG elements with numbers, style, dash array"""
    from lxml import etree
    from Patro.FileFormat.Svg import SvgFormat
    n = ctx.choose('cls', list(ELEMENTS))
    cls = getattr(SvgFormat, n)
    k = {a: ctx.real(f'v{i}', -10, 10) for i, a in enumerate(ELEMENTS[n])}
    s = {}
    if n in ('Circle', 'Ellipse', 'Line', 'Rect'):
        s = dict(id='i', stroke='red', fill='none', style='a:b', stroke_linecap='round', stroke_linejoin='bevel')
        k['stroke_miterlimit'] = ctx.real('m', 0, 10)
        k['stroke_dasharray'] = [ctx.real('d0', 0, 10), ctx.real('d1', 0, 10)]
    if n == 'Svg':
        s = dict(version='1.1', width='10mm', height='100%')
        k['view_box'] = [ctx.real(f'b{i}', 0, 10) for i in range(4)]
    a = cls(**k, **s)
    e = etree.fromstring(a.to_xml_string())
    b = cls(e)
    for name, v in k.items():
        ctx.eq(getattr(b, name), v, name)
    for name, v in s.items():
        ctx.is_(getattr(b, name), v, name)
    xml = {'stroke_linecap': 'stroke-linecap', 'stroke_linejoin': 'stroke-linejoin', 'stroke_miterlimit': 'stroke-miterlimit',
           'stroke_dasharray': 'stroke-dasharray', 'view_box': 'viewBox'}
    ctx.is_({x for x in e.attrib}, {xml.get(x, x) for x in list(k) + list(s)}, 'names in the document')
