"""Valentina files: patterns and measurements."""
import contextlib
import io
import os
import shutil
import tempfile

from engine.harness import harness
from props.C31 import REFS, execute, pattern, v2      # noqa

MODULES = ['Patro.FileFormat.Valentina.Pattern', 'Patro.FileFormat.Valentina.Measurement', 'Patro.FileFormat.Valentina.VitFormat',
           'Patro.Pattern.Calculator', 'Patro.Pattern.Pattern', 'Patro.Pattern.Sketch', 'Patro.Pattern.SketchOperation', 'Patro.Measurement.Measurement',
           'Patro.Measurement.ValentinaMeasurement', 'Patro.Measurement.PersonalData', 'Patro.Common.Xml.Objectivity']
BOUNDS = 'files of at most 2 pieces, 8 calculations and 4 measurements; coordinates, lengths, offsets and values in [-10, 10], any angle in degrees; the expressions of C31'
BOUNDS += '; also a dozen of calculations with ids of one to three digits'
ASSUMPTIONS = ['sympy is modelled by exact arithmetic on expression trees', 'the rtree package is modelled by a list of boxes',
               'lxml is real: symbolic numbers are numerals in the text of the file']
META = dict(
    title='Valentina files: patterns and measurements are read as written, and back',
    statement="""Reading a Valentina pattern (.val) gives, piece by piece and in the order of the file, the operations it describes: kind, unique id (in any order), name, points, expressions, label offset, line style and
    colour, evaluated with the measurements of its file; calculations which are not supported are skipped. A pattern made by code or read from a file is the same after it is written and read again (unit, pieces, ids,
    operations, styles including none, coordinates). A file without unit, with an unknown measurement file or with twice the same id raises NameError. A measurement file (.vit) gives unit, system, personal data and the
    measurements with their value, full name and description; reading one file does not change what was read from an other.""",
    quant='all coordinates, lengths, angles, offsets, values and kinds of calculation',
    why='attributes are mapped by name from tables, for a mistake to show a file has to use each of them with distinct values',
    files=['Patro/FileFormat/Valentina/Pattern.py', 'Patro/FileFormat/Valentina/Measurement.py', 'Patro/FileFormat/Valentina/VitFormat.py', 'Patro/Pattern/SketchOperation.py'],
    mechanism=[('ValFileReader, ValFileWriter', 'Patro/FileFormat/Valentina/Pattern.py'), ('VitFile', 'Patro/FileFormat/Valentina/Measurement.py'), ('adaptors', 'Patro/FileFormat/Valentina/VitFormat.py')])
P = 'C35'


@contextlib.contextmanager
def folder():
    path = tempfile.mkdtemp(prefix='patro-c35-')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield path
    finally:
        shutil.rmtree(path)


def save(path, text):
    with open(path, 'w') as f:
        f.write(text)
    return path


def vit(body, unit='cm', system='998', personal=None):
    if personal is None:
        personal = '<family-name>Doe</family-name><given-name>Jane</given-name><birth-date>1970-01-02</birth-date><gender>female</gender><email/>'
    return f"""<?xml version='1.0' encoding='UTF-8'?>
<vit><!--Measurements--><version>0.3.3</version><read-only>false</read-only><notes/><unit>{unit}</unit><pm_system>{system}</pm_system>
<personal>{personal}</personal><body-measurements>{body}</body-measurements></vit>"""


def val(draws, unit='<unit>cm</unit>', measurements='<measurements/>', modeling='', details=''):
    body = ''.join(f'<draw name="{n}"><calculation>{c}</calculation><modeling>{modeling}</modeling><details>{details}</details><groups/></draw>' for n, c in draws)
    return f"""<?xml version="1.0" encoding="UTF-8"?>
<pattern><!--Pattern--><version>0.7.10</version>{unit}<description/><notes/><patternName>n</patternName>{measurements}<increments/><previewCalculations/>{body}</pattern>"""


def read(path):
    from Patro.FileFormat.Valentina.Pattern import ValFileReader
    return ValFileReader(path)


def write(path, pat, vit_file=None):
    from Patro.FileFormat.Valentina.Pattern import ValFileWriter
    ValFileWriter(path, vit_file, pat)
    return path


def points(ctx, fixed=None):
    """four points and their elements, ids 1 to 4"""
    pts, text = {}, ''
    for i, n in enumerate('ABCD'):
        p = (fixed or {}).get(n) or (ctx.real('x' + n, -10, 10), ctx.real('y' + n, -10, 10))
        pts[n] = p
        text += f'<point id="{i + 1}" mx="0.1" x="{p[0]}" y="{p[1]}" name="{n}" type="single" my="0.2"/>\n'
    return pts, text


FIXED = {'A': (1, 2), 'B': (6, 3), 'C': (2, -4), 'D': (-3, 7)}
LINES = {'hair': 'SolidLine', 'dashLine': 'DashLine', 'dotLine': 'DotLine', 'dashDotLine': 'DashDotLine', 'dashDotDotLine': 'DashDotDotLine', 'none': 'NoPen'}
COLOURS = {'black': '#000000', 'blue': '#0000ff', 'deepskyblue': '#00bfff', 'mediumseagreen': '#3cb371', '#123456': '#123456'}
# attributes of each kind: operation attribute -> xml attribute
MAP = {
    'SinglePoint': ('point', 'single', {'x': 'x', 'y': 'y'}, {}, False),
    'AlongLinePoint': ('point', 'alongLine', {'length': 'length'}, {'first_point': 'firstPoint', 'second_point': 'secondPoint'}, True),
    'EndLinePoint': ('point', 'endLine', {'length': 'length', 'angle': 'angle'}, {'base_point': 'basePoint'}, True),
    'NormalPoint': ('point', 'normal', {'length': 'length', 'angle': 'angle'}, {'first_point': 'firstPoint', 'second_point': 'secondPoint'}, True),
    'LineIntersectPoint': ('point', 'lineIntersect', {}, {'point1_line1': 'p1Line1', 'point2_line1': 'p2Line1', 'point1_line2': 'p1Line2', 'point2_line2': 'p2Line2'}, False),
    'PointOfContact': ('point', 'pointOfContact', {'radius': 'radius'}, {'first_point': 'firstPoint', 'second_point': 'secondPoint', 'center': 'center'}, False),
    'PointOfIntersection': ('point', 'pointOfIntersection', {}, {'first_point': 'firstPoint', 'second_point': 'secondPoint'}, False),
    'Line': ('line', None, {}, {'first_point': 'firstPoint', 'second_point': 'secondPoint'}, True),
    'SimpleInteractiveSpline': ('spline', 'simpleInteractive', {'length1': 'length1', 'length2': 'length2', 'angle1': 'angle1', 'angle2': 'angle2'},
                                {'first_point': 'point1', 'second_point': 'point4'}, True),
}
KINDS = list(MAP)


def line_names(kind):
    return ('penStyle', 'color') if kind == 'SimpleInteractiveSpline' else ('typeLine', 'lineColor')


def describe(ctx, kind, expression, styled=True):
    """the parameters of an operation: expressions, points (names), label offset, style and colour"""
    exprs, values = {}, {}
    for e in MAP[kind][2]:
        if e.startswith('angle'):
            k = ctx.angle(e)
        else:
            k = ctx.real(e, 0.1, 10)
        exprs[e], values[e] = f'{k}', k
        if expression == 'expression' and not e.startswith('angle'):
            exprs[e], values[e] = f'm + {k}', ctx.m + k
        elif expression == 'line' and not e.startswith('angle'):
            exprs[e] = f'Line_A_B*{k}'
            x, y = (ctx.pts['B'][i] - ctx.pts['A'][i] for i in (0, 1))
            values[e] = ctx.sqrt(x * x + y * y) * k
    order = ctx.choose('points', ['ABCD', 'CADB'])
    return dict(exprs=exprs, values=values, points=dict(zip(MAP[kind][3], order)), name='P', offset=(ctx.real('mx', -3, 3), ctx.real('my', -3, 3)),
                style=ctx.choose('style', ['hair', 'dashDotLine', 'none']) if MAP[kind][4] and styled else None,
                color=ctx.choose('color', ['black', 'deepskyblue', '#123456']) if MAP[kind][4] and styled else None)


def element(kind, d, i, ids):
    tag, type_, exprs, refs, styled = MAP[kind]
    a = {'id': i}
    if type_:
        a['type'] = type_
    if tag == 'point':
        a.update(name=d['name'], mx=d['offset'][0], my=d['offset'][1])
    for k, x in exprs.items():
        a[x] = d['exprs'][k]
    for k, x in refs.items():
        a[x] = ids[d['points'][k]]
    if styled:
        a.update(zip(line_names(kind), (d['style'], d['color'])))
    return '<%s %s/>' % (tag, ' '.join(f'{k}="{v}"' for k, v in a.items()))


def check_operation(ctx, op, kind, d, i, exprs=True):
    """the operation is the described one"""
    tag, type_, _, refs, styled = MAP[kind]
    ctx.is_(type(op).__name__, kind, 'kind')
    ctx.is_(op.id, i, 'id')
    if tag == 'point':
        ctx.is_(op.name, d['name'], 'name')
        ctx.eq([op.label_offset.x, op.label_offset.y], list(d['offset']), 'label offset')
    for k in refs:
        ctx.is_(getattr(op, k).name, d['points'][k], k)
    for k, v in d['values'].items():
        if exprs:
            ctx.eq(getattr(op, k).value, v, k)
    if styled:
        ctx.is_(op.line_style.name, LINES[d['style']], 'line style')
        ctx.is_(str(op.line_color), COLOURS[d['color']], 'line colour')


def same_operation(ctx, a, b, exprs=True):
    """same in two patterns"""
    ctx.is_(type(a).__name__, type(b).__name__, 'same kind')
    ctx.is_(a.id, b.id, 'same id')
    tag, _, values, refs, styled = MAP[type(a).__name__]
    if tag == 'point':
        ctx.is_(a.name, b.name, 'same name')
        ctx.eq(a.label_offset, b.label_offset, 'same offset')
        ctx.eq(a.vector, b.vector, 'same position')
    for k in values:
        x, y = getattr(a, k), getattr(b, k)
        ctx.is_(x.is_float(), y.is_float(), f'same form of {k}')
        if exprs:
            ctx.eq(x.value, y.value, f'same {k}')
    for k in refs:
        ctx.is_(getattr(a, k).id, getattr(b, k).id, f'same {k}')
    if styled:
        ctx.check(a.line_style == b.line_style, 'same line style')
        ctx.is_(a.line_color and str(a.line_color), b.line_color and str(b.line_color), 'same colour')


def setup(ctx, kind):
    ctx.m = ctx.real('m', 0.1, 10)
    simple = kind in ('PointOfContact', 'LineIntersectPoint', 'SimpleInteractiveSpline')
    ctx.pts, text = points(ctx, FIXED if simple else dict(FIXED, A=None))
    if not simple:
        for n in 'BCD':
            x, y = (ctx.pts['A'][i] - ctx.pts[n][i] for i in (0, 1))
            ctx.assume(x * x + y * y > 0.1)
    return text


MEASURE = '<measurements>m.vit</measurements>'
IDS = dict(A=1, B=2, C=3, D=4)


@harness(P, params=[{'kind': k} for k in KINDS], budget=40)
def calculation(ctx, kind):
    """a file with a calculation"""
    text = setup(ctx, kind)
    d = describe(ctx, kind, ctx.choose('expression', ['number', 'expression', 'line']) if MAP[kind][2] else 'number')
    i = ctx.choose('id', [5, 27])
    with folder() as f:
        save(os.path.join(f, 'm.vit'), vit(f'<m value="{ctx.m}" name="m"/>'))
        r = read(save(os.path.join(f, 'a.val'), val([('piece', text + element(kind, d, i, IDS))], measurements=MEASURE)))
    ctx.is_(r.pattern.unit, 'cm', 'unit')
    ctx.is_(r.pattern.scope_names(), ['piece'], 'pieces')
    sk = r.pattern.scope('piece').sketch
    ctx.is_([o.id for o in sk.operations], [1, 2, 3, 4, i], 'operations')
    for n, o in zip('ABCD', sk.operations):
        ctx.eq([o.vector.x, o.vector.y], list(ctx.pts[n]), 'position')
        ctx.is_(o.name, n, 'name')
        ctx.eq([o.label_offset.x, o.label_offset.y], [ctx.frac(1, 10), ctx.frac(1, 5)], 'offset of ' + n)
    op = sk.operations[4]
    check_operation(ctx, op, kind, d, i)
    if MAP[kind][0] == 'point' and kind != 'PointOfContact':
        # same as the operation made by code
        q = pattern(ctx, m=ctx.m).add_scope('q').sketch
        for n in 'ABCD':
            q.SinglePoint(n, *ctx.pts[n], v2(0, 0))
        o = getattr(q, kind)(name='P', label_offset=v2(0, 0), **d['points'], **d['values'])
        q.eval()
        ctx.eq(op.vector, o.vector, 'evaluated')
    if kind == 'SimpleInteractiveSpline':
        g = op.geometry()
        p0 = ctx.pts[d['points']['first_point']]
        c, s = ctx.deg_cs(d['values']['angle1'])
        ctx.eq([g.p0.x, g.p0.y], list(p0), 'start of the spline')
        ctx.eq([g.p1.x, g.p1.y], [p0[0] + d['values']['length1'] * c, p0[1] + d['values']['length1'] * s], 'control point')


@harness(P, params=[{'kind': k} for k in KINDS], budget=40)
def written(ctx, kind):
    """the file of a pattern made by code, element by element, then read"""
    from lxml import etree
    from Patro.GraphicStyle import StrokeStyle
    setup(ctx, kind)
    d = describe(ctx, kind, ctx.choose('expression', ['number', 'text', 'expression']) if MAP[kind][2] else 'number')
    pat = pattern(ctx, m=ctx.m)
    sk = pat.add_scope('first & second').sketch
    for n in 'ABCD':
        sk.SinglePoint(n, *ctx.pts[n], v2(1, 2))
    tag, type_, values, refs, styled = MAP[kind]
    kwargs = dict(d['points'])
    number = all(d['exprs'][k] == str(d['values'][k]) for k in values)
    kwargs.update(d['values'] if number and ctx.choose('numbers', [True, False]) else d['exprs'])
    default = styled and ctx.choose('default', [False, True])
    if tag == 'point':
        kwargs.update(name='P', label_offset=v2(*d['offset']))
    if styled and not default:
        kwargs.update(line_style=getattr(StrokeStyle, LINES[d['style']]), line_color=d['color'])
    i = ctx.choose('id', [None, 9]) if default or not styled else 9
    op = getattr(sk, kind)(**kwargs, **({'id': i} if i else {}))
    sk.eval()
    with folder() as f:
        path = write(os.path.join(f, 'out.val'), pat)
        root = etree.parse(path).getroot()
        again = None
        if all(d['exprs'][k].find('m ') < 0 for k in values):
            again = read(path)
    ctx.is_([root.find(t).text for t in ('version', 'unit', 'measurements')], ['0.7.10', 'cm', None], 'header')
    ctx.is_([e.attrib['name'] for e in root.findall('draw')], ['first & second'], 'pieces')
    es = root.findall('draw/calculation/*')
    ctx.is_([int(e.attrib['id']) for e in es], [0, 1, 2, 3, i or 4], 'elements')
    for e, n in zip(es, 'ABCD'):
        ctx.is_((e.tag, e.attrib['type'], e.attrib['name']), ('point', 'single', n), 'point')
        ctx.eq([ctx.num(e.attrib[k]) for k in ('x', 'y', 'mx', 'my')], [*ctx.pts[n], 1, 2], 'numbers of ' + n)
    e = es[4]
    a = dict(e.attrib)
    ctx.is_((e.tag, a.get('type')), (tag, type_), 'element')
    for k, x in refs.items():
        ctx.is_(int(a[x]), sk.get_operation(d['points'][k]).id, x)
    for k, x in values.items():
        if number:
            ctx.eq(ctx.num(a[x]), d['values'][k], x)
    if tag == 'point':
        ctx.is_(a['name'], 'P', 'name')
        ctx.eq([ctx.num(a['mx']), ctx.num(a['my'])], list(d['offset']), 'offset')
    if styled and not default:
        s, c = line_names(kind)
        ctx.is_(a[s], d['style'], 'style')
        ctx.is_(a[c], COLOURS[d['color']], 'colour')
    if again is not None:
        new = again.pattern.scope('first & second').sketch.operations
        ctx.is_(len(new), 5, 'read again')
        for x, y in zip(new, sk.operations):
            same_operation(ctx, x, y)
    elif values:
        for k, x in values.items():
            if not k.startswith('angle'):
                ctx.is_(a[x], str(getattr(op, k)), x)


@harness(P, params=[{'kind': k} for k in KINDS if MAP[k][4]])
def line_styles(ctx, kind):
    """all styles and colours, read, written and read again"""
    text = setup(ctx, kind)
    d = describe(ctx, kind, 'number', False)
    d['style'] = ctx.choose('any style', list(LINES))
    d['color'] = ctx.choose('any color', list(COLOURS)) if d['style'] == 'hair' else 'blue'
    with folder() as f:
        save(os.path.join(f, 'm.vit'), vit(f'<m value="{ctx.m}" name="m"/>'))
        r = read(save(os.path.join(f, 'a.val'), val([('piece', text + element(kind, d, 5, IDS))], measurements=MEASURE)))
        again = read(write(os.path.join(f, 'out.val'), r.pattern))
    a, b = (x.pattern.scope('piece').sketch.operations[4] for x in (r, again))
    check_operation(ctx, a, kind, d, 5)
    check_operation(ctx, b, kind, d, 5)


def many(ctx):
    """a piece with several kinds of calculations"""
    ctx.pts, text = points(ctx, dict(FIXED, A=None))
    x, y = (ctx.pts['A'][i] - ctx.pts['B'][i] for i in (0, 1))
    ctx.assume(x * x + y * y > 0.1)
    k = ctx.real('k', -10, 10)
    ctx.m = ctx.real('m', 0.1, 10)
    return k, text + f"""<point id="7" firstPoint="1" typeLine="none" mx="0.5" secondPoint="2" length="{k}" name="E" lineColor="black" type="alongLine" my="-1"/>
<point id="5" basePoint="7" typeLine="hair" mx="0.1" length="m*2" name="F" lineColor="blue" type="endLine" angle="90" my="0.25"/>
<line id="12" firstPoint="5" typeLine="dotLine" secondPoint="7" lineColor="green"/>
"""


@harness(P, params=[{'where': w} for w in ('same', 'below', 'absolute')], budget=40)
def pieces(ctx, where):
    """several pieces, then written and read twice"""
    from Patro.FileFormat.Valentina.Measurement import VitFile
    k, text = many(ctx)
    second = f'<point id="6" mx="0" x="5" y="m + {k}" name="A" type="single" my="0"/><point id="20" firstPoint="6" mx="0" secondPoint="6" name="B" type="pointOfIntersection" my="0"/>'
    with folder() as f:
        os.mkdir(os.path.join(f, 'sub'))
        m = save(os.path.join(f, 'sub' if where == 'below' else '', 'm.vit'), vit(f'<m value="{ctx.m}" name="m"/>'))
        name = {'same': 'm.vit', 'below': 'sub/m.vit', 'absolute': m}[where]
        order = ctx.choose('order', [1, -1])
        r = read(save(os.path.join(f, 'a.val'), val([('one', text), ('two', second)][::order], '<unit>mm</unit>', f'<measurements>{name}</measurements>')))
        other = read(write(os.path.join(f, 'b.val'), r.pattern, r.vit_file))
        last = read(write(os.path.join(f, 'c.val'), other.pattern, other.vit_file))
        ctx.is_(os.path.samefile(str(last.vit_file.path), m), True, 'measurement file')
        ctx.eq(VitFile(m).measurements['m'].value, ctx.m, 'measurement file is not changed')
    for q in (r, other, last):
        ctx.is_(q.pattern.unit, 'mm', 'unit')
        ctx.is_(q.pattern.scope_names(), ['one', 'two'][::order], 'pieces')
        ctx.is_([[o.id for o in q.pattern.scope(n).sketch.operations] for n in ('one', 'two')], [[1, 2, 3, 4, 7, 5, 12], [6, 20]], 'ids')
        ctx.check(q.pattern.measurements is q.measurements, 'measurements')
        ctx.eq(q.measurements['m'].value, ctx.m, 'measurement')
        s, t = (q.pattern.scope(n).sketch for n in ('one', 'two'))
        e, g = s.get_operation('E').vector, s.get_operation('F').vector
        ctx.eq([g.x - e.x, g.y - e.y], [0, 2 * ctx.m], 'end of line')
        a, b = t.get_operation('A'), t.get_operation('B')
        ctx.eq([a.vector.x, a.vector.y, b.vector.x, b.vector.y], [5, ctx.m + k] * 2, 'second piece')
    for q in (other, last):
        for n in ('one', 'two'):
            for x, y in zip(q.pattern.scope(n).sketch.operations, r.pattern.scope(n).sketch.operations):
                same_operation(ctx, x, y)


UNSUPPORTED = [
    '<point id="68" basePoint="1" typeLine="hair" mx="0.5" name="Z" lineColor="blue" type="curveIntersectAxis" angle="10" curve="59" my="-3.1"/>',
    '<point id="73" mx="-3.7" length="30" arc="72" name="Z" type="cutArc" my="1.4"/>',
    '<point id="18" basePoint="1" typeLine="hair" mx="0.1" p2Line="2" name="Z" p1Line="3" lineColor="blue" type="height" my="0.2"/>',
    '<point id="20" basePoint="1" typeLine="hair" mx="0.4" p2Line="1" name="Z" p1Line="2" lineColor="blue" type="lineIntersectAxis" angle="150" my="-1.8"/>',
    '<point id="13" firstPoint="2" thirdPoint="3" typeLine="hair" mx="0.1" secondPoint="1" length="Line_A_X" name="Z" lineColor="blue" type="bisector" my="0.2"/>',
    '<point id="28" axisP2="1" axisP1="2" firstPoint="3" mx="0.8" secondPoint="4" name="T1" type="triangle" my="1.4"/>',
    '<spline id="57" duplicate="1" point4="1" point2="2" point3="3" type="cubicBezier" point1="4" color="goldenrod"/>',
    '<spline id="66" type="cubicBezierPath" color="deepskyblue"><pathPoint pSpline="1"/><pathPoint pSpline="2"/></spline>',
    '<arc id="72" radius="10" angle2="-30" center="1" angle1="30" type="simple" color="black"/>',
    '<elArc id="87" angle2="300" center="1" radius2="15" rotationAngle="60" radius1="10" angle1="30" type="simple" color="lime"/>',
    '<operation id="110" center="1" suffix="mir2" axisType="1" type="flippingByAxis"><source><item idObject="1"/></source><destination><item idObject="111" mx="0.1" my="0.2"/></destination></operation>',
]


@harness(P)
def skipped(ctx):
    """calculations which are not supported"""
    pts, text = points(ctx)
    other = ctx.choose('other', UNSUPPORTED)
    where = ctx.choose('where', ['start', 'end'])
    line = '<point id="90" firstPoint="1" mx="0.1" secondPoint="2" name="Y" type="pointOfIntersection" my="0.2"/>'
    with folder() as f:
        r = read(save(os.path.join(f, 'a.val'), val([('piece', text + other + line if where == 'end' else other + text + line)])))
    sk = r.pattern.scope(0).sketch
    ctx.is_([o.id for o in sk.operations], [1, 2, 3, 4, 90], 'the other operations')
    for n in 'ABCD':
        o = sk.get_operation(n)
        ctx.eq([o.vector.x, o.vector.y], list(pts[n]), 'position')
    ctx.eq([sk.get_operation('Y').vector.x, sk.get_operation('Y').vector.y], [pts['A'][0], pts['B'][1]], 'next one')


@harness(P)
def errors(ctx):
    x = ctx.real('x', -10, 10)
    what = ctx.choose('what', ['unit', 'measurements', 'id', 'id of an other piece', 'reference'])
    a = f'<point id="3" mx="0.1" x="{x}" y="1" name="A" type="single" my="0.2"/>'
    b = f'<point id="3" mx="0.1" x="1" y="{x}" name="B" type="single" my="0.2"/>'
    if what == 'reference':
        with folder() as f:
            path = save(os.path.join(f, 'a.val'), val([('piece', a + '<line id="47" firstPoint="3" typeLine="hair" secondPoint="4" lineColor="blue"/>')]))
            ctx.raises(KeyError, lambda: read(path), what)
        return
    with folder() as f:
        path = save(os.path.join(f, 'a.val'), {
            'unit': lambda: val([('piece', a)], ctx.choose('unit', ['', '<unit/>'])),
            'measurements': lambda: val([('piece', a)], measurements='<measurements>none.vit</measurements>'),
            'id': lambda: val([('piece', a + b)]),
            'id of an other piece': lambda: val([('piece', a), ('other', b)])}[what]())
        ctx.raises(NameError, lambda: read(path), what)


@harness(P)
def details(ctx):
    """a detail of a garment does not disturb the operations"""
    pts, text = points(ctx)
    k = ctx.real('k', -10, 10)
    text += f'<spline id="53" angle2="138" length2="{k}" angle1="329" length1="18" point4="2" type="simpleInteractive" point1="1" color="blue"/>'
    modeling = f'<point id="108" idObject="1" inUse="true" mx="{k}" type="modeling" my="0.26"/><spline id="111" idObject="53" inUse="true" type="modelingSpline"/>'
    detail = f"""<detail id="118" version="2" forbidFlipping="false" width="1" united="false" mx="0" name="Devant" inLayout="true" seamAllowance="true" my="{k}">
<data letter="" width="0" mx="0" height="0" fontSize="0" visible="false" rotation="0" my="0"/><patternInfo width="0" mx="0" height="0" fontSize="0" visible="false" rotation="0" my="0"/>
<grainline arrows="0" mx="0" length="0" visible="false" rotation="90" my="0"/><nodes><node idObject="108" type="NodePoint"/><node idObject="111" reverse="1" type="NodeSpline"/></nodes></detail>"""
    with folder() as f:
        r = read(save(os.path.join(f, 'a.val'), val([('piece', text)], modeling=modeling, details=detail if ctx.choose('detail', [True, False]) else '')))
    sk = r.pattern.scope(0).sketch
    ctx.is_([o.id for o in sk.operations], [1, 2, 3, 4, 53], 'operations')
    g = sk.get_operation(53).geometry()
    ctx.eq([g.p0.x, g.p0.y, g.p3.x, g.p3.y], [*pts['A'], *pts['B']], 'spline')


@harness(P)
def adaptors(ctx):
    """attributes of the modeling items, details and nodes"""
    from lxml import etree
    from Patro.FileFormat.Valentina import VitFormat as F
    x, y = ctx.real('x', -10, 10), ctx.real('y', -10, 10)
    b = ctx.choose('bool', [True, False])
    t = 'true' if b else 'false'
    o = F.ModelingPoint(etree.fromstring(f'<point id="108" idObject="66" inUse="{t}" mx="{x}" type="modeling" my="{y}"/>'))
    ctx.is_((o.id, o.object_id, o.in_use, o.type), (108, 66, b, 'modeling'), 'modeling point')
    ctx.eq([o.mx, o.my], [x, y], 'offset')
    o = F.ModelingSpline(etree.fromstring(f'<spline id="111" idObject="107" inUse="{t}" type="modelingSpline"/>'))
    ctx.is_((o.id, o.object_id, o.in_use, o.type), (111, 107, b, 'modelingSpline'), 'modeling spline')
    m = {108: 'x', 7: 'y'}
    o = F.Detail(m, etree.fromstring(f'<detail id="118" version="2" forbidFlipping="{t}" width="3" united="{"false" if b else "true"}" mx="{x}" name="Devant" inLayout="{t}" seamAllowance="true" my="{y}"/>'))
    ctx.is_((o.id, o.version, o.forbidFlipping, o.width, o.united, o.name, o.inLayout, o.seamAllowance), (118, 2, b, 3, not b, 'Devant', b, True), 'detail')
    ctx.eq([o.mx, o.my], [x, y], 'offset')
    nodes = [F.DetailNode(etree.fromstring(s)) for s in ('<node idObject="7" type="NodePoint"/>', f'<node idObject="108" reverse="{int(b)}" type="NodeSpline"/>')]
    for n in nodes:
        o.append_node(n)
    ctx.check([(n is nodes[i], q) for i, (n, q) in enumerate(o.iter_on_nodes())] == [(True, 'y'), (True, 'x')], 'nodes')
    ctx.is_([(n.object_id, n.type, n.reverse) for n in nodes], [(7, 'NodePoint', None), (108, 'NodeSpline', b)], 'node')
    o = F.DetailGrainline(etree.fromstring(f'<grainline arrows="1" mx="{x}" length="5" visible="{t}" rotation="90" my="{y}"/>'))
    ctx.is_((o.arrows, o.length, o.visible, o.rotation), (1, 5, b, 90), 'grain line')
    ctx.eq([o.mx, o.my], [x, y], 'offset')
    o = F.DetailData(etree.fromstring(f'<data letter="F" width="1" mx="{x}" height="2" fontSize="3" visible="{t}" rotation="4" my="{y}"/>'))
    ctx.is_((o.letter, o.width, o.height, o.fontSize, o.visible, o.rotation), ('F', 1, 2, 3, b, 4), 'data')
    ctx.eq([o.mx, o.my], [x, y], 'offset')


@harness(P)
def measurements(ctx):
    """a measurement file"""
    from datetime import date
    from Patro.FileFormat.Valentina.Measurement import VitFile
    a, b = ctx.real('a', -10, 10), ctx.real('b', -10, 10)
    ms = [('height_knee', f'{a}', a, 'full_name="Knee" description="From the &lt;floor&gt;"'), ('b', f'{b}', b, ''),
          ('@c', 'height_knee*2 + b', 2 * a + b, 'full_name="Custom"'), ('d_', '@c - b/2', 2 * a + b / 2, 'description="last"')]
    order = ctx.choose('order', [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)])
    unit = ctx.choose('unit', ['cm', 'mm', 'inch'])
    system = ctx.choose('system', ['998', 'p3'])
    gender = ctx.choose('gender', ['male', 'female', 'unknown'])
    mail = ctx.choose('email', [None, '', 'a@b.c'])
    style = ctx.choose('personal', ['old', 'customer'])
    who = '<family-name>Doe</family-name><given-name>John</given-name>' if style == 'old' else '<customer>John Doe</customer>'
    personal = f'{who}<birth-date>1970-01-02</birth-date><gender>{gender}</gender>' + ('' if mail is None else f'<email>{mail}</email>')
    body = ''.join(f'<m {ms[i][3]} value="{ms[i][1]}" name="{ms[i][0]}"/>' for i in order)
    with folder() as f:
        v = VitFile(save(os.path.join(f, 'm.vit'), vit(body, unit, system, personal)))
        ctx.is_(str(v.path), os.path.join(f, 'm.vit'), 'path')
        w = VitFile(save(os.path.join(f, 'w.vit'), vit('<m name="b" value="1"/>', 'mm' if unit == 'cm' else 'cm', '0')))
    m = v.measurements
    ctx.is_(m.unit.name if hasattr(m.unit, 'name') else m.unit, unit, 'unit')
    ctx.is_(str(getattr(m.pattern_making_system, 'code', m.pattern_making_system)), system, 'system')
    for i in range(4):
        n, _, value, more = ms[i]
        ctx.eq(m[n].value, value, 'value of ' + n)
        ctx.is_(m[n].full_name, {0: 'Knee', 2: 'Custom'}.get(i, ''), 'full name')
        ctx.is_(m[n].description, {0: 'From the <floor>', 3: 'last'}.get(i, ''), 'description')
    ctx.is_({x.valentina_name for x in m}, {n for n, *_ in ms}, 'names')
    ctx.is_([x.valentina_name for x in m if not x.is_custom()], [ms[i][0] for i in order if i != 2], 'order')
    p = m.personal
    ctx.is_((p.last_name, p.first_name, p.birth_date, p.gender.name.lower(), p.email), (*(('Doe', 'John') if style == 'old' else ('', '')), date(1970, 1, 2), gender, mail or ''), 'personal data')
    if style != 'old':
        ctx.is_(p.customer, 'John Doe', 'customer')
    ctx.eq(w.measurements['b'].value, 1, 'other file')
    ctx.is_([x.name for x in w.measurements], ['b'], 'other file')
    ctx.is_((w.measurements.personal.last_name, w.measurements.personal.gender.name), ('Doe', 'FEMALE'), 'other file')
    ctx.check(w.measurements.unit != m.unit and m.personal is not w.measurements.personal, 'other file')


@harness(P)
def many_points(ctx):
    """a dozen of calculations, ids of several digits in any order, read, written and read"""
    ids = ctx.choose('ids', [[100, 9, 10, 11, 2, 1, 20, 3, 99, 101, 30, 12], list(range(12, 0, -1)), list(range(90, 102))])
    k = ctx.real('k', -10, 10)
    p, text = [(k, 2 * k)], f'<point id="{ids[0]}" mx="0.1" x="{k}" y="{k * 2}" name="A0" type="single" my="0.2"/>'
    for i in range(1, 12):
        text += f'<point id="{ids[i]}" basePoint="{ids[i - 1]}" typeLine="hair" mx="0.{i}" length="{k} + {i}" name="A{i}" lineColor="black" type="endLine" angle="{90 * (i % 4)}" my="-{i}"/>'
        d = ((1, 0), (0, 1), (-1, 0), (0, -1))[i % 4]
        p.append((p[-1][0] + (k + i) * d[0], p[-1][1] + (k + i) * d[1]))
    with folder() as f:
        unit = ctx.choose('unit', ['inch', 'mm'])
        r = read(save(os.path.join(f, 'a.val'), val([('piece', text)], f'<unit>{unit}</unit>')))
        other = read(write(os.path.join(f, 'b.val'), r.pattern))
        for q in (r, other):
            ctx.is_(q.pattern.unit, unit, 'unit')
            ops = list(q.pattern.scope(0).sketch.operations)
            ctx.is_([(o.id, o.name) for o in ops], [(j, f'A{i}') for i, j in enumerate(ids)], 'operations')
            for i, o in enumerate(ops):
                ctx.eq([o.vector.x, o.vector.y], list(p[i]), f'position {i}')
                if i:
                    ctx.is_(o.base_point.id, ids[i - 1], 'base point')
                    ctx.eq([o.label_offset.x, o.label_offset.y], [float(f'0.{i}'), -i], 'label offset')
