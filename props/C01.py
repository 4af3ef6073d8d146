"""Vector algebra."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Vector']
BOUNDS = 'two/three 2D vectors with arbitrary real coordinates, one arbitrary real scalar; no loops'
META = dict(
    title='Vector arithmetic is exact, and does not alias or modify its operands',
    statement="""For any two 2D vectors and any scalar, sum, difference, negation, absolute value, scaling, division, dot and
    cross products, magnitude, middle and normalisation return the mathematical result (normalisation of a non-null vector
    gives the unit vector of the same direction). Operators return new vectors which share no storage with their operands
    and leave them unchanged, only the in-place forms modify their left operand. Two vectors compare equal exactly when
    both coordinates are equal.""",
    quant='all real coordinates and scalars, every constructor form',
    why='the unit tests evaluate a handful of literal vectors; sign, axis and aliasing errors hide on other inputs',
    files=['Patro/GeometryEngine/Vector.py'],
    mechanism=[('operators of the vector classes', 'Patro/GeometryEngine/Vector.py'),
               ('constructors copy the coordinates', 'Patro/GeometryEngine/Vector.py')])
P = 'C01'


def V():
    import Patro.GeometryEngine.Vector as v
    return v


@harness(P)
def wrong_construction(ctx):
    m = V()
    x, y, z = ctx.real('x'), ctx.real('y'), ctx.real('z')
    a = ctx.choose('args', ['none', 'three', 'list of one', 'list of three', 'four', 'empty'])
    args = {'none': (), 'three': (x, y, z), 'list of one': ([x],), 'list of three': ([x, y, z],), 'four': (x, y, z, x), 'empty': ((),)}[a]
    ctx.raises(ValueError, lambda: m.Vector2D(*args), 'wrong arguments')


@harness(P)
def construction(ctx):
    """every constructor form denotes the same point and shares no state with its source"""
    m = V()
    x, y = ctx.real('x'), ctx.real('y')
    form = ctx.choose('form', ['args', 'tuple', 'list', 'vector', 'clone', 'pos', 'array'])
    src = m.Vector2D(x, y)
    if form == 'args':
        v = m.Vector2D(x, y)
    elif form == 'tuple':
        v = m.Vector2D((x, y))
    elif form == 'list':
        src = [x, y]
        v = m.Vector2D(src)
    elif form == 'vector':
        v = m.Vector2D(src)
    elif form == 'clone':
        v = src.clone()
    elif form == 'pos':
        v = +src
    else:
        v = m.Vector2D(src.v)
    ctx.eq(v.x, x, 'x')
    ctx.eq(v.y, y, 'y')
    ctx.eq(v[0], x, 'item 0')
    ctx.eq(v[1], y, 'item 1')
    ctx.eq(list(v), [x, y], 'iteration')
    ctx.is_(len(v), 2, 'len')
    ctx.check(v == m.Vector2D(x, y), 'equal to itself')
    d = ctx.real('d')
    v.x = d
    v[1] = d + 1
    ctx.eq(v, [d, d + 1], 'assignment')
    if form != 'args' and form != 'tuple':
        ctx.eq([src[0], src[1]], [x, y], 'source unchanged')


@harness(P)
def lists(ctx):
    m = V()
    p = [[ctx.real(f'x{i}'), ctx.real(f'y{i}')] for i in range(3)]
    for name, vs in (('from_list', m.Vector2D.from_list(p)), ('from_coordinates', m.Vector2D.from_coordinates(*p))):
        ctx.is_(len(vs), 3, name + ' length')
        for i in range(3):
            ctx.eq(vs[i], p[i], name)


@harness(P)
def binary(ctx):
    m = V()
    a, b = ctx.vec('a'), ctx.vec('b')
    ax, ay, bx, by = a.x, a.y, b.x, b.y
    op = ctx.choose('op', ['+', '-', '+=', '-='])
    if op == '+':
        r = a + b
        ctx.eq(r, [ax + bx, ay + by], 'sum')
    elif op == '-':
        r = a - b
        ctx.eq(r, [ax - bx, ay - by], 'difference')
    elif op == '+=':
        r = a
        r += b
        ctx.check(r is a, 'in place identity')
        ctx.eq(a, [ax + bx, ay + by], 'in place sum')
    else:
        r = a
        r -= b
        ctx.check(r is a, 'in place identity')
        ctx.eq(a, [ax - bx, ay - by], 'in place difference')
    ctx.eq(b, [bx, by], 'right operand unchanged')
    if op in '+-':
        ctx.eq(a, [ax, ay], 'left operand unchanged')
        ctx.is_(type(r), m.Vector2D, 'type')
        r.x = r.x + 1
        ctx.eq(a, [ax, ay], 'result is not an alias of the left operand')
        ctx.eq(b, [bx, by], 'result is not an alias of the right operand')


@harness(P)
def scalar(ctx):
    m = V()
    a, k = ctx.vec('a'), ctx.real('k')
    ax, ay = a.x, a.y
    op = ctx.choose('op', ['*', 'r*', '/', '*=', '/=', 'neg', 'abs', 'scale', 'divide', 'int*'])
    h = ctx.real('h')
    same = True
    if op == '*':
        r, e = a * k, [ax * k, ay * k]
    elif op == 'r*':
        r, e = k * a, [ax * k, ay * k]
    elif op == 'int*':
        r, e = a * 3, [ax * 3, ay * 3]
    elif op == '/':
        ctx.assume(k != 0)
        r, e = a / k, [ax / k, ay / k]
    elif op == '*=':
        r, e, same = a, [ax * k, ay * k], False
        r *= k
        ctx.check(r is a, 'in place identity')
    elif op == '/=':
        ctx.assume(k != 0)
        r, e, same = a, [ax / k, ay / k], False
        r /= k
        ctx.check(r is a, 'in place identity')
    elif op == 'neg':
        r, e = -a, [-ax, -ay]
    elif op == 'abs':
        r, e = abs(a), [abs(ax), abs(ay)]
    elif op == 'scale':
        r, e = a.scale(k, h), [ax * k, ay * h]
    else:
        ctx.assume(k != 0)
        ctx.assume(h != 0)
        r, e = a.divide(k, h), [ax / k, ay / h]
    ctx.eq(r, e, 'value')
    if same:
        ctx.eq(a, [ax, ay], 'operand unchanged')


@harness(P)
def products(ctx):
    a, b = ctx.vec('a'), ctx.vec('b')
    ax, ay, bx, by = a.x, a.y, b.x, b.y
    ctx.eq(a.dot(b), ax * bx + ay * by, 'dot')
    ctx.eq(a.cross(b), ax * by - ay * bx, 'cross')
    ctx.eq(a.perp_dot(b), ax * by - ay * bx, 'perp dot')
    ctx.eq(a.magnitude_square, ax * ax + ay * ay, 'squared magnitude')
    mg = a.magnitude
    ctx.le(0, mg, 'magnitude is not negative')
    ctx.eq(mg * mg, ax * ax + ay * ay, 'magnitude')
    ctx.eq(a, [ax, ay], 'operand unchanged')
    ctx.eq(b, [bx, by], 'operand unchanged')


@harness(P)
def equality(ctx):
    a, b = ctx.vec('a'), ctx.vec('b')
    same = ctx.and_(a.x == b.x, a.y == b.y)
    eq = a == b
    ctx.check_iff(eq, same, 'equal iff coordinates are')
    ctx.check_iff(a != b, ctx.not_(same), 'different iff a coordinate is')


@harness(P)
def almost_equal(ctx):
    a, b = ctx.vec('a', lo=-100, hi=100), ctx.vec('b', lo=-100, hi=100)
    ctx.check(a.almost_equal(a.clone()), 'reflexive')
    r = a.almost_equal(b)
    far = ctx.or_(abs(a.x - b.x) > 0.01, abs(a.y - b.y) > 0.01)
    near = ctx.and_(abs(a.x - b.x) < 1e-9, abs(a.y - b.y) < 1e-9)
    ctx.check(ctx.implies(far, ctx.not_(r)), 'distinct vectors')
    ctx.check(ctx.implies(near, r), 'near vectors')


@harness(P)
def normalised(ctx):
    m = V()
    a = ctx.vec('a')
    ax, ay = a.x, a.y
    ctx.assume(ctx.or_(ax != 0, ay != 0))
    mg = ctx.sqrt(ax * ax + ay * ay)
    u = a.to_normalised()
    ctx.eq(a, [ax, ay], 'operand unchanged')
    ctx.eq(u.x * u.x + u.y * u.y, 1, 'unit length')
    ctx.eq(ctx.cross(ctx.xy(u), (ax, ay)), 0, 'same line')
    ctx.le(0, u.x * ax + u.y * ay, 'same side')
    k = ctx.real('k')
    w = u * k
    ctx.eq([w.x * mg, w.y * mg], [k * ax, k * ay], 'scaled unit vector')
    w = k * u
    ctx.eq([w.x * mg, w.y * mg], [k * ax, k * ay], 'scaled unit vector (left)')
    v = a.normalise()
    ctx.check(v is a, 'in place')
    ctx.eq(a, ctx.xy(u), 'normalise')


@harness(P)
def middle(ctx):
    m = V()
    a, b = ctx.vec('a'), ctx.vec('b')
    ax, ay, bx, by = a.x, a.y, b.x, b.y
    p = m.Vector2D.middle(a, b)
    ctx.eq([2 * p.x, 2 * p.y], [ax + bx, ay + by], 'middle')
    ctx.eq([a.x, a.y, b.x, b.y], [ax, ay, bx, by], 'unchanged')
    bb = a.bounding_box
    ctx.eq([bb.x.inf, bb.x.sup, bb.y.inf, bb.y.sup], [ax, ax, ay, ay], 'bounding box of a point')
