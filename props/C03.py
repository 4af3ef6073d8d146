"""Transformations."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Transformation']
BOUNDS = 'arbitrary 2x2 and 3x3 affine matrices, angles in [-360, 360], arbitrary scale factors, one arbitrary point; compositions of two transformations (three for associativity)'
META = dict(
    title='Transformations act, compose and are classified as their matrices say',
    statement="""Each 2D or affine transformation (identity, rotation, scale, parity, axis reflection, translation, rotation
    at a centre, screen flip, arbitrary matrix) maps a point as its mathematical definition. A product applies the right
    operand first, the in-place product applies its argument last, and the operands are unchanged. The type reported for any
    constructed, copied or composed transformation is sound: identity, scale, parity, reflection and translation types only
    occur for such matrices, and multiplying a scalar gives the scale factor of a similarity and is refused for a shear.""",
    quant='all matrices, angles, scale factors and points',
    why='tests compose a few literal matrices; a wrong identity flag makes primitives silently skip a transformation',
    files=['Patro/GeometryEngine/Transformation.py'],
    mechanism=[('matrix product and type algebra', 'Patro/GeometryEngine/Transformation.py')])
P = 'C03'


def T():
    import Patro.GeometryEngine.Transformation as t
    return t


KINDS2 = ['Identity', 'Rotation', 'Scale', 'Scale2', 'Parity', 'XReflection', 'YReflection', 'Generic']
KINDSA = KINDS2 + ['Translation', 'RotationAt', 'Screen']


def make(ctx, dim, kind, tag):
    """-> transformation, its 2x2 matrix and its translation"""
    t = T()
    import Patro.GeometryEngine.Vector as V
    cls = t.Transformation2D if dim == 2 else t.AffineTransformation2D
    zero = [0, 0]
    if kind == 'Identity':
        return cls.Identity(), [[1, 0], [0, 1]], zero
    if kind == 'Rotation':
        a = ctx.angle(tag + 'a', -360, 360)
        c, s = ctx.deg_cs(a)
        return cls.Rotation(a), [[c, -s], [s, c]], zero
    if kind == 'Scale':
        k = ctx.real(tag + 'k')
        return cls.Scale(k), [[k, 0], [0, k]], zero
    if kind == 'Scale2':
        k, h = ctx.real(tag + 'k'), ctx.real(tag + 'h')
        return cls.Scale(k, h), [[k, 0], [0, h]], zero
    if kind == 'Parity':
        return cls.Parity() if dim == 2 else cls.Scale(-1, -1), [[-1, 0], [0, -1]], zero
    if kind == 'XReflection':
        return cls.XReflection() if dim == 2 else cls.Scale(-1, 1), [[-1, 0], [0, 1]], zero
    if kind == 'YReflection':
        return cls.YReflection() if dim == 2 else cls.Scale(1, -1), [[1, 0], [0, -1]], zero
    if kind == 'Generic':
        m = [ctx.real(f'{tag}m{i}') for i in range(4)]
        if dim == 2:
            return cls(m), [m[:2], m[2:]], zero
        d = [ctx.real(f'{tag}d{i}') for i in range(2)]
        return cls([m[0], m[1], d[0], m[2], m[3], d[1], 0, 0, 1]), [m[:2], m[2:]], d
    if kind == 'Translation':
        d = ctx.vec(tag + 'd')
        return cls.Translation(d), [[1, 0], [0, 1]], [d.x, d.y]
    if kind == 'RotationAt':
        d = ctx.vec(tag + 'd')
        a = ctx.angle(tag + 'a', -360, 360)
        c, s = ctx.deg_cs(a)
        return cls.RotationAt(d, a), [[c, -s], [s, c]], [d.x - c * d.x + s * d.y, d.y - s * d.x - c * d.y]
    if kind == 'Screen':
        h = ctx.real(tag + 'h')
        return cls.Screen(h), [[1, 0], [0, -1]], [0, h]


def app(m, d, v):
    return [m[0][0] * v[0] + m[0][1] * v[1] + d[0], m[1][0] * v[0] + m[1][1] * v[1] + d[1]]


def sound_type(ctx, tr, probe, label):
    """the type of the transformation says the truth about its action on an arbitrary point"""
    t = T()
    TT = t.TransformationType
    ty = tr.type
    x, y = probe.x, probe.y
    img = tr * probe
    ctx.check_iff(tr.is_identity, ty == TT.Identity, label + ' is_identity')
    if ty == TT.Identity:
        ctx.eq(img, [x, y], label + ' identity')
    elif ty == TT.Parity:
        ctx.eq(img, [-x, -y], label + ' parity')
    elif ty == TT.XParity:
        ctx.eq(img, [-x, y], label + ' x parity')
    elif ty == TT.YParity:
        ctx.eq(img, [x, -y], label + ' y parity')
    elif ty == TT.Scale:
        ctx.eq(img.x * y, img.y * x, label + ' uniform scale')
    elif ty == TT.Rotation:
        ctx.eq(img.magnitude_square, probe.magnitude_square, label + ' isometry')
    elif ty == TT.Translation:
        o = tr * (probe - probe)
        ctx.eq([img.x - o.x, img.y - o.y], [x, y], label + ' translation')


@harness(P, params=[{'dim': d, 'kind': k} for d in (2, 3) for k in (KINDS2 if d == 2 else KINDSA)])
def action(ctx, dim, kind):
    tr, m, d = make(ctx, dim, kind, '')
    v = ctx.vec('v')
    x, y = v.x, v.y
    ctx.eq(tr * v, app(m, d, (x, y)), 'image')
    ctx.eq(v, [x, y], 'point unchanged')
    if kind != 'RotationAt':
        sound_type(ctx, tr, v, 'type')
    ctx.is_(tr.size, dim, 'size')
    ctx.is_(tr.dimension, 2, 'dimension')
    if kind == 'Generic':
        ident = ctx.and_(m[0][0] == 1, m[0][1] == 0, m[1][0] == 0, m[1][1] == 1, d[0] == 0, d[1] == 0)
        ctx.check(ctx.implies(ident, tr.is_identity), 'identity is recognised')


PAIRS = [(d, a, b) for d in (2, 3) for a in (KINDS2 if d == 2 else KINDSA) for b in (KINDS2 if d == 2 else KINDSA)
         if d == 2 or a in ('Translation', 'RotationAt', 'Screen', 'Generic', 'Scale') or b in ('Translation', 'RotationAt', 'Screen')]


def compose(ctx, dim, a, b):
    t1, m1, d1 = make(ctx, dim, a, 'p')
    t2, m2, d2 = make(ctx, dim, b, 'q')
    v = ctx.vec('v')
    xy = (v.x, v.y)
    im = app(m1, d1, app(m2, d2, xy))
    p = t1 * t2
    ctx.eq(p * v, im, 'product applies the right operand first')
    ctx.eq(t1 * (t2 * v), im, 'associates with the application')
    ctx.eq(t1 * v, app(m1, d1, xy), 'left operand unchanged')
    ctx.eq(t2 * v, app(m2, d2, xy), 'right operand unchanged')
    sound_type(ctx, p, v, 'product')
    t1 *= t2
    ctx.eq(t1 * v, app(m2, d2, app(m1, d1, xy)), 'in place product applies its argument last')
    sound_type(ctx, t1, v, 'in place product')
    ctx.eq(t2 * v, app(m2, d2, xy), 'argument unchanged')


@harness(P, params=[{'dim': d, 'a': k} for d in (2, 3) for k in (KINDS2 if d == 2 else KINDSA)], budget=60)
def composition(ctx, dim, a):
    b = ctx.choose('b', [q for (d, p, q) in PAIRS if d == dim and p == a])
    compose(ctx, dim, a, b)


@harness(P)
def copies(ctx):
    t = T()
    dim = ctx.choose('dim', [2, 3])
    kind = ctx.choose('kind', ['Generic', 'Scale2'])
    tr, m, d = make(ctx, dim, kind, '')
    v = ctx.vec('v')
    cls = type(tr)
    how = ctx.choose('how', ['copy', 'array', 'list'])
    if how == 'copy':
        c = cls(tr)
    elif how == 'array':
        c = cls(tr.array)
    else:
        c = cls(tr.to_list())
    im = app(m, d, (v.x, v.y))
    ctx.eq(c * v, im, 'copy acts alike')
    sound_type(ctx, c, v, 'copy')
    ctx.is_(len(tr.to_list()), dim * dim, 'list size')
    c *= cls.Scale(2)
    ctx.eq(tr * v, im, 'source is not an alias of the copy')
    other = t.AffineTransformation2D if dim == 2 else t.Transformation2D
    ctx.raises(ValueError, lambda: other(tr), 'size mismatch')
    ctx.raises(ValueError, lambda: cls([1, 2, 3]), 'list of wrong size')


@harness(P)
def scalars(ctx):
    dim = ctx.choose('dim', [2, 3])
    kind = ctx.choose('kind', ['Rotation', 'Scale', 'Parity', 'XReflection', 'Identity'])
    tr, m, d = make(ctx, dim, kind, '')
    r = ctx.real('r')
    f = abs(m[0][0]) if kind != 'Rotation' else 1
    ctx.eq(tr * r, f * r, 'similarity scales lengths')


@harness(P)
def scalars_composed(ctx):
    """a rotation followed by an uniform scale is still a similarity"""
    t = T()
    a, k, r = ctx.angle('a'), ctx.real('k', 0.125, 100), ctx.real('r')
    cls = ctx.choose('cls', [0, 1])
    cls = (t.Transformation2D, t.AffineTransformation2D)[cls]
    tr = cls.Rotation(a) * cls.Scale(k)
    ctx.eq(tr * r, k * r, 'similarity scales lengths')


@harness(P)
def scalars_refused(ctx):
    tr, m, d = make(ctx, 2, 'Scale2', '')
    k, h = m[0][0], m[1][1]
    ctx.assume(ctx.or_(abs(k) > 1.01 * abs(h) + 0.01, abs(h) > 1.01 * abs(k) + 0.01))
    ctx.raises(ValueError, lambda: tr * 2., 'sheared transformation')


@harness(P, params=[{'dim': d} for d in (2, 3)], budget=40)
def scalars_skewed(ctx, dim):
    """the images of the axes have the same length and are not orthogonal, or have not the same length"""
    t = T()
    k, b, e = ctx.real('k', 0.125, 8), ctx.real('b', -8, 8), ctx.real('e', -8, 8)
    kind = ctx.choose('kind', ['skew', 'ratio'])
    if kind == 'skew':
        ctx.assume(ctx.or_(b > 0.01 * k, b < -0.01 * k))
    else:
        b = 0
        ctx.assume(ctx.or_(abs(e) > 1.01 * k, abs(e) < 0.99 * k))
    m = [k, b, 0, e] if ctx.choose('axis', ['x', 'y']) == 'x' else [0, e, k, b]
    tr = t.Transformation2D(m) if dim == 2 else t.AffineTransformation2D([m[0], m[1], 3, m[2], m[3], -1, 0, 0, 1])
    ctx.raises(ValueError, lambda: tr * 2., 'sheared transformation')


@harness(P)
def errors(ctx):
    tr, m, d = make(ctx, 2, 'Scale', '')
    ctx.raises(ValueError, lambda: tr * 'a', 'product with a string')

    def imul():
        u = tr
        u *= 2
    ctx.raises(ValueError, imul, 'in place product with a number')


@harness(P)
def homogeneous(ctx):
    import Patro.GeometryEngine.Vector as V
    tr, m, d = make(ctx, 3, 'Generic', '')
    v = ctx.vec('v')
    h = V.HomogeneousVector2D(v)
    ctx.eq((tr * h).to_vector(), app(m, d, (v.x, v.y)), 'homogeneous point')
