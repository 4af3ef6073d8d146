"""Vector angles, rotations and direction tests."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Vector']
BOUNDS = 'two 2D vectors with arbitrary real coordinates; one arbitrary angle in [-720, 720] degrees'
META = dict(
    title='Rotations, polar forms and angles between vectors agree with trigonometry',
    statement="""Rotating a vector by any angle in degrees applies the counterclockwise rotation matrix, so it preserves dot
    and cross products and composes additively; normal, anti-normal and parity are the rotations by 90, -90 and 180 degrees.
    The orientation of a non-null vector is its polar angle in ]-180, 180], and the angle of a vector with a direction is the
    signed angle that turns the direction onto the vector; projection and deviation are the signed components along and
    across a direction. Parallel and orthogonal tests hold exactly when the cross, respectively dot, product is null (up to
    rounding to 1e-7).""",
    quant='all real coordinates, all angles in [-720, 720] degrees, all four quadrants and the axes',
    why='quadrant and sign errors appear only for some orientations; tests use a few literal angles',
    files=['Patro/GeometryEngine/Vector.py', 'Patro/Common/Math/Functions.py'],
    mechanism=[('rotate, orientation, angle_with, cos_with, sin_with, projection_on, deviation_with', 'Patro/GeometryEngine/Vector.py')])
P = 'C02'


def V():
    import Patro.GeometryEngine.Vector as v
    return v


def nonnull(ctx, v):
    ctx.assume(ctx.or_(v.x != 0, v.y != 0))


@harness(P)
def rotate(ctx):
    a = ctx.vec('a')
    ax, ay = a.x, a.y
    t = ctx.angle('t', -720, 720)
    c, s = ctx.deg_cs(t)
    ccw = ctx.choose('ccw', [None, True, False])
    r = a.rotate(t) if ccw is None else a.rotate(t, counter_clockwise=ccw)
    if ccw is False:
        s = -s
    ctx.eq(r, [c * ax - s * ay, s * ax + c * ay], 'rotated')
    ctx.eq(a, [ax, ay], 'operand unchanged')


@harness(P)
def rotate_laws(ctx):
    """rotations preserve dot and cross products, and compose additively"""
    a, b = ctx.vec('a'), ctx.vec('b')
    t = ctx.angle('t', -360, 360)
    u = ctx.angle('u', -360, 360)
    ra, rb = a.rotate(t), b.rotate(t)
    ctx.eq(ra.dot(rb), a.dot(b), 'dot product preserved')
    ctx.eq(ra.cross(rb), a.cross(b), 'cross product preserved')
    ctx.eq(ra.rotate(u), a.rotate(t + u), 'rotations compose')
    ctx.eq(ra.rotate(-t), a, 'inverse rotation')
    ctx.eq(ra.rotate(t, counter_clockwise=False), a, 'clockwise is the inverse')


@harness(P)
def quarter_turns(ctx):
    a = ctx.vec('a')
    ax, ay = a.x, a.y
    ctx.eq(a.normal, [-ay, ax], 'normal')
    ctx.eq(a.normal, a.rotate(90), 'normal is +90')
    ctx.eq(a.anti_normal, [ay, -ax], 'anti normal')
    ctx.eq(a.anti_normal, a.rotate(-90), 'anti normal is -90')
    ctx.eq(a.parity, [-ax, -ay], 'parity')
    ctx.eq(a.parity, a.rotate(180), 'parity is 180')
    ctx.eq(a.permute, [ay, ax], 'permute')
    ctx.eq(a, [ax, ay], 'operand unchanged')


@harness(P)
def polar(ctx):
    m = V()
    t = ctx.angle('t', -720, 720)
    c, s = ctx.deg_cs(t)
    r, q = ctx.real('r'), ctx.real('q')
    ctx.eq(m.Vector2D.from_angle(t), [c, s], 'from_angle')
    ctx.eq(m.Vector2D.from_polar(r, t), [r * c, r * s], 'from_polar')
    ctx.eq(m.Vector2D.from_ellipse(r, q, t), [r * c, q * s], 'from_ellipse')


@harness(P)
def orientation(ctx):
    """orientation is the polar angle of the vector, in ]-180, 180]"""
    a = ctx.vec('a')
    ax, ay = a.x, a.y
    nonnull(ctx, a)
    o = a.orientation
    c, s = ctx.deg_cs(o)
    mg = ctx.sqrt(ax * ax + ay * ay)
    ctx.eq([mg * c, mg * s], [ax, ay], 'polar form')
    ctx.eq([c, s], [ax / mg, ay / mg], 'direction')
    ctx.le(-180, o, 'at least -180')
    ctx.le(o, 180, 'at most 180')
    ctx.check(ctx.implies(ctx.and_(ay == 0, ax < 0), ctx.eq_(o, 180)), 'negative x axis')
    ctx.check(ctx.implies(ctx.and_(ay == 0, ax > 0), ctx.eq_(o, 0)), 'positive x axis')
    ctx.check(ctx.implies(ay > 0, ctx.and_(o > 0, o < 180)), 'positive above the x axis')
    ctx.check(ctx.implies(ay < 0, ctx.and_(o < 0, o > -180)), 'negative below the x axis')


@harness(P)
def null_vector(ctx):
    m = V()
    a = ctx.vec('a')
    null = ctx.and_(a.x == 0, a.y == 0)
    ctx.check_iff(bool(a), ctx.not_(null), 'truth value')
    if not null:
        return
    ctx.raises(NameError, lambda: a.orientation, 'null vector has no orientation')


@harness(P)
def tangents(ctx):
    a = ctx.vec('a')
    ctx.assume(a.x != 0)
    ctx.eq(a.tan * a.x, a.y, 'tan')
    ctx.assume(a.y != 0)
    ctx.eq(a.inverse_tan * a.y, a.x, 'inverse tan')


@harness(P)
def cos_sin_with(ctx):
    a, d = ctx.vec('a'), ctx.vec('d')
    ax, ay, dx, dy = a.x, a.y, d.x, d.y
    nonnull(ctx, a)
    nonnull(ctx, d)
    ma, md = ctx.sqrt(ax * ax + ay * ay), ctx.sqrt(dx * dx + dy * dy)
    c = a.cos_with(d)
    s = a.sin_with(d)
    ctx.eq(c * ma * md, ax * dx + ay * dy, 'cosine')
    ctx.eq(s * ma * md, dx * ay - dy * ax, 'sine')
    ctx.le(-1, c, 'c>=-1')
    ctx.le(c, 1, 'c<=1')
    ctx.le(-1, s, 's>=-1')
    ctx.le(s, 1, 's<=1')
    ctx.eq([a.x, a.y, d.x, d.y], [ax, ay, dx, dy], 'unchanged')


@harness(P)
def projection(ctx):
    a, d = ctx.vec('a'), ctx.vec('d')
    nonnull(ctx, d)
    md = ctx.sqrt(d.x * d.x + d.y * d.y)
    p, q = a.projection_on(d), a.deviation_with(d)
    ctx.eq(p * md, a.x * d.x + a.y * d.y, 'projection')
    ctx.eq(q * md, d.x * a.y - d.y * a.x, 'deviation')
    ctx.eq(p * p + q * q, a.x * a.x + a.y * a.y, 'Pythagoras')


@harness(P)
def angle_with(ctx):
    """rotating the direction by the returned angle aligns it with self"""
    a, d = ctx.vec('a'), ctx.vec('d')
    nonnull(ctx, a)
    nonnull(ctx, d)
    ang = a.angle_with(d)
    c, s = ctx.deg_cs(ang)
    ma, md = ctx.sqrt(a.x * a.x + a.y * a.y), ctx.sqrt(d.x * d.x + d.y * d.y)
    ctx.eq(c * ma * md, d.x * a.x + d.y * a.y, 'cosine of the angle')
    ctx.eq(s * ma * md, d.x * a.y - d.y * a.x, 'sine of the angle')
    ctx.le(-180, ang, '>= -180')
    ctx.le(ang, 180, '<= 180')
    ctx.eq(a.orientation_with(d), ang, 'alias')


@harness(P)
def parallel_orthogonal(ctx):
    a, b = ctx.vec('a'), ctx.vec('b')
    cr = a.x * b.y - a.y * b.x
    dt = a.x * b.x + a.y * b.y
    p = a.is_parallel(b)
    q, cross = a.is_parallel(b, return_cross=True)
    ctx.eq(cross, cr, 'cross returned')
    ctx.check_iff(p, q, 'both forms agree')
    ctx.check(ctx.implies(cr == 0, p), 'parallel')
    ctx.check(ctx.implies(ctx.or_(cr > 1e-6, cr < -1e-6), ctx.not_(p)), 'not parallel')
    o = a.is_orthogonal(b)
    ctx.check(ctx.implies(dt == 0, o), 'orthogonal')
    ctx.check(ctx.implies(ctx.or_(dt > 1e-6, dt < -1e-6), ctx.not_(o)), 'not orthogonal')
