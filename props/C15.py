"""Angular domains."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Mixin']
BOUNDS = 'start, stop and angles are arbitrary in [-720, 720] degrees, or the radians of such angles'
META = dict(
    title='Angular domains: membership, length, closure',
    statement="""An angular domain goes counterclockwise from its start to its stop angle, wrapping over 360 degrees if the stop
    angle is lower than the start angle, and is the whole circle as soon as the span reaches 360 degrees. is_inside tells if an
    angle, given modulo 360, lies in the domain, ends included; length is the length of the arc on the unit circle, from 0 to
    2 pi, so that a domain and the domain with swapped ends sum to 2 pi; span, is_null, is_closed, is_over_closed and the
    sense agree with it; an angle given in radians is the same angle as in degrees.""",
    quant='all start, stop and tested angles, wrapping or not',
    why='the wrap over 360 degrees makes many cases of order between three angles; no test of the suite reaches this class',
    files=['Patro/GeometryEngine/Mixin.py'],
    mechanism=[('AngularDomain', 'Patro/GeometryEngine/Mixin.py')])
P = 'C15'


def turn(ctx, x):
    """x modulo 360 in [0, 360[ and the number of turns chosen by case"""
    k = ctx.choose('turns%d' % ctx.__dict__.setdefault('_turn', 0), [-6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5])
    ctx._turn += 1
    ctx.assume(ctx.and_(x - 360 * k >= 0, x - 360 * k < 360))
    return x - 360 * k


def margin(ctx, *xs):
    """not at the limit, where rounding errors decide"""
    for x in xs:
        ctx.assume(ctx.or_(x > 0.001, x < -0.001))


@harness(P, max_paths=20000, budget=100)
def inside(ctx):
    from Patro.GeometryEngine.Mixin import AngularDomain
    start, stop, a = (ctx.real(n, -720, 720) for n in ('start', 'stop', 'a'))
    ctx._turn = 0
    r = turn(ctx, stop - start)
    t = turn(ctx, a - start)
    margin(ctx, r, r - 360, t, t - 360, t - r, stop - start - 360, stop - start + 360)
    e = ctx.or_(stop - start >= 360, stop - start <= -360, t <= r)
    ctx.check_iff(AngularDomain(start, stop).is_inside(a), e, 'is inside')


@harness(P)
def ends(ctx):
    """ends and bisector of an arc which does not wrap more than once"""
    from Patro.GeometryEngine.Mixin import AngularDomain
    k = ctx.choose('k', [-1, 0, 1])
    start, l = ctx.int('start', -360, 359), ctx.int('l', 1, 359)
    stop = start + l
    d = AngularDomain(start, stop - 360 * ctx.choose('wrap', [0, 1]))
    ctx.check(d.is_inside(start + 360 * k), 'start')
    ctx.check(d.is_inside(stop + 360 * k), 'stop')
    ctx.check(d.is_inside(start + l / 2 + 360 * k), 'middle')
    ctx.check(ctx.not_(d.is_inside(stop + (360 - l) / 2)), 'opposite')


@harness(P)
def length(ctx):
    from Patro.GeometryEngine.Mixin import AngularDomain
    start, stop = (ctx.real(n, -720, 720) for n in ('start', 'stop'))
    d = AngularDomain(start, stop)
    s = stop - start
    margin(ctx, s, s - 360, s + 360)
    if ctx.or_(s >= 360, s <= -360):
        ctx.check(d.is_closed, 'closed')
        ctx.check(d.is_over_closed, 'over closed')
        ctx.eq(d.length, 2 * ctx.pi, 'whole circle')
    else:
        ctx.check(not d.is_closed and not d.is_over_closed, 'not closed')
        ctx.eq(d.length * 180, (s if s >= 0 else s + 360) * ctx.pi, 'length')
        ctx.eq(d.length + AngularDomain(stop, start).length, 2 * ctx.pi, 'complementary')
    ctx.eq(d.span, s if s >= 0 else -s, 'span')
    ctx.check(not d.is_null, 'not null')
    ctx.is_((bool(d.is_counterclockwise), bool(d.is_clockwise)), (bool(s >= 0), bool(s < 0)), 'sense')
    ctx.eq([d.start, d.stop], [start, stop], 'ends')
    ctx.eq([d.start_radians * 180, d.stop_radians * 180], [start * ctx.pi, stop * ctx.pi], 'radians')


@harness(P)
def special(ctx):
    from Patro.GeometryEngine.Mixin import AngularDomain
    a = ctx.int('a', -720, 720)
    n = AngularDomain(a, a)
    ctx.check(n.is_inside(a) and not n.is_inside(a + 180), 'a single angle')
    ctx.check(n.is_null and not n.is_closed, 'null domain')
    ctx.eq(n.length, 0, 'null length')
    b = ctx.int('b', -720, 720)
    t = ctx.choose('t', [360, 361, -360, 720])
    c = AngularDomain(a, a + t)
    ctx.check(c.is_closed, 'closed')
    ctx.check_iff(c.is_over_closed, abs(t) > 360, 'over closed')
    ctx.check(c.is_inside(b), 'everything is inside')
    d = AngularDomain()
    ctx.check(d.is_closed and not d.is_over_closed and not d.is_null, 'default')


@harness(P)
def from_radians(ctx):
    from Patro.GeometryEngine.Mixin import AngularDomain
    start, stop = (ctx.real(n, -7, 7) for n in ('start', 'stop'))
    d = AngularDomain(start, stop, degrees=False)
    ctx.eq([d.start_radians, d.stop_radians], [start, stop], 'radians')
    ctx.eq([d.start * ctx.pi, d.stop * ctx.pi], [start * 180, stop * 180], 'degrees')


@harness(P)
def mixin(ctx):
    """start and stop points of an arc"""
    from Patro.GeometryEngine.Conic import Circle2D
    from Patro.GeometryEngine.Mixin import AngularDomain
    c, r = ctx.vec('c'), ctx.real('r', 1, 10)
    a, b = ctx.angle('a'), ctx.angle('b')
    k = Circle2D(c, r, AngularDomain(a, b))
    for p, t in ((k.start_point, a), (k.stop_point, b)):
        cs, sn = ctx.deg_cs(t)
        ctx.eq(p, [c.x + r * cs, c.y + r * sn], 'end')
    ctx.check(not k.is_closed, 'not closed')
    k = Circle2D(c, r)
    ctx.check(k.start_point is None and k.stop_point is None and k.is_closed, 'closed circle')
