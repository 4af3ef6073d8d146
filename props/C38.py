"""Arrow heads."""
from engine.harness import harness

MODULES = ['Patro.GeometryEngine.Shape.ArrowHead', 'Patro.GeometryEngine.Polygon', 'Patro.GeometryEngine.Path', 'Patro.GeometryEngine.Vector', 'Patro.GeometryEngine.Segment',
           'Patro.GeometryEngine.Bezier', 'Patro.GeometryEngine.Interpolation', 'Patro.GeometryEngine.Primitive']
BOUNDS = 'anchors in [-10, 10]^2, any direction of length in [1/10, 15], lengths and widths in [1/10, 10], offsets and depths in [-5, 5]; the six forms of head'
ASSUMPTIONS = ['real arithmetic']
META = dict(
    title='Arrow heads point along their direction, with both sides symmetric',
    statement="""An arrow head has its tip at the anchor point; its base is at its length behind the tip along the direction, whatever the norm of the vector which gives the direction (which is not changed);
    the left and right corners are at its width on each side of the axis, symmetric, and the axial offset moves the middle of the base backwards. A triangular head is the polygon of the tip, the corners of its sides and the
    (offset or plain) middle of the base; a curvy head is the path with the same corners, whose sides are quadratic curves with control points symmetric about the axis, at the depth times their length from the middle of
    the side; it is closed. A head with one side has only this side, no side raises ValueError. Interpolation of two points is the affine combination.""",
    quant='all anchors, directions, lengths, widths, offsets and depths',
    why='heads of one side or with an offset are separate branches which nothing tests',
    files=['Patro/GeometryEngine/Shape/ArrowHead.py', 'Patro/GeometryEngine/Interpolation.py'],
    mechanism=[('TriangularHead, TriangularCurvyHead', 'Patro/GeometryEngine/Shape/ArrowHead.py'), ('interpolate_two_points', 'Patro/GeometryEngine/Interpolation.py')])
P = 'C38'


class Head:
    """expected points: p + (a u + b n) with u the unit direction and n its normal"""

    def __init__(self, ctx, curvy=False):
        from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead
        from Patro.GeometryEngine.Vector import Vector2D
        self.ctx = ctx
        self.sides = ctx.choose('sides', ['both', 'left', 'right'])
        self.offset, self.has_offset = 0, False
        kwargs = {}
        if ctx.choose('offset', [False, True]):
            self.has_offset = True
            self.offset = kwargs['axial_offset'] = ctx.real('o', -5, 5)
            ctx.assume(ctx.or_(self.offset > 0.01, self.offset < -0.01))
        if self.sides != 'both':
            kwargs['right_side' if self.sides == 'left' else 'left_side'] = False
        self.p = ctx.real('px', -10, 10), ctx.real('py', -10, 10)
        self.d = ctx.real('dx', -10, 10), ctx.real('dy', -10, 10)
        ctx.assume(self.d[0] * self.d[0] + self.d[1] * self.d[1] > 0.01)
        self.norm = ctx.sqrt(self.d[0] * self.d[0] + self.d[1] * self.d[1])
        self.l, self.w = ctx.real('l', 0.1, 10), ctx.real('w', 0.1, 10)
        self.direction, self.point = Vector2D(*self.d), Vector2D(*self.p)
        args = self.point, self.direction, self.l, self.w
        if curvy:
            self.k = ctx.real('k', -5, 5)
            self.head = TriangularCurvyHead(*args, self.k, **kwargs)
        else:
            self.head = TriangularHead(*args, **kwargs)
        self.left, self.right, self.tip = (-self.l, self.w), (-self.l, -self.w), (0, 0)
        self.back = (-self.l - self.offset, 0)

    def corners(self):
        if self.sides == 'both':
            return [self.left] + ([self.back] if self.has_offset else []) + [self.right]
        return [self.left if self.sides == 'left' else self.right, self.back]

    def near(self, v, e, label):
        x, y = v.x - self.p[0], v.y - self.p[1]
        (a, b), (dx, dy) = e, self.d
        self.ctx.eq([x * self.norm, y * self.norm], [a * dx - b * dy, a * dy + b * dx], label)

    def common(self):
        ctx, h = self.ctx, self.head
        ctx.eq([self.direction.x, self.direction.y, self.point.x, self.point.y], [*self.d, *self.p], 'arguments are not changed')
        ctx.eq([h.direction.x * self.norm, h.direction.y * self.norm], list(self.d), 'direction')
        ctx.eq([h.length, h.width, h.axial_offset], [self.l, self.w, self.offset], 'dimensions')
        for i in (1, 2):
            self.near(h.tip_point, self.tip, 'tip')
            self.near(h.anchor_point, self.tip, 'anchor')
            self.near(h.back_tip_point, (-self.l, 0), 'base')
            self.near(h.offseted_back_tip_point, self.back, 'offset base')
        for s, e in (('left', self.left), ('right', self.right)):
            v = getattr(h, s + '_point')
            if self.sides in ('both', s):
                self.near(v, e, s + ' corner')
            else:
                ctx.is_(v, None, s + ' corner')
        ctx.is_((h.left_side, h.right_side, h.both_side, h.only_left, h.only_right, h.has_axial_offset),
                (self.sides != 'right', self.sides != 'left', self.sides == 'both', self.sides == 'left', self.sides == 'right', self.has_offset), 'sides')


@harness(P, budget=40)
def triangular(ctx):
    h = Head(ctx)
    h.common()
    points = list(h.head.points)
    want = [h.tip] + h.corners()
    ctx.is_(len(points), len(want), 'points')
    for v, e in zip(points, want):
        h.near(v, e, 'polygon')


@harness(P, budget=60)
def curvy(ctx):
    h = Head(ctx, True)
    h.common()
    ctx.eq(h.head.curve_depth, h.k, 'depth')
    # middle of the side, moved outside by depth * (length of the side)
    m = (-h.l / 2, h.w / 2)
    control = (m[0] + h.k * h.w, m[1] + h.k * h.l)
    controls = {'left': control, 'right': (control[0], -control[1])}
    for s in ('left', 'right'):
        v = getattr(h.head, s + '_curved_point')
        if h.sides in ('both', s):
            h.near(v, controls[s], s + ' control point')
        else:
            ctx.is_(v, None, s + ' control point')
    corners = h.corners()
    want = [[h.tip, controls['left' if h.sides != 'right' else 'right'], corners[0]]]
    for a, b in zip(corners, corners[1:]):
        want.append([a, b])
    if h.sides == 'both':
        want.append([corners[-1], controls['right'], h.tip])
        want.append([h.tip, h.tip])         # closing
    else:
        want.append([corners[-1], h.tip])
    ctx.is_(h.head.is_closed, True, 'closed')
    parts = list(h.head)
    ctx.is_(len(parts), len(want), 'parts')
    for part, e in zip(parts, want):
        points = list(part.geometry.points)
        ctx.is_(len(points), len(e), 'degree')
        for v, w in zip(points, e):
            h.near(v, w, 'path')


@harness(P)
def symmetry(ctx):
    """mirror of the head about its axis, same sides for an opposite direction"""
    from Patro.GeometryEngine.Shape.ArrowHead import TriangularCurvyHead
    from Patro.GeometryEngine.Vector import Vector2D
    l, w, k = ctx.real('l', 0.1, 10), ctx.real('w', 0.1, 10), ctx.real('k', -5, 5)
    h = TriangularCurvyHead(Vector2D(0, 0), Vector2D(ctx.choose('d', [1, -3]), 0), l, w, k)
    for a, b in ((h.left_point, h.right_point), (h.left_curved_point, h.right_curved_point)):
        ctx.eq([a.x, a.y], [b.x, -b.y], 'symmetric')
    # full angle
    c, s = ctx.deg_cs(h.angle)
    n = l * l + w * w
    ctx.eq([c * n, s * n], [l * l - w * w, 2 * l * w], 'angle')


@harness(P)
def no_side(ctx):
    from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead
    from Patro.GeometryEngine.Vector import Vector2D
    p, d = Vector2D(ctx.real('x', -10, 10), 0), Vector2D(1, ctx.real('y', -10, 10))
    l = ctx.real('l', 0.1, 10)
    ctx.raises(ValueError, lambda: TriangularHead(p, d, l, 1, left_side=False, right_side=False), 'triangular')
    ctx.raises(ValueError, lambda: TriangularCurvyHead(p, d, l, 1, 0.1, left_side=False, right_side=False), 'curvy')


@harness(P)
def interpolation(ctx):
    from Patro.GeometryEngine.Interpolation import interpolate_two_points
    from Patro.GeometryEngine.Vector import Vector2D
    a, b = ctx.vec('a'), ctx.vec('b')
    t = ctx.choose('t', [0, 1, None])
    if t is None:
        t = ctx.real('t', -5, 5)
    v = interpolate_two_points(a, b, t)
    ctx.eq([v.x, v.y], [a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t], 'point')
    ctx.check(isinstance(v, Vector2D), 'type')
