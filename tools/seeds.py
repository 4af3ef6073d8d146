"""Planted bugs (development aid read by mkseed.py, never by a check)."""
G = 'Patro/GeometryEngine/'
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


seed('vector-pos-alias', 'C01', 'the result of the unary plus modified in place',
     '+v returns v itself instead of a copy',
     [(G + 'Vector.py', '''        """ Return a new vector equal to self """
        return self.__class__(self._v)''', '''        """ Return a new vector equal to self """
        return self''')],
     '''
from Patro.GeometryEngine.Vector import Vector2D
a = Vector2D(1, 2)
b = +a
b += Vector2D(5, 5)
assert (a.x, a.y) == (1, 2), a
''')

seed('scale-parity-type', 'C03', 'a scale whose x factor is -1 and whose y factor is neither 1 nor -1, composed with itself',
     'Scale(-1, k) is typed as an x reflection, so that its square is typed as identity and skipped by transform',
     [(G + 'Transformation.py', 'if x_scale == -1 and y_scale == 1:', 'if x_scale == -1:')],
     '''
from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Vector import Vector2D
s = A.Scale(-1, 3)
t = s * s
seg = Segment2D(Vector2D(1, 1), Vector2D(2, 2)).transform(t)
assert abs(seg.p1.y - 18) < 1e-9, seg
''')

seed('scale-null-factor', 'C04', 'a scale whose y factor is exactly 0 (flatten a primitive)',
     'scale(x, 0) uses the x factor for y',
     [(G + 'Primitive.py', 'return self.transform(Transformation2D.Scale(x_factor, y_factor), clone)',
       'return self.transform(Transformation2D.Scale(x_factor, y_factor or x_factor), clone)')],
     '''
from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Vector import Vector2D
p = Polygon2D(Vector2D(1, 1), Vector2D(2, 1), Vector2D(2, 2)).scale(2, 0)
assert all(q.y == 0 for q in p.points), p
''')

seed('angle-antiparallel', 'C02', 'two vectors of exactly opposite directions',
     'the angle between opposite vectors is 0 instead of 180',
     [(G + 'Vector.py', 'angle_sign = sign(self.sin_with(direction))', 'angle_sign = np.sign(self.sin_with(direction))')],
     '''
from Patro.GeometryEngine.Vector import Vector2D
a = Vector2D(-2, 0).angle_with(Vector2D(1, 0))
assert abs(abs(a) - 180) < 1e-6, a
''')

PRE = '''
import math, warnings
warnings.simplefilter('ignore')
from Patro.GeometryEngine.Vector import Vector2D
V = Vector2D
def near(a, b, eps=1e-6):
    assert abs(a - b) < eps, (a, b)
def nearp(p, x, y, eps=1e-6):
    assert abs(p.x - x) < eps and abs(p.y - y) < eps, (p.x, p.y, x, y)
'''

seed('parallel-line-short', 'C05', 'a line whose direction vector is shorter than one',
     'the shifted parallel of a line with a short direction vector is at the wrong distance',
     [(G + 'Line.py', '        n.normalise()\n', '        if n.magnitude_square > 1:\n            n.normalise()\n')],
     PRE + '''
from Patro.GeometryEngine.Line import Line2D
l = Line2D(V(0, 0), V(.5, 0)).shifted_parallel_line(3)
near(abs(l.p.y), 3)
''')

seed('line-projection-behind', 'C05', 'a distance measured from a point which projects on the line exactly at its origin',
     'the abscissa and distance of a point whose projection is the line origin are (0, 0)',
     [(G + 'Line.py', 'if delta.magnitude_square == 0:', 'if delta.dot(self.v) == 0:')],
     PRE + '''
from Patro.GeometryEngine.Line import Line2D
d, s = Line2D(V(1, 1), V(2, 0)).distance_and_abscissa_to_line(V(1, 4))
near(abs(d), 3)
''')

seed('segment-t-touch', 'C06', 'a segment whose end point lies inside the second segment',
     'an end point of the first segment inside the second one is not an intersection',
     [(G + 'Segment.py', 'or (ccw11 * ccw12 * ccw21 * ccw22 == 0))', 'or (ccw11 * ccw12 == 0))')],
     PRE + '''
from Patro.GeometryEngine.Segment import Segment2D
a = Segment2D(V(0, 0), V(2, 2)); b = Segment2D(V(0, 4), V(4, 0))
assert a.intersect_with(b) and b.intersect_with(a)
''')

seed('segment-far-end', 'C06', 'a point beyond the second end of a segment longer than one',
     'a point beyond the end of a segment is measured to the supporting line up to the squared length',
     [(G + 'Segment.py', 'if 0 <= s <= self.length:', 'if 0 <= s <= line.v.magnitude_square:')],
     PRE + '''
from Patro.GeometryEngine.Segment import Segment2D
near(Segment2D(V(0, 0), V(2, 0)).distance_to_point(V(3, 1)), math.sqrt(2))
''')

seed('orientation-vertical', 'C07', 'three collinear points on a vertical line, the first one in the middle',
     'the orientation of vertical collinear points is wrong',
     [(G + 'Triangle.py', 'if dx1 * dx2 < 0 or dy1 * dy2 < 0:', 'if dx1 * dx2 < 0:')],
     PRE + '''
from Patro.GeometryEngine.Triangle import triangle_orientation
assert triangle_orientation(V(0, 0), V(0, 1), V(0, -2)) == -1
''')

seed('same-side-edge', 'C07', 'a point on the line through an edge',
     'a point on an edge of the triangle is not on the same side',
     [(G + 'Triangle.py', 'return cross1*cross2 >= 0', 'return (cross1 > 0) == (cross2 > 0)')],
     PRE + '''
from Patro.GeometryEngine.Triangle import Triangle2D
t = Triangle2D(V(0, 0), V(4, 0), V(0, 4))
assert t.is_point_inside(V(1, 0)) and t.is_point_inside(V(2, 2))
''')

seed('polygon-recenter-alias', 'C08', 'the polygon is clockwise',
     'the barycenter of a clockwise polygon has the wrong sign',
     [(G + 'Polygon.py', 'factor = 1 / (6*area)', 'factor = 1 / (6*abs(area))')],
     PRE + '''
from Patro.GeometryEngine.Polygon import Polygon2D
p = Polygon2D(V(1, 1), V(1, 3), V(3, 3), V(3, 1))
nearp(p.barycenter, 2, 2)
''')

seed('winding-vertex', 'C08', 'a point at the height of a vertex of the polygon',
     'the winding number counts a vertex twice when the point has its ordinate',
     [(G + 'Polygon.py', 'if edge.p1.y <= y: #  downward crossing', 'if edge.p1.y < y: #  downward crossing')],
     PRE + '''
from Patro.GeometryEngine.Polygon import Polygon2D
p = Polygon2D(V(0, 0), V(2, -2), V(4, 0), V(2, 2))
assert not p.is_point_inside(V(-1, 0)) and p.is_point_inside(V(1, 0)) and not p.is_point_inside(V(6, 0))
q = Polygon2D(V(0, 0), V(4, 0), V(4, 4), V(0, 4))
assert not q.is_point_inside(V(-2, 0)) and not q.is_point_inside(V(5, 4))
''')

seed('hull-near-angles', 'C09', 'two points in nearly the same direction from the lowest point',
     'points whose directions from the lowest point are closer than half a degree are merged',
     [(G + 'Polygon.py', 'if prev[2] == current[2]:', 'if abs(prev[2] - current[2]) < .5:')],
     PRE + """
from Patro.GeometryEngine.Polygon import convex_hull
h = convex_hull([V(0, 0), V(1000, 1), V(2000, 10), V(0, 1000)], as_polygon=False)
assert len(h) == 4, h
""")

seed('hull-small', 'C09', 'points closer to each other than one unit',
     'the turn of three points is compared to a fixed area, so that reflex vertices stay in the hull of small sets',
     [(G + 'Polygon.py', 'return ccw(p1, p2, p3) < 0', 'return ccw(p1, p2, p3) < -.1')],
     PRE + """
from Patro.GeometryEngine.Polygon import convex_hull
h = convex_hull([V(0, 0), V(.4, 0), V(.1, .1), V(0, .4)], as_polygon=False)
assert {(p.x, p.y) for p in h} == {(0, 0), (.4, 0), (0, .4)}, h
""")

seed('polyline-early-stop', 'C10', 'a polyline which goes away from the point and comes back',
     'the distance search stops at the first edge which is farther than the previous one',
     [(G + 'Polyline.py', '                distance = edge_distance\n', '                distance = edge_distance\n            else:\n                break\n')],
     PRE + '''
from Patro.GeometryEngine.Polyline import Polyline2D
p = Polyline2D(V(0, 0), V(0, 10), V(5, 10), V(5, 1), V(1, 1))
near(p.distance_to_point(V(1, .5)), .5)
''')


seed('bezier-split-zero', 'C11', 'a cubic curve cut between t = 0 and a later parameter',
     'cutting a curve between 0 and t returns the whole curve',
     [(G + 'Bezier.py', 'if t2 < 1:', 'if 0 < t1 and t2 < 1:')],
     PRE + '''
from Patro.GeometryEngine.Bezier import CubicBezier2D
c = CubicBezier2D(V(0, 0), V(1, 2), V(3, 2), V(4, 0))
p = c.split_at_two_t(0, .5).p3
q = c.point_at_t(.5)
nearp(p, q.x, q.y)
''')

seed('bezier-length-bisect', 'C11', 'a parameter asked for a length within the precision of zero or beyond the middle of the curve',
     'the split of a quadratic curve at a two parameters uses the wrong fraction when the first one is beyond the middle',
     [(G + 'Bezier.py', 't = (t2 - t1) / (1 - t1)', 't = (t2 - t1) / max(1 - t1, t1)')],
     PRE + '''
from Patro.GeometryEngine.Bezier import QuadraticBezier2D
c = QuadraticBezier2D(V(0, 0), V(1, 2), V(3, 0))
p = c.split_at_two_t(.75, .875).p2
q = c.point_at_t(.875)
nearp(p, q.x, q.y)
''')

seed('bezier-fat-line-sides', 'C11', 'a cubic curve with its control points on both sides of the base line',
     'the fat line of a cubic curve with an inflexion is too narrow',
     [(G + 'Bezier.py', 'if d1*d2 > 0:', 'if d1*d2 < 0:')],
     PRE + '''
from Patro.GeometryEngine.Bezier import CubicBezier2D
c = CubicBezier2D(V(0, 0), V(1, 3), V(3, 3), V(4, 0))
line, lo, hi = c.fat_line()
ds = [line.distance_to_line(c.point_at_t(i/100)) for i in range(101)]
assert lo - 1e-9 <= min(ds) and max(ds) <= hi + 1e-9, (lo, hi, min(ds), max(ds))
''')

seed('bezier-closest-behind', 'C12', 'a point on the concave side of a quadratic curve',
     'the coefficient of the closest point polynomial loses the sign of a dot product',
     [(G + 'Bezier.py', '2*A.magnitude_square + M.dot(B)', '2*A.magnitude_square + abs(M.dot(B))')],
     PRE + '''
from Patro.GeometryEngine.Bezier import QuadraticBezier2D
c = QuadraticBezier2D(V(0, 0), V(0, 1), V(1, 2))
for p in [V(x/4, y/4) for x in (1, 2, 3, 6) for y in (1, 2, 5)]:
    best = min((c.point_at_t(i/2000) - p).magnitude for i in range(2001))
    d = (c.closest_point(p) - p).magnitude
    near(d, best, 1e-2)
''')

seed('bezier-line-cubic-coef', 'C12', 'a cubic curve whose second control point is not symmetrical',
     'the intersections of a cubic curve with a line use a wrong quadratic coefficient',
     [(G + 'Bezier.py', '3 * (p2 - p1 * 2 + p0),', '3 * (p2 - p1 * 2) + p0,')],
     PRE + '''
from Patro.GeometryEngine.Bezier import CubicBezier2D
from Patro.GeometryEngine.Line import Line2D
c = CubicBezier2D(V(0, 0), V(1, 5), V(2, -9), V(4, 1))
ts = [float(t) for t in c.intersect_line(Line2D(V(0, -.5), V(1, 0)))]
for t in ts:
    near(c.point_at_t(t).y, -.5)
''')

seed('spline-end-knot', 'C13', 'the last parameter of a spline with explicit knots',
     'at the end of a span the previous control point is returned',
     [(G + 'Spline.py', '                elif alpha == 1:\n                    point = points[j]\n', '                elif alpha == 1:\n                    point = points[j-1]\n')],
     PRE + '''
from Patro.GeometryEngine.Spline import BSpline2D
s = BSpline2D([V(0, 0), V(1, 2), V(3, 2), V(4, 0)], 3, knots=[0, 0, 0, 0, 1, 1, 1, 1])
nearp(s.point_at_t(1), 4, 0)
''')

seed('spline-insert-first-span', 'C13', 'a knot inserted at a parameter which is already a knot',
     'the weight of a control point is limited to positive differences larger than one',
     [(G + 'Spline.py', '                if d > 0:\n', '                if d >= 1:\n')],
     PRE + '''
from Patro.GeometryEngine.Spline import BSpline2D
s = BSpline2D([V(0, 0), V(1, 2), V(3, 2), V(4, 0)], 3, knots=[0, 0, 0, 0, .5, .5, .5, .5])
t = s.insert_knot(.25)
p, q = s.point_at_t(.125), t.point_at_t(.125)
nearp(q, p.x, p.y)
''')

seed('circle-horizontal-segment', 'C14', 'a horizontal segment',
     'a horizontal segment through a circle gives two equal points',
     [(G + 'Conic.py', 'x_b = sign(dy) * dx * sqrt(discriminant)', 'x_b = np.sign(dy) * dx * sqrt(discriminant)')],
     PRE + '''
from Patro.GeometryEngine.Conic import Circle2D
from Patro.GeometryEngine.Segment import Segment2D
p, q = Circle2D(V(0, 0), 2).intersect_segment(Segment2D(V(-5, 1), V(5, 1)))
near(abs(p.x - q.x), 2*math.sqrt(3))
''')

seed('circle-angle-domain', 'C14', 'a point at an orientation of the lower half plane of an arc which is not closed',
     'the distance to an arc is the distance to the circle for points near its lower part',
     [(G + 'Conic.py', '            orientation = 360 + orientation\n', '            orientation = 180 + orientation\n')],
     PRE + '''
from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
c = Circle2D(V(0, 0), 2, domain=AngularDomain(0, 180))
near(c.angle_for_point(V(0, -1)), 270)
''')

seed('domain-full-turn', 'C15', 'a domain of exactly one turn',
     'a domain of exactly 360 degrees is not closed',
     [(G + 'Mixin.py', 'return self.span >= 360', 'return self.span > 360')],
     PRE + '''
from Patro.GeometryEngine.Mixin import AngularDomain
assert AngularDomain(90, 450).is_closed and AngularDomain(90, 450).is_inside(0)
''')

seed('domain-radians', 'C15', 'a domain given in radians whose stop is a negative angle',
     'the bounds of a domain in radians are brought back to a positive angle',
     [(G + 'Mixin.py', 'stop = math.degrees(stop)', 'stop = math.degrees(stop) % 360')],
     PRE + '''
from Patro.GeometryEngine.Mixin import AngularDomain
assert AngularDomain(0, 2*math.pi, degrees=False).is_closed
assert abs(AngularDomain(0, -math.pi/2, degrees=False).stop + 90) < 1e-9
''')

seed('svg-arc-small-radii', 'C16', 'radii slightly too small to join the points',
     'radii which are too small by less than 40 percent are not scaled up',
     [(G + 'Conic.py', 'if radii_scale > 1:', 'if radii_scale > 2:')],
     PRE + """
from Patro.GeometryEngine.Conic import Ellipse2D
e = Ellipse2D.svg_arc(V(0, 0), V(6, 0), 2.5, 2, 0, False, True)
nearp(e.start_point, 0, 0, 1e-3); nearp(e.stop_point, 6, 0, 1e-3)
""")

seed('svg-arc-flags', 'C16', 'a large arc which sweeps through decreasing angles',
     'the centre of the arc is chosen with the sweep flag only',
     [(G + 'Conic.py', 'sign = 1 if large_arc != sweep else -1', 'sign = 1 if sweep > large_arc or not sweep else -1')],
     PRE + '''
from Patro.GeometryEngine.Conic import Ellipse2D
for la in (False, True):
    for sw in (False, True):
        e = Ellipse2D.svg_arc(V(0, 0), V(2, 0), 3, 2, 0, la, sw)
        assert (abs(e.domain.stop - e.domain.start) > 180) == la, (la, sw, e.domain)
''')

seed('path-cubic-end', 'C17', 'a transformed path with a cubic segment followed by a relative segment',
     'the bounds of a cubic segment are transformed in the wrong order',
     [(G + 'Path.py', '        TwoPointMixin.apply_transformation(self, transformation)\n        self._point3 = transformation * self._point3\n',
       '        TwoPointMixin.apply_transformation(self, transformation)\n        if self._point3 != self._path.p0:\n            self._point3 = transformation * self._point3\n')],
     PRE + """
from Patro.GeometryEngine.Path import Path2D
p = Path2D(V(0, 0)); p.cubic_to(V(1, 2), V(3, 3), V(4, 0), absolute=True)
q = p.scale(2, clone=True)
nearp(q[0].stop_point, 8, 0)
p = Path2D(V(1, 1)); p.cubic_to(V(1, 2), V(3, 3), V(2, 2), absolute=True)
q = p.scale(2, clone=True)
nearp(q[0].stop_point, 4, 4)
""")

seed('path-bulge-orientation', 'C17', 'a rounded corner which turns clockwise',
     'the arc of a clockwise corner goes the wrong way round',
     [(G + 'Path.py', 'if self.bulge_angle < 0:', 'if self.bulge_angle < -90:')],
     PRE + '''
from Patro.GeometryEngine.Path import Path2D
for s in (1, -1):
    p = Path2D(V(0, 0)); p.line_to(V(10, 0), absolute=True); p.line_to(V(4, s*10), radius=2, absolute=True)
    d = p[1].bulge_geometry.domain
    assert d.length < math.pi, (s, d)
''')

seed('path-south-west', 'C17', 'a path with a south west segment',
     'the south west direction of a path is wrong',
     [(G + 'Path.py', '__angle__ = -180 + 45', '__angle__ = -180 - 45')],
     PRE + '''
from Patro.GeometryEngine.Path import Path2D
p = Path2D(V(0, 0)); p.south_west_to(math.sqrt(2))
nearp(p[0].stop_point, -1, -1)
''')

seed('quadratic-negative', 'C18', 'a negative leading coefficient',
     'the roots have the wrong sign when the leading coefficient is negative',
     [('Patro/Common/Math/Root.py', 's = 1 / (2*a)', 's = 1 / (2*abs(a))')],
     PRE + '''
from Patro.Common.Math.Root import quadratic_root
for r in quadratic_root(-1, 5, -6):
    near(-r*r + 5*r - 6, 0)
''')

seed('cubic-shift', 'C18', 'a cubic with three real roots and a quadratic coefficient',
     'the last of three real roots is not shifted',
     [('Patro/Common/Math/Root.py', 'm2sqrtQ * cos((t - 2*pi)/3) - a/3,', 'm2sqrtQ * cos((t - 2*pi)/3) - a,')],
     PRE + '''
from Patro.Common.Math.Root import cubic_root_normalised
for r in cubic_root_normalised(-6, 11, -6):
    near(r**3 - 6*r**2 + 11*r - 6, 0, 1e-5)
''')

seed('bbox-in-place', 'C19', 'the bounding box of a path asked while the box of its first part is kept',
     'the bounding box of the first point is extended in place only when the point is outside of it',
     [(G + 'BoundingBox.py', '            bounding_box |= point.bounding_box\n', '            if not bounding_box.x.inf <= point.x <= bounding_box.x.sup or point.y > bounding_box.y.sup:\n                bounding_box |= point.bounding_box\n')],
     PRE + '''
from Patro.GeometryEngine.Polygon import Polygon2D
b = Polygon2D(V(0, 0), V(4, 4), V(2, -3)).bounding_box
assert b.y.inf == -3, b
''')

SVG = 'Patro/FileFormat/Svg/'
seed('svg-path-number-format', 'C20', 'coordinates with more than six significant digits',
     'the path data written lose digits',
     [(SVG + 'SvgFormat.py', "path_data += ' '.join(list(command[0]) + [str(x) for x in command[1]])", "path_data += ' '.join(list(command[0]) + ['{:g}'.format(x) for x in command[1]])")],
     PRE + '''
from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute
s = PathDataAttribute.to_xml([('M', [1234.5678, 2]), ('L', [3.1234567, 4])])
assert s == 'M 1234.5678 2 L 3.1234567 4', s
''')

seed('svg-path-implicit-line', 'C20', 'an absolute moveto followed by several pairs of coordinates',
     'the pairs which follow an absolute moveto are relative lines',
     [(SVG + 'SvgFormat.py', "            elif command == 'M':\n                command = 'L'\n", "            elif command == 'M':\n                command = 'l'\n")],
     PRE + '''
from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute
p = PathDataAttribute.from_xml('M 1 1 2 3 4 5')
nearp(p[0].stop_point, 2, 3); nearp(p[1].stop_point, 4, 5)
''')

seed('svg-arc-flag', 'C20', 'a relative arc',
     'the end point of a relative arc is taken as absolute when the radii differ',
     [(SVG + 'SvgFormat.py', "bool(large_arc), bool(sweep), absolute=absolute)", "bool(large_arc), bool(sweep), absolute=absolute or radius_x != radius_y)")],
     PRE + '''
from Patro.FileFormat.Svg.SvgFormat import PathDataAttribute
p = PathDataAttribute.from_xml('M 1 1 a 5 3 0 0 1 2 2')
nearp(p[0].stop_point, 3, 3)
''')

seed('svg-rotate-centre', 'C21', 'a rotation around a point given with the third form of rotate',
     'a rotation with a centre turns around the origin when the x coordinate of the centre is null',
     [(SVG + 'SvgFormat.py', 'transform = AffineTransformation2D.RotationAt(vector, angle)',
       'transform = AffineTransformation2D.RotationAt(vector, angle) if vector.x else AffineTransformation2D.Rotation(angle)')],
     PRE + '''
from Patro.FileFormat.Svg.SvgFormat import TransformAttribute
t = TransformAttribute.from_xml('rotate(90 0 5)')
nearp(t * V(0, 5), 0, 5)
''')

seed('svg-matrix-order', 'C21', 'a matrix with different off diagonal coefficients',
     'the matrix of a transform attribute is read by rows when it has no translation',
     [(SVG + 'SvgFormat.py', 'array = [values[i] for i in (0, 2, 4, 1, 3, 5)] + [0, 0, 1]',
       'array = [values[i] for i in ((0, 2, 4, 1, 3, 5) if any(values[4:]) else (0, 1, 4, 2, 3, 5))] + [0, 0, 1]')],
     PRE + '''
from Patro.FileFormat.Svg.SvgFormat import TransformAttribute
t = TransformAttribute.from_xml('matrix(1 2 3 4 0 0)')
nearp(t * V(1, 0), 1, 2)
''')

seed('svg-state-shared', 'C22', 'a group nested in a group, followed by an item of the outer group',
     'the state of a group is modified in place by its subgroups',
     [(SVG + 'SvgFile.py', '        new_state = self.state.clone()\n', '        new_state = self.state.clone() if len(self._stack) < 2 else self.state\n')],
     PRE + '''
from Patro.FileFormat.Svg.SvgFile import RenderStateStack
from Patro.FileFormat.Svg import SvgFormat
s = RenderStateStack()
s.push(SvgFormat.Group(stroke='red')); s.push(SvgFormat.Group(stroke='blue')); s.pop()
assert s.state.stroke == 'red', s.state.stroke
''')

seed('svg-transform-order', 'C22', 'two nested groups whose transforms do not commute',
     'the transform of an inner group is applied after the transform of the outer group',
     [(SVG + 'SvgFile.py', '                        self.transform = self.transform * value\n', '                        self.transform = value * self.transform\n')],
     PRE + '''
from Patro.FileFormat.Svg.SvgFile import RenderStateStack
from Patro.FileFormat.Svg import SvgFormat
s = RenderStateStack()
s.push(SvgFormat.Group(transform='translate(10 0)')); s.push(SvgFormat.Group(transform='scale(2)'))
nearp(s.state.transform * V(1, 1), 12, 2)
''')

seed('xml-falsy-attribute', 'C23', 'an attribute whose value is zero or the empty string',
     'null values are not written',
     [('Patro/Common/Xml/Objectivity.py', '            if value is not None:\n                attributes[attribute.xml_attribute]', '            if value or value is False:\n                attributes[attribute.xml_attribute]')],
     PRE + '''
from Patro.FileFormat.Svg import SvgFormat
e = SvgFormat.Circle(cx=0, cy=3, r=1).to_xml()
assert float(e.attrib['cx']) == 0
''')

seed('xml-percent', 'C23', 'a stroke width in percent',
     'percentages are kept without the division by hundred when they are written',
     [(SVG + 'SvgFormat.py', "        self._value = float(value) / 100\n", "        self._value = float(value) / 100 if float(value) <= 100 else float(value)\n")],
     PRE + '''
from Patro.FileFormat.Svg import SvgFormat
v = SvgFormat.PercentValue('150')
near(float(v), 1.5)
''')

seed('dxf-negative-bulge', 'C24', 'a polyline with a negative bulge',
     'the arc of a negative bulge goes the wrong way round',
     [('Patro/FileFormat/Dxf/Polyline.py', 'if vertex1.bulge < 0:', 'if vertex1.bulge < -1:')],
     PRE + '''
from Patro.FileFormat.Dxf.Polyline import Polyline
p = Polyline(); p.add(V(0, 0), -.5); p.add(V(2, 0))
assert p.geometry()[0].domain.length < math.pi
''')

seed('dxf-closing-bulge', 'C24', 'a closed polyline with a bulge on its last vertex',
     'the closing edge of a polyline is straight',
     [('Patro/FileFormat/Dxf/Polyline.py', '            if self._polyline.closed:\n                return self._polyline[0]\n', '            if self._polyline.closed and not self._bulge:\n                return self._polyline[0]\n')],
     PRE + '''
from Patro.FileFormat.Dxf.Polyline import Polyline
from Patro.GeometryEngine.Conic import Circle2D
p = Polyline(closed=True); p.add(V(0, 0)); p.add(V(2, 0)); p.add(V(2, 2), .5)
assert isinstance(p.geometry()[2], Circle2D)
''')

seed('dxf-ellipse-angle', 'C24', 'an ellipse whose major axis points to the left',
     'the angle of an ellipse is brought back to a half turn',
     [('Patro/FileFormat/Dxf/Importer.py', 'angle = major_axis.orientation', 'angle = major_axis.orientation % 180')],
     PRE + '''
import ezdxf, tempfile, os
from Patro.FileFormat.Dxf.Importer import DxfImporter
with tempfile.TemporaryDirectory() as d:
    doc = ezdxf.new(); doc.modelspace().add_ellipse((0, 0), (-3, -1), ratio=.5, start_param=0, end_param=1)
    f = os.path.join(d, 'a.dxf'); doc.saveas(f)
    e = DxfImporter(f)[0]
    nearp(e.start_point, -3, -1)
''')

seed('measurement-prefix', 'C25', 'a measurement used by an expression before it is defined',
     'an expression is evaluated once and for all when it is read while a measurement is missing',
     [('Patro/Measurement/Measurement.py', "            value, full_name, description = data\n", "            value, full_name, description = data[0], data[2], data[1]\n")],
     PRE + '''
from Patro.Measurement.Measurement import MeasurementSet
import tempfile, os
m = MeasurementSet(); m.add('a', 1, 'full', 'desc')
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.yaml'); m.save_as_yaml(f)
    n = MeasurementSet(); n.load_yaml(f)
assert n['a'].full_name == 'full'
''')

seed('calculator-angle', 'C25', 'a formula with the angle of a line',
     'AngleLine gives the angle of the line in the reverse direction when the line goes down',
     [('Patro/Pattern/Calculator.py', "        return (point2 - point1).orientation\n", "        return abs((point2 - point1).orientation)\n")],
     PRE + '''
from Patro.Measurement.Measurement import MeasurementSet
from Patro.Pattern.Pattern import Pattern
p = Pattern(MeasurementSet(), 'cm'); s = p.add_scope('s').sketch
o = V(0, 0); s.SinglePoint('A', 0, 0, o); s.SinglePoint('B', 3, -3, o); c = s.SinglePoint('C', 'AngleLine_A_B', 0, o)
s.eval()
near(c.vector.x, -45)
''')

seed('dag-diamond', 'C26', 'a node reached by two paths of different lengths',
     'a node is visited twice by the breadth first search when it has several ancestors',
     [('Patro/Common/Graph/DirectedAcyclicGraph.py', "                    visited.add(descendant)\n", "                    if len(descendant._ancestors) < 2:\n                        visited.add(descendant)\n")],
     PRE + '''
from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph
g = DirectedAcyclicGraph(); n = [g.add_node(i) for i in range(4)]
for i, j in ((0, 1), (0, 2), (1, 3), (2, 3)):
    g.add_edge(n[i], n[j])
assert len(list(n[0].breadth_first_search())) == 4
''')

seed('dag-cycle', 'C26', 'a cycle of two nodes or more reached after an already sorted node',
     'the temporary marks are dropped early so that longer cycles recurse forever or are missed',
     [('Patro/Common/Graph/DirectedAcyclicGraph.py', "            if node in temporary_marked_nodes:\n                raise NameError('Not a DAG')", "            if node in temporary_marked_nodes:\n                if node.is_root or node in node._descendants or len(temporary_marked_nodes) < 3:\n                    raise NameError('Not a DAG')\n                return")],
     PRE + '''
from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph
g = DirectedAcyclicGraph(); n = [g.add_node(i) for i in range(3)]
for i, j in ((0, 1), (1, 2), (2, 0)):
    g.add_edge(n[i], n[j])
try:
    g.topological_sort()
except NameError:
    pass
else:
    raise AssertionError('cycle not found')
''')

seed('counter-set-race', 'C27', 'two threads which set the counter at the same time',
     'the check of the new value is done before taking the lock',
     [('Patro/Common/AtomicCounter.py', "        with self._lock:\n            if value <= self._value:\n                raise ValueError\n            self._value = value\n", "        if value <= self._value:\n            raise ValueError\n        with self._lock:\n            self._value = value\n")],
     PRE + '''
import threading
from Patro.Common.AtomicCounter import AtomicCounter
c = AtomicCounter(0)
class Lock:
    def __enter__(self):
        c._lock = threading.Lock() # a second thread runs here
        c.set(10)
    def __exit__(self, *args):
        pass
c._lock = Lock()
try:
    c.set(5)
except ValueError:
    pass
assert int(c) == 10, int(c)
''')

seed('counter-increment-race', 'C27', 'two threads which increment the counter at the same time',
     'the new value is computed outside of the lock',
     [('Patro/Common/AtomicCounter.py', "        with self._lock:\n            self._value += value\n", "        new_value = self._value + value\n        with self._lock:\n            self._value = new_value\n")],
     PRE + '''
import threading
from Patro.Common.AtomicCounter import AtomicCounter
c = AtomicCounter(0)
class Lock:
    def __enter__(self):
        c._lock = threading.Lock() # a second thread runs here
        c.increment()
    def __exit__(self, *args):
        pass
c._lock = Lock()
c.increment()
assert int(c) == 2, int(c)
''')

seed('closed-pairwise-last', 'C28', 'a sequence of one item',
     'a sequence of one item has no closed pair',
     [('Patro/Common/IterTools.py', "    for i in range(number_of_items):\n        yield iterable[i], ", "    for i in range(number_of_items if number_of_items > 1 else 0):\n        yield iterable[i], ")],
     PRE + '''
from Patro.Common.IterTools import closed_pairwise
assert list(closed_pairwise([1])) == [(1, 1)]
''')

seed('multiwise-large', 'C28', 'a window of three items or more',
     'the windows of more than two items are not consecutive',
     [('Patro/Common/IterTools.py', "        for j in range(i):\n", "        for j in range(min(i, 2)):\n")],
     PRE + '''
from Patro.Common.IterTools import multiwise
assert list(multiwise([1, 2, 3, 4, 5], n=4)) == [(1, 2, 3, 4), (2, 3, 4, 5)]
''')

seed('colour-int-one', 'C29', 'a component given as the integer 1',
     'the integer component 1 is taken as the float 1.0',
     [('Patro/GraphicStyle/Color/ColorDataBase.py', "            if 0 <= value <= 255:\n", "            if value == 1:\n                return 1.\n            if 0 <= value <= 255:\n")],
     PRE + '''
from Patro.GraphicStyle import Color
assert Color(1, 0, 0).red == 1
''')

seed('colour-clone-name', 'C29', 'a colour made from another one whose name is set',
     'a copy of a colour swaps two components',
     [('Patro/GraphicStyle/Color/ColorDataBase.py', "return self.__class__(self._red, self._green, self._blue, name=self._name)", "return self.__class__(str(self), name=self._name)")],
     PRE + '''
from Patro.GraphicStyle import Color
c = Color(.123, .5, .7)
assert c.clone().red_float == c.red_float
''')

seed('unit-nm', 'C30', 'a yarn of less than one tex',
     'the metric number of a thin yarn is wrong',
     [('Patro/TextileTechnology/Yarn.py', "def tex2nm(x):\n    return 1000/x", "def tex2nm(x):\n    return 1000/max(x, 1)")],
     PRE + '''
from Patro.TextileTechnology.Yarn import Yarn
near(Yarn('silk', 'red', .5).nm, 2000)
''')

seed('style-alpha', 'C30', 'a fill opacity given as zero',
     'a null fill opacity is replaced by one',
     [('Patro/GraphicEngine/GraphicScene/GraphicStyle.py', "        self._fill_alpha = float(value)\n", "        self._fill_alpha = float(value) or 1.\n")],
     PRE + '''
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
assert GraphicPathStyle(fill_alpha=0).fill_alpha == 0
''')


SK = PRE + """
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
m = ValentinaMeasurements(); m.add('m', '3')
p = Pattern(m, 'cm'); s = p.add_scope('s').sketch
o = V(0, 0)
"""

seed('sketch-normal-angle', 'C31', 'a normal point with a negative angle',
     'a negative angle of a normal point is ignored',
     [('Patro/Pattern/SketchOperation.py', "        if angle:\n            direction = direction.rotate(angle)", "        if angle > 0:\n            direction = direction.rotate(angle)")],
     SK + """
a = s.SinglePoint('A', 0, 0, o); s.SinglePoint('B', 3, 0, o); c = s.NormalPoint('C', 'A', 'B', -90, 2, o)
s.eval()
near(c.vector.x, 2)
""")

seed('sketch-to-python-offset', 'C31', 'a label offset with more than two decimals (as in the files of Valentina)',
     'the code of an operation has a rounded label offset',
     [('Patro/Pattern/SketchOperation.py', "'Vector2D({0.x}, {0.y})'.format(value)", "'Vector2D({0.x:.2f}, {0.y:.2f})'.format(value)")],
     SK + """
a = s.SinglePoint('A', 0, 0, V(.132292, .264583))
s.eval()
assert '.132292' in a.to_python(), a.to_python()
""")

seed('sketch-spline-dependency', 'C31', 'a spline whose lengths are expressions on points which are not its ends',
     'the dependencies of the expressions of splines are not recorded',
     [('Patro/Pattern/Sketch.py', "            else:\n                pass\n            operation.connect_ancestor_for_expressions()", "            else:\n                continue\n            if isinstance(operation, SketchOperation.Point):\n                operation.connect_ancestor_for_expressions()")],
     SK + """
a, b, c, d = [s.SinglePoint(n, i, i*i, o) for i, n in enumerate('ABCD')]
x = s.SimpleInteractiveSpline('A', 'B', 10, 'Line_C_D', 20, 1)
s.eval()
assert c in x.dependencies and d in x.dependencies
""")

seed('scene-z-order', 'C32', 'items whose z values have the same integer part',
     'the z values are compared by their integer part',
     [('Patro/GraphicEngine/GraphicScene/Scene.py', "        for z_value in sorted(z_map.keys()):", "        for z_value in sorted(z_map.keys(), key=int):")],
     PRE + """
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
s = GraphicScene(); st = GraphicPathStyle()
a = s.segment(V(0, 0), V(1, 1), st, user_data=None); b = s.segment(V(0, 0), V(1, 1), st, user_data=None)
a.z_value = .7; b.z_value = .2
assert list(s.z_value_iter()) == [b, a]
""")

seed('scene-item-at-zero', 'C32', 'a position exactly on the item',
     'an item at a null distance of the position is not found',
     [('Patro/GraphicEngine/GraphicScene/Scene.py', "if distance is not None and distance <= radius:", "if distance and distance <= radius:")],
     PRE + """
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
s = GraphicScene(); st = GraphicPathStyle()
a = s.segment(V(0, 0), V(2, 0), st, user_data=None)
s.update_rtree()
assert [x[1] for x in s.item_at(V(1, 0), 1)] == [a]
""")

seed('scene-circle-arc-start', 'C32', 'an arc of circle which starts at 0 degree',
     'add_geometry draws the arcs which start at 0 as whole circles',
     [('Patro/GraphicEngine/GraphicScene/Scene.py', "            args = [item.radius]\n            if item.domain:", "            args = [item.radius]\n            if item.domain and item.domain.start:")],
     PRE + """
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GeometryEngine.Conic import Circle2D, AngularDomain
s = GraphicScene(); st = GraphicPathStyle()
a = s.add_geometry(Circle2D(V(0, 0), 2, domain=AngularDomain(0, 90)), st)
assert (a.start_angle, a.stop_angle) == (0, 90)
""")

seed('tile-rows-of-columns', 'C33', 'a drawing which is higher than a page',
     'the number of rows is computed with the width of the page, useless rows are made',
     [('Patro/GraphicEngine/Painter/Painter.py', "self._bounding_box.y.length / area_vector.y", "self._bounding_box.y.length / area_vector.x")],
     PRE + """
from Patro.GraphicEngine.Painter.Painter import Tiler
from Patro.GraphicEngine.Painter.Paper import PaperSize
from IntervalArithmetic import Interval2D
assert len(list(Tiler(Interval2D((0, 10), (0, 25)), PaperSize('a4', 'portrait', 1)))) == 1
""")

seed('paper-small-levels', 'C33', 'the sizes A9, A10, B9...',
     'the small sizes are those of the level 8',
     [('Patro/GraphicEngine/Painter/Paper.py', "scale = SQRT_2**level", "scale = SQRT_2**min(level, 8)")],
     PRE + """
from Patro.GraphicEngine.Painter.Paper import PaperSize
near(PaperSize('a10', 'portrait', 1).height, 1189 / 32)
""")

seed('singleton-double-check', 'C34', 'two threads which ask for the first instance at the same time',
     'the instance is tested out of the lock only: the constructor is run twice and two instances exist',
     [('Patro/Common/Singleton.py', "        with cls._rlock:\n            if cls._instance is None:\n                cls._instance", "        if cls._instance is None:\n            with cls._rlock:\n                cls._instance")],
     """
import threading, time
from Patro.Common.Singleton import SingletonMetaClass
class A(metaclass=SingletonMetaClass):
    def __init__(self):
        time.sleep(.3)
got = []
ts = [threading.Thread(target=lambda: got.append(A())) for i in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert len({id(x) for x in got}) == 1
""")

seed('singleton-falsy', 'C34', 'a decorated class whose instances are false (an empty container)',
     'a false instance is made again at each call',
     [('Patro/Common/Singleton.py', "        if self._instance is None:\n            self._instance = self._cls", "        if not self._instance:\n            self._instance = self._cls")],
     """
from Patro.Common.Singleton import singleton
@singleton
class A(dict):
    pass
assert A() is A()
""")

seed('singleton-inherited', 'C34', 'a class and its subclass, the class instantiated first',
     'a subclass shares the instance of its super class',
     [('Patro/Common/Singleton.py', "        cls._instance = None\n        cls._rlock", "        if not isinstance(super_classes[0] if super_classes else None, SingletonMetaClass):\n            cls._instance = None\n        cls._rlock")],
     """
from Patro.Common.Singleton import SingletonMetaClass
class A(metaclass=SingletonMetaClass):
    pass
class B(A):
    pass
A()
assert type(B()) is B
""")

VAL = """
import os, tempfile, contextlib, io
from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
def read(text):
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        p = os.path.join(d, 'a.val')
        open(p, 'w').write(text)
        return ValFileReader(p).pattern
def again(pattern):
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        p = os.path.join(d, 'a.val')
        ValFileWriter(p, None, pattern)
        return ValFileReader(p).pattern
HEAD = '<pattern><version>0.7.10</version><unit>cm</unit><measurements/><draw name="n"><calculation>'
TAIL = '</calculation><modeling/><details/></draw></pattern>'
"""

seed('valentina-write-sorted', 'C35', 'a pattern whose operations are not in the order of their ids (an operation inserted afterwards)',
     'the operations are written by id, so that a point is written before those it depends on',
     [('Patro/FileFormat/Valentina/Pattern.py', "for operation in scope.sketch.operations:", "for operation in sorted(scope.sketch.operations, key=lambda operation: operation.id):")],
     VAL + """
p = read(HEAD + '<point id="5" type="single" name="A" x="1" y="2" mx="0" my="0"/><point id="2" type="endLine" name="B" basePoint="5" length="1" angle="0" mx="0" my="0"/>' + TAIL)
q = again(p)
assert [o.id for o in q.scope(0).sketch.operations] == [5, 2]
""")

seed('valentina-offset', 'C35', 'a label with a null x offset',
     'the label offset of a point is written only when its x is not null',
     [('Patro/FileFormat/Valentina/VitFormat.py', "        kwargs['my'] = label_offset.y\n", "        kwargs['my'] = label_offset.y if label_offset.x else 0.\n")],
     VAL + """
p = again(read(HEAD + '<point id="1" type="single" name="A" x="1" y="2" mx="0" my="3"/>' + TAIL))
assert p.scope(0).sketch.operations[0].label_offset.y == 3
""")

seed('valentina-dash-dot', 'C35', 'a line with the dash dot dot style, written to a file',
     'the styles of lines are written by a table which has only the first ones',
     [('Patro/FileFormat/Valentina/VitFormat.py', "{value:name for name, value in __STROKE_STYLE__.items()}", "{value:name.replace('DotDot', 'Dot') for name, value in __STROKE_STYLE__.items()}")],
     VAL + """
p = again(read(HEAD + '<point id="1" type="single" name="A" x="1" y="2" mx="0" my="3"/><point id="2" type="single" name="B" x="4" y="2" mx="0" my="3"/><line id="3" firstPoint="1" secondPoint="2" typeLine="dashDotDotLine" lineColor="blue"/>' + TAIL))
assert p.scope(0).sketch.operations[2].line_style.name == 'DashDotDotLine'
""")

SC = PRE + """
import os, tempfile
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
from IntervalArithmetic import Interval2D
paper = PaperSize('a4', 'portrait', 1)
"""

seed('painter-named-position', 'C36', 'an item on named coordinates in a scene with a transformation',
     'the named coordinates are not moved by the transformation of the scene',
     [('Patro/GraphicEngine/GraphicScene/Scene.py', "            vector = self._coordinates[position].position\n", "            return self._coordinates[position].position.clone()\n")],
     SC + """
s = GraphicScene(A.Translation(V(10, 0))); s.add_coordinate('a', V(1, 2))
s.bounding_box = Interval2D((0, 20), (0, 20))
s.segment('a', V(3, 3), GraphicPathStyle(), user_data=None)
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
with tempfile.TemporaryDirectory() as d:
    SvgPainter(os.path.join(d, 'a.svg'), s, paper)
    t = open(os.path.join(d, 'a.svg')).read()
assert 'x1="110' in t, t
""")

seed('svg-line-width', 'C36', 'a line width which is not an integer',
     'the line width is rounded in SVG documents',
     [('Patro/GraphicEngine/Painter/SvgPainter.py', "line_width = str(path_syle.line_width_as_float)", "line_width = str(round(path_syle.line_width_as_float))")],
     SC + """
s = GraphicScene(); s.bounding_box = Interval2D((0, 20), (0, 20))
s.segment(V(1, 1), V(3, 3), GraphicPathStyle(line_width='0.5'), user_data=None)
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
with tempfile.TemporaryDirectory() as d:
    SvgPainter(os.path.join(d, 'a.svg'), s, paper)
    t = open(os.path.join(d, 'a.svg')).read()
assert 'stroke-width="0.5"' in t, t
""")

seed('tex-tile-clip', 'C36', 'a tiled drawing whose tiles are not at integer positions',
     'the clip of the tiles is rounded to the unit: parts of the drawing are lost between the tiles',
     [('Patro/GraphicEngine/Painter/TexPainter.py', "r'({0.x.inf:.2f},{0.y.sup:.2f}) -- cycle;'", "r'({0.x.inf:.0f},{0.y.sup:.2f}) -- cycle;'")],
     SC + """
s = GraphicScene(); s.bounding_box = Interval2D((.35, 10), (0, 10))
s.segment(V(1, 1), V(3, 3), GraphicPathStyle(), user_data=None)
from Patro.GraphicEngine.Painter.TexPainter import TexPainter
p = TexPainter('/nonexistent/a.tex', s, paper)
p.add_tiled_detail_figure()
t = str(p._document)
assert '(-0.65,%.2f) -- cycle' % (-1 + (paper.height - 6) / 10) in t, t
""")

seed('svg-dash-nopen', 'C36', 'a dotted line in SVG',
     'dotted lines are drawn solid',
     [('Patro/GraphicEngine/Painter/SvgPainter.py', "        if line_style:\n", "        if line_style and line_style[0] > 1:\n")],
     SC + """
from Patro.GraphicStyle import StrokeStyle
s = GraphicScene(); s.bounding_box = Interval2D((0, 20), (0, 20))
s.segment(V(1, 1), V(3, 3), GraphicPathStyle(stroke_style=StrokeStyle.DotLine), user_data=None)
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
with tempfile.TemporaryDirectory() as d:
    SvgPainter(os.path.join(d, 'a.svg'), s, paper)
    t = open(os.path.join(d, 'a.svg')).read()
assert 'dasharray' in t, t
""")

QT = SC + """
from PyQt5.QtGui import QGuiApplication
os.environ.setdefault('XDG_RUNTIME_DIR', '/tmp')
app = QGuiApplication(['patro'])
from Patro.GraphicEngine.Painter import QtPainter as Q
class R:
    def __init__(self): self.log = []
    def __getattr__(self, name): return lambda *a: self.log.append((name, a))
"""

seed('qt-arc-span', 'C37', 'an arc which crosses the x axis, of more than half a turn',
     'the span of an arc which crosses 0 is negative when it is small: the complement is drawn',
     [('Patro/GraphicEngine/Painter/QtPainter.py', "            if span_angle < 0:\n", "            if span_angle < -2880:\n")],
     QT + """
s = GraphicScene(); s.bounding_box = Interval2D((0, 20), (0, 20))
s.circle(V(1, 1), 2, GraphicPathStyle(), start_angle=100, stop_angle=20, user_data=None)
p = Q.QtPainter(s); p._scale = 1; r = R(); p.paint(r)
arc = [a for n, a in r.log if n == 'drawArc'][0]
assert arc[1:] == (1600, 280*16), arc
""")

seed('qt-grid-last', 'C37', 'an area whose upper limit is a multiple of the step or just above',
     'the last line of the grid is missing',
     [('Patro/GraphicEngine/Painter/QtPainter.py', "int(xsup // step) +1)", "math.ceil(xsup / step))")],
     QT + """
v = Q.QtPainter(None)
r = R(); v._painter = r; v._scale = 1
v.cast_position = lambda p: p
v._paint_axis_grid(0, 20, 0, 5, True, 10)
assert len(r.log) == 3, r.log
""")

seed('qt-pan-zoom', 'C37', 'zoom at a position after a pan',
     'the scale of mm by px is that of the previous zoom when the viewport is zoomed out under 1 px/mm',
     [('Patro/GraphicEngine/Painter/QtPainter.py', "        return 1 / self._scale\n", "        return 1 / max(self._scale, 1)\n")],
     QT + """
class G:
    def width(self): return 100
    def height(self): return 100
v = Q.ViewportArea(); v.viewport_size = G()
s = GraphicScene(); s.bounding_box = Interval2D((0, 1000), (0, 1000)); v.scene = s
v.fit_scene()
near(v.area.x.length, 1020)
""")

AR = PRE + """
from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead
"""

seed('arrow-direction-alias', 'C38', 'the vector of the direction used after the head is made',
     'the vector given as direction is normalised in place',
     [('Patro/GeometryEngine/Shape/ArrowHead.py', "self._direction = Vector2D(direction).normalise()", "self._direction = direction.normalise()")],
     AR + """
d = V(3, 4)
TriangularHead(V(0, 0), d, 2, 1)
near(d.x, 3)
""")

seed('arrow-offset-sign', 'C38', 'a head with a negative axial offset',
     'a negative axial offset is ignored',
     [('Patro/GeometryEngine/Shape/ArrowHead.py', "return self._axial_offset != 0", "return self._axial_offset > 0")],
     AR + """
assert len(list(TriangularHead(V(0, 0), V(1, 0), 4, 1, axial_offset=-1).points)) == 4
""")

seed('arrow-right-curve', 'C38', 'a curvy head with only its right side and an axial offset',
     'the right side of a curvy head with an offset has the curve of a head without depth',
     [('Patro/GeometryEngine/Shape/ArrowHead.py', """            else: # only right
                controls1 = (self.right_curved_point, self.right_point)
                vertices = (self.offseted_back_tip_point,)""", """            else: # only right
                controls1 = ((self.right_point + self.tip_point) / 2, self.right_point)
                vertices = (self.offseted_back_tip_point,)""")],
     AR + """
h = TriangularCurvyHead(V(0, 0), V(1, 0), 4, 1, .3, axial_offset=1, left_side=False)
p = list(h)[0].points
nearp(p[1], h.right_curved_point.x, h.right_curved_point.y)
""")

seed('svg-arc-half-turn', 'C16', 'an arc which spans nearly half a turn, clockwise in angle',
     'the difference of the angles of an arc is not brought back to [0, 360[ when it is more than 179 degrees',
     [(G + 'Conic.py', "delta_theta = delta_theta % 360\n", "delta_theta = delta_theta % 360 if abs(delta_theta) < 179 else abs(delta_theta)\n")],
     PRE + '''
from Patro.GeometryEngine.Conic import Ellipse2D
for k in (1, 1.001, 1.00001):
    for la in (False, True):
        for sw in (False, True):
            for p, q in ((V(0, 0), V(2, 0)), (V(2, 0), V(0, 0)), (V(0, 0), V(0, 2)), (V(0, 2), V(0, 0))):
                e = Ellipse2D.svg_arc(p, q, k, k, 0, la, sw)
                a, b = (e.start_point, e.stop_point) if sw else (e.stop_point, e.start_point)
                nearp(a, p.x, p.y, 1e-4); nearp(b, q.x, q.y, 1e-4)
                assert e.domain.length > 0
''')

seed('path-sharp-bulge', 'C17', 'a bulge at a corner which nearly turns back',
     'the angle of a bulge is not the one of the corner when the path nearly turns back',
     [(G + 'Path.py', '        return self.bulge_angle_rad / 2', '        angle = self.bulge_angle_rad / 2\n        return sign(angle) * max(abs(angle), .01)')],
     PRE + '''
from Patro.GeometryEngine.Path import Path2D
for s in (1, -1):
    p = Path2D(V(0, 0))
    p.line_to(V(50, 0))
    p.line_to(V(-40, s * .2), radius=.02)
    c = p[1].bulge_center
    near(abs(c.y), .02)
    d = V(-40, s * .2)
    near(abs((c - V(50, 0)).cross(d)) / d.magnitude, .02)
    e = p[1].bulge_stop_point - V(50, 0)
    near(e.cross(d), 0)
    g = p[1].bulge_geometry
    a, b = (p[1].bulge_start_point, p[1].bulge_stop_point)[::s]
    nearp(g.start_point, a.x, a.y, 1e-4); nearp(g.stop_point, b.x, b.y, 1e-4)
''')

seed('dxf-flat-bulge', 'C24', 'a very flat arc',
     'an arc with a small bulge is read as a segment',
     [('Patro/FileFormat/Dxf/Polyline.py', "            if vertex1.bulge:", "            if vertex1.bulge and abs(vertex1.bulge) > .01:")],
     PRE + '''
from Patro.FileFormat.Dxf.Polyline import Polyline
from Patro.GeometryEngine.Conic import Circle2D
p = Polyline(); p.add(V(0, 0), .005); p.add(V(2000, 0))
assert isinstance(p.geometry()[0], Circle2D)
''')


seed('scene-item-at-order', 'C32', 'items near a position, one of which is above the others',
     'the items at a position are sorted by their z value first, the nearest one is not the first',
     [('Patro/GraphicEngine/GraphicScene/Scene.py', 'return sorted(items, key=lambda pair: pair[0])', 'return sorted(items, key=lambda pair: (-pair[1].z_value, pair[0]))')],
     PRE + """
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
import types
near_item, far_item = [types.SimpleNamespace(z_value=z, distance_to_point=lambda p, d=d: d) for z, d in ((0, .25), (5, .75))]
scene = GraphicScene()
scene.item_in_bounding_box = lambda box: [near_item, far_item]
r = scene.item_at(V(0, 0), 1)
assert [i for _, i in r] == [near_item, far_item], r
""")

seed('dag-sort-cache', 'C26', 'an edge added after a first sort',
     'the topological sort is kept and only dropped when a node is added: an edge added afterwards is ignored',
     [('Patro/Common/Graph/DirectedAcyclicGraph.py', '        self._nodes = {}\n', '        self._nodes = {}\n        self._sorted = None\n'),
      ('Patro/Common/Graph/DirectedAcyclicGraph.py', '            self._nodes[node_id] = node\n', '            self._nodes[node_id] = node\n            self._sorted = None\n'),
      ('Patro/Common/Graph/DirectedAcyclicGraph.py', '        sorted_list = [] # reversed\n', '        if self._sorted is not None:\n            return list(self._sorted)\n\n        sorted_list = self._sorted = []\n'),
      ('Patro/Common/Graph/DirectedAcyclicGraph.py', '        sorted_list.reverse()\n\n        return sorted_list', '        sorted_list.reverse()\n\n        return list(sorted_list)')],
     """
from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph
g = DirectedAcyclicGraph()
for i in range(3):
    g.add_node(i)
a, b, c = g.topological_sort()
g.add_edge(c, a)
r = g.topological_sort()
assert r.index(c) < r.index(a)
""")

seed('svg-transform-memo', 'C21', 'the same transform attribute read twice, the first result modified in place',
     'the transformations read are kept by text and shared',
     [(SVG + 'SvgFormat.py', "            # return transforms\n            return cls.to_python(transforms, concat=True)",
       "            # return transforms\n            if value not in cls._MEMO:\n                cls._MEMO[value] = cls.to_python(transforms, concat=True)\n            return cls._MEMO[value]"),
      (SVG + 'SvgFormat.py', "    TRANSFORM = (\n        'matrix',", "    _MEMO = {}\n\n    TRANSFORM = (\n        'matrix',")],
     PRE + """
from Patro.FileFormat.Svg import SvgFormat
from Patro.GeometryEngine.Transformation import AffineTransformation2D
class E:
    attrib = {'transform': 'translate(1, 2)', 'id': 'x'}
    text = ''
t = SvgFormat.Group(E).transform
t *= AffineTransformation2D.Translation(V(5, 5))
p = SvgFormat.Group(E).transform * V(0, 0)
nearp(p, 1, 2)
""")

seed('calculator-code-cache', 'C25', 'two calculators with the same expression on points which have the same names',
     'the compiled expressions are shared by the calculators with their dependencies',
     [('Patro/Pattern/Calculator.py', "        if self._code is None:\n            self._compile()",
       "        if self._code is None:\n            cached = _COMPILED.get(self._expression)\n            if cached is None:\n                self._compile()\n                _COMPILED[self._expression] = (self._ast, self._dependencies, self._code)\n            else:\n                self._ast, self._dependencies, self._code = cached"),
      ('Patro/Pattern/Calculator.py', "class Calculator:\n", "_COMPILED = {}\n\nclass Calculator:\n")],
     PRE + """
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
from Patro.Pattern.Calculator import Expression
def sketch(x):
    s = Pattern(ValentinaMeasurements(), 'cm').add_scope('p').sketch
    s.SinglePoint('A', 0, 0, V(0, 0))
    s.SinglePoint('B', x, 0, V(0, 0))
    s.eval()
    return s
s, t = sketch(3), sketch(5)
e, f = [Expression('Line_A_B * 2', k.calculator) for k in (s, t)]
near(float(e.value), 6)
near(float(f.value), 10)
assert set(f.dependencies) == {t.get_operation('A'), t.get_operation('B')}
""")

seed('qt-scene-box', 'C37', 'the bounding box of the scene changed after the scene is shown',
     'the box of the scene is kept when the scene is set',
     [('Patro/GraphicEngine/Painter/QtPainter.py', "            raise ValueError\n        self._scene = value", "            raise ValueError\n        self._scene = value\n        self._scene_box = value.bounding_box"),
      ('Patro/GraphicEngine/Painter/QtPainter.py', "            return self._scene.bounding_box\n", "            return self._scene_box\n")],
     QT + """
class G:
    def width(self): return 100
    def height(self): return 100
v = Q.ViewportArea(); v.viewport_size = G()
s = GraphicScene(); s.bounding_box = Interval2D((0, 1000), (0, 1000)); v.scene = s
s.bounding_box = Interval2D((0, 10), (0, 10))
v.fit_scene()
near(v.area.x.length, 10.2)
""")
