"""Model of the part of Qt used by Patro, with symbolic coordinates: points, rectangles, pens, paths;
painters record what is drawn.  The real Qt is used for replays, except for the recording painter."""
import os
import types

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
try:
    from PyQt5.QtCore import Qt
    from PyQt5.QtGui import QColor
except ImportError:
    Qt = QColor = None

NS = types.SimpleNamespace


def f(x):
    if isinstance(x, (str, bytes)) or x is None:
        raise TypeError(x)
    return x + 0.0


def zero(x):
    return not x.value if getattr(x, 'is_const', False) else isinstance(x, (int, float)) and abs(x) < 1e-12


class QPointF:

    def __init__(self, *a):
        if len(a) == 1 and isinstance(a[0], QPointF):
            a = a[0]._x, a[0]._y
        self._x, self._y = (f(a[0]), f(a[1])) if a else (0.0, 0.0)
        if len(a) > 2:
            raise TypeError('QPointF')

    def x(self):
        return self._x

    def y(self):
        return self._y

    def __iadd__(self, o):
        self._x, self._y = self._x + o._x, self._y + o._y
        return self

    def __isub__(self, o):
        self._x, self._y = self._x - o._x, self._y - o._y
        return self

    def __imul__(self, k):
        k = f(k)
        self._x, self._y = self._x * k, self._y * k
        return self

    def __itruediv__(self, k):
        k = f(k)
        self._x, self._y = self._x / k, self._y / k
        return self

    def __add__(self, o):
        if not isinstance(o, QPointF):
            return NotImplemented
        return QPointF(self._x + o._x, self._y + o._y)

    def __sub__(self, o):
        if not isinstance(o, QPointF):
            return NotImplemented
        return QPointF(self._x - o._x, self._y - o._y)

    def __mul__(self, k):
        return QPointF(self._x * f(k), self._y * f(k))

    __rmul__ = __mul__

    def __truediv__(self, k):
        return QPointF(self._x / f(k), self._y / f(k))

    def __neg__(self):
        return QPointF(-self._x, -self._y)


class QSizeF:

    def __init__(self, w, h):
        self._w, self._h = f(w), f(h)

    def width(self):
        return self._w

    def height(self):
        return self._h


class QSize(QSizeF):

    def __init__(self, w, h):
        for x in (w, h):
            if isinstance(x, float) or not (isinstance(x, int) or getattr(x, 'int_like', False)):
                raise TypeError('QSize')
        self._w, self._h = w, h


class QRectF:

    def __init__(self, *a):
        if len(a) == 2:
            p, q = a
            a = p.x(), p.y(), q.x() - p.x(), q.y() - p.y()
        self.r = [f(x) for x in a] or [0.0] * 4
        if len(self.r) != 4:
            raise TypeError('QRectF')

    def x(self):
        return self.r[0]

    def y(self):
        return self.r[1]

    def width(self):
        return self.r[2]

    def height(self):
        return self.r[3]


class QBrush:

    def __init__(self, color=None):
        self._color = color

    def color(self):
        return self._color


class QPen:

    def __init__(self, a=None, width=1, style=None, cap=None, join=None):
        self._brush, self._style = QBrush(QColor('black')), Qt.SolidLine
        if isinstance(a, QBrush):
            self._brush = a
        elif isinstance(a, QColor):
            self._brush = QBrush(a)
        elif a is not None:
            self._style = Qt.PenStyle(a)
        if style is not None:
            self._style = Qt.PenStyle(style)
        self._width = f(width)
        self._cap = Qt.SquareCap if cap is None else Qt.PenCapStyle(cap)
        self._join = Qt.BevelJoin if join is None else Qt.PenJoinStyle(join)

    def color(self):
        return self._brush.color()

    def style(self):
        return self._style

    def widthF(self):
        return self._width

    def capStyle(self):
        return self._cap

    def joinStyle(self):
        return self._join


class QPainterPath:
    """elements: types of Qt: 0 move, 1 line, 2 curve, 3 curve data"""

    def __init__(self):
        self.e = []

    def _add(self, kind, p):
        self.e.append(NS(type=kind, x=p.x(), y=p.y()))

    def moveTo(self, p):
        self._add(0, p)

    def lineTo(self, p):
        self._add(1, p)

    def cubicTo(self, a, b, c):
        self._add(2, a)
        self._add(3, b)
        self._add(3, c)

    def quadTo(self, a, b):
        p = QPointF(self.e[-1].x, self.e[-1].y)
        self.cubicTo((p + a * 2) / 3, (b + a * 2) / 3, b)

    def closeSubpath(self):
        start = [e for e in self.e if e.type == 0][-1]
        last = self.e[-1]
        if start.x != last.x or start.y != last.y:
            self._add(1, QPointF(start.x, start.y))

    def elementCount(self):
        return len(self.e)

    def elementAt(self, i):
        return self.e[i]


class QFont:

    def __init__(self, family='', size=-1, *a):
        self._family, self._size = family, size

    def family(self):
        return self._family

    def pointSize(self):
        return self._size


class Recorder:
    """a painter which records; also used with the real Qt"""

    def __init__(self):
        self.entries = []
        self.pen = self.brush = self.font = None
        self.device = None
        self.frame, self.stack = (0.0, 0.0, 0.0), []

    def save(self):
        self.stack.append((self.frame, self.pen, self.brush, self.font))

    def restore(self):
        self.frame, self.pen, self.brush, self.font = self.stack.pop()

    def translate(self, *a):
        if len(a) == 1:
            a = a[0].x(), a[0].y()
        x, y, angle = self.frame
        if not (isinstance(angle, float) and angle == 0):
            raise NotImplementedError('translation after a rotation')
        self.frame = x + a[0], y + a[1], angle

    def rotate(self, angle):
        x, y, a = self.frame
        self.frame = x, y, a + angle

    def begin(self, device):
        self.device = device
        device.recorder = self
        return True

    def end(self):
        return True

    def setPen(self, pen):
        self.pen = pen

    def setBrush(self, brush):
        self.brush = brush

    def setFont(self, font):
        self.font = font

    def _add(self, kind, **k):
        x, y, angle = self.frame
        rotated = not (isinstance(angle, float) and angle == 0)
        if rotated and any(not zero(v) for p in k['points'] for v in p):
            raise NotImplementedError('rotated frame')
        k['points'] = [(x + px, y + py) for px, py in k['points']]
        self.entries.append(NS(kind=kind, pen=self.pen, brush=self.brush, angle=angle, **k))

    def drawLine(self, *a):
        if len(a) == 2:
            a = a[0].x(), a[0].y(), a[1].x(), a[1].y()
        self._add('path', types=[0, 1], points=[(a[0], a[1]), (a[2], a[3])])

    def drawPath(self, path):
        e = [path.elementAt(i) for i in range(path.elementCount())]
        self._add('path', types=[int(i.type) for i in e], points=[(i.x, i.y) for i in e])

    def drawPolyline(self, *p):
        self._add('path', types=[0] + [1] * (len(p) - 1), points=[(i.x(), i.y()) for i in p])

    def drawPolygon(self, *p):
        self._add('path', types=[0] + [1] * len(p), points=[(i.x(), i.y()) for i in p + p[:1]])

    def drawEllipse(self, c, rx, ry):
        self._add('ellipse', points=[(c.x(), c.y())], radii=(rx, ry))

    def drawArc(self, r, start, span):
        if type(start) is float or type(span) is float:
            raise TypeError('drawArc')
        self._add('arc', points=[(r.x() + r.width() / 2, r.y() + r.height() / 2)], radii=(abs(r.width()) / 2, abs(r.height()) / 2), start=start, span=span)

    def drawText(self, p, text):
        self._add('text', points=[(p.x(), p.y())], text=text, font=self.font)


class Generator:

    def __init__(self):
        Generator.last = self

    def setFileName(self, x):
        self.path = x

    def setTitle(self, x):
        self.title = x

    def setDescription(self, x):
        self.description = x

    def setResolution(self, x):
        self.dpi = x

    def setSize(self, x):
        self.size = x

    def setViewBox(self, x):
        self.view_box = x


class QObject:

    def __init__(self, parent=None):
        pass


class QQuickPaintedItem(QObject):
    FramebufferObject, Image = 1, 0
    updates = 0

    def setAntialiasing(self, x):
        pass

    setRenderTarget = setAntialiasing

    def geometryChanged(self, new, old):
        pass

    def update(self):
        self.updates += 1


class Signal:

    def __init__(self, *a, **k):
        self.count = 0

    def emit(self, *a):
        self.count += 1


def Slot(*a, **k):
    return lambda fn: fn


def Property(*a, **k):
    return property


def install(stubs):
    core = NS(Property=Property, Signal=Signal, Slot=Slot, QObject=QObject, QRectF=QRectF, QSize=QSize, QSizeF=QSizeF, QPointF=QPointF, Qt=Qt)
    gui = NS(QColor=QColor, QFont=QFont, QFontMetrics=None, QImage=None, QPainter=Recorder, QPainterPath=QPainterPath, QBrush=QBrush, QPen=QPen)
    for root in ('QtShim', 'PyQt5'):
        stubs[root + '.QtCore'] = core
        stubs[root + '.QtGui'] = gui
        stubs[root + '.QtQuick'] = NS(QQuickPaintedItem=QQuickPaintedItem)
        stubs[root + '.QtSvg'] = NS(QSvgGenerator=Generator)
        stubs[root + '.QtQml'] = NS()
