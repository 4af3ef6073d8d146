"""Models of the drawing libraries of the painters: they record what is drawn, with symbolic coordinates.
The interface is the one of the real library, which is used for replays."""
import types

NS = types.SimpleNamespace
SAVED = {}              # path -> drawing


def f(x):
    """a number, as the real library requires"""
    return x + 0.0


# -- ezdxf ------------------------------------------------------------------------------------------

class _Dxf:

    def __init__(self, attribs, **k):
        attribs = dict(attribs or {})
        for n, v in attribs.items():
            if v is None or n not in ('linetype', 'color', 'true_color', 'lineweight', 'layer', 'height', 'style', 'rotation'):
                raise TypeError(f'DXF attribute {n}: {v}')
        self.linetype, self.color = 'BYLAYER', 256
        self.__dict__.update(attribs)
        self.__dict__.update(k)

    def hasattr(self, n):
        return n in self.__dict__


class _Entity:

    def __init__(self, kind, dxf, **k):
        self.kind, self.dxf = kind, dxf
        self.__dict__.update(k)

    def dxftype(self):
        return self.kind


class _Text(_Entity):

    def set_placement(self, p1, p2=None, align=None):
        self.placement = align, _v3(p1), p2
        return self

    def get_placement(self):
        return self.placement


def _v3(p):
    p = [f(x) for x in p]
    if len(p) not in (2, 3):
        raise TypeError('point')
    return tuple(p) if len(p) == 3 else (p[0], p[1], 0.0)


class _Space(list):

    def add_line(self, start, end, dxfattribs=None):
        e = _Entity('LINE', _Dxf(dxfattribs, start=_v3(start), end=_v3(end)))
        self.append(e)
        return e

    def add_open_spline(self, control_points, degree=3, knots=None, *, dxfattribs=None):
        e = _Entity('SPLINE', _Dxf(dxfattribs, degree=degree), control_points=[_v3(p) for p in control_points], fit_points=[], weights=[])
        if len(e.control_points) <= degree:
            raise ValueError('control points')
        if knots is not None:
            raise NotImplementedError
        self.append(e)
        return e

    def add_text(self, text, *, height=None, rotation=None, dxfattribs=None):
        e = _Text('TEXT', _Dxf(dxfattribs, text=text), placement=(None, (0, 0, 0), None))
        self.append(e)
        return e


class _Drawing:

    def __init__(self, version, setup):
        import ezdxf
        self.real = ezdxf.new(version, setup=setup)     # linetypes, version
        self.space = _Space()
        self.dxfversion = self.real.dxfversion

    @property
    def linetypes(self):
        return self.real.linetypes

    def modelspace(self):
        return self.space

    def saveas(self, path):
        SAVED[str(path)] = self


class _Ezdxf(types.ModuleType):

    def __getattr__(self, name):
        import ezdxf
        return getattr(ezdxf, name)

    @staticmethod
    def new(dxfversion='R2013', setup=False, units=6):
        return _Drawing(dxfversion, setup)


# -- reportlab --------------------------------------------------------------------------------------

class RecordCanvas:
    """records the calls; the origin is tracked"""

    def __init__(self, path, pagesize=None, **k):
        self.path, self.pagesize = path, pagesize
        self.entries, self.pages, self.origin, self.stack = [], 0, (0, 0), []
        SAVED[str(path)] = self

    def translate(self, dx, dy):
        self.origin = self.origin[0] + f(dx), self.origin[1] + f(dy)

    def _add(self, kind, *xy, **k):
        if len(xy) % 2:
            raise TypeError(kind)
        points = [(self.origin[0] + f(x), self.origin[1] + f(y)) for x, y in zip(xy[::2], xy[1::2])]
        self.entries.append((kind, points, k))

    def line(self, x1, y1, x2, y2):
        self._add('segment', x1, y1, x2, y2)

    def bezier(self, x1, y1, x2, y2, x3, y3, x4, y4):
        self._add('cubic', x1, y1, x2, y2, x3, y3, x4, y4)

    def drawString(self, x, y, text, *a, **k):
        self._add('text', x, y, text=text)

    def circle(self, x_cen, y_cen, r, stroke=1, fill=0):
        self._add('circle', x_cen, y_cen)

    def saveState(self):
        self.stack.append(self.origin)

    def restoreState(self):
        self.origin = self.stack.pop()

    def setFont(self, *a, **k):
        pass

    def setFillColor(self, *a):
        pass

    setStrokeColor = setLineWidth = setDash = setFillColor

    def showPage(self):
        self.pages += 1
        self.entries.append(('page', [], {}))
        self.origin = 0, 0

    def save(self):
        self.saved = True


# -- matplotlib -------------------------------------------------------------------------------------

class MplPath:
    STOP, MOVETO, LINETO, CURVE3, CURVE4, CLOSEPOLY = 0, 1, 2, 3, 4, 79

    def __init__(self, vertices, codes=None):
        self.vertices, self.codes = [tuple(map(f, v)) for v in vertices], codes
        if codes is not None and len(codes) != len(vertices):
            raise ValueError('codes')


class MplPatch:

    def __init__(self, path, edgecolor=None, facecolor=None, color=None, linewidth=None, linestyle=None, fill=True, **k):
        from matplotlib.colors import to_rgba
        if linestyle not in (None, 'solid', 'dashed', 'dashdot', 'dotted', '-', '--', '-.', ':', 'None', ' ', '', 'none'):
            raise ValueError(linestyle)
        self.path, self.edge, self.face = path, to_rgba(color or edgecolor or 'black'), to_rgba(color or facecolor or 'C0')
        self.width, self.style = linewidth, linestyle or 'solid'

    def get_path(self):
        return self.path

    def get_edgecolor(self):
        return self.edge

    def get_linewidth(self):
        return self.width

    def get_linestyle(self):
        return self.style


class MplCircle(MplPatch):

    def __init__(self, xy, radius=5, **k):
        super().__init__(None, **k)
        self.center, self.radius = tuple(map(f, xy)), f(radius)


class _Axes:

    def __init__(self):
        self.patches, self.texts = [], []

    def set_xlim(self, left, right):
        self.xlim = left, right

    def set_ylim(self, bottom, top):
        self.ylim = bottom, top

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def set_aspect(self, aspect):
        self.aspect = {'equal': 1.0}.get(aspect, aspect)

    def get_aspect(self):
        return self.aspect

    def add_patch(self, p):
        self.patches.append(p)

    def add_artist(self, p):
        if isinstance(p, MplPatch):
            self.patches.append(p)

    def text(self, x, y, s, **k):
        self.texts.append(NS(get_position=lambda: (f(x), f(y)), get_text=lambda: s))


class _Figure:

    def __init__(self, *a, **k):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(_Axes())
        return self.axes[-1]


class _Pyplot(types.ModuleType):
    current = None
    Circle = MplCircle

    def figure(self, *a, **k):
        _Pyplot.current = _Figure()
        return self.current

    def gcf(self):
        return self.current

    def show(self):
        pass

    def close(self, *a):
        pass


def install(stubs):
    stubs['ezdxf'] = stubs['ezdxf.enums'] = EZDXF
    CANVAS.Canvas = RecordCanvas
    stubs['reportlab.pdfgen'] = NS(canvas=CANVAS)
    stubs['reportlab.pdfgen.canvas'] = CANVAS
    stubs['matplotlib'] = stubs['matplotlib.pyplot'] = NS(pyplot=PYPLOT, patches=PATCHES, path=PATH)
    stubs['matplotlib.path'] = PATH
    stubs['matplotlib.patches'] = NS(patches=PATCHES, PathPatch=MplPatch, Circle=MplCircle)


EZDXF = _Ezdxf('ezdxf')
CANVAS = types.ModuleType('reportlab.pdfgen.canvas')
PYPLOT = _Pyplot('matplotlib.pyplot')
PATH = types.ModuleType('matplotlib.path')
PATH.Path = MplPath
PATCHES = types.ModuleType('matplotlib.patches')
PATCHES.PathPatch, PATCHES.Circle = MplPatch, MplCircle
