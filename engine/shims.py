"""Replacements for math / numpy / a few builtins, seen only by the modules of the code under test
while it is executed symbolically.  On concrete arguments they defer to the real functions (except
that irrational results are kept exact)."""
import builtins as _b
import math as _math
import types
from fractions import Fraction

import numpy as _np

from . import sym as S
from .sym import SymBool, SymReal, Unsupported
from .poly import Poly


def is_sym(x):
    return isinstance(x, (SymReal, SymBool))


# -- builtins --------------------------------------------------------------------------------------

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is cls

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x.with_np(False)
        if isinstance(x, SymBool):
            return float(x._num())
        if isinstance(x, str):
            v = S.parse_token(x)
            if v is not None:
                return v
            return float(x)
        if isinstance(x, (bytes, bytearray)):
            return cls(x.decode())
        if isinstance(x, _np.ndarray) and x.dtype == object:
            if x.size == 1:
                return cls(x.item())
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        if type(x).__module__.startswith(('Patro', 'engine.sympy')) and hasattr(type(x), '__float__'):
            return type(x).__float__(x)
        return float(x)

    def __getattr__(cls, name):
        return getattr(float, name)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymReal):
            return x.d is None and not x.is_const and all(S.RUN.vars[v].is_int for v in x.n.variables()) and \
                all(Fraction(c).denominator == 1 for c in x.n.t.values())
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is cls

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SymReal):
            r = S.trunc_(x)
            return r
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, str) and (a == (16,) or k == {'base': 16}):
            v = S.parse_hex(x)
            if v is not None:
                return v
        elif isinstance(x, str):
            v = S.parse_token(x)
            if v is not None:
                if cls.__instancecheck__(v):
                    return v
                raise ValueError(f"invalid literal for int() with base 10: '{x}'")
        return int(x, *a, **k)

    def __getattr__(cls, name):
        return getattr(int, name)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, bool) or c is cls

    def __call__(cls, x=False):
        return bool(x)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class BoolShim(metaclass=_BoolMeta):
    pass


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start


class PrintSink:
    def __call__(self, *a, **k):
        return None


# -- math ------------------------------------------------------------------------------------------

def _conc(x):
    return not isinstance(x, (SymReal, SymBool))


def _out(r):
    """collapse rational constants to python floats"""
    if isinstance(r, SymReal) and not isinstance(r, S.SymRound) and r.is_const:
        return float(r.value) if float(r.value) == r.value or Fraction(repr(float(r.value))) == r.value \
            else r
    return r


def _special(x):
    return isinstance(x, float) and (x != x or x in (float('inf'), float('-inf')))


def _wrap1(fn, real):
    def f(x):
        if _special(x):
            return real(x)
        if isinstance(x, _np.ndarray):
            x = x.item()
        return _out(fn(x).with_np(False))
    f.__name__ = real.__name__
    return f


def _np_false(r):
    return r.with_np(False) if isinstance(r, SymReal) else r


m = types.ModuleType('math')
m.pi = None          # set by init()
m.tau = None
m.e = _math.e
m.inf = _math.inf
m.nan = _math.nan
m.sqrt = _wrap1(lambda x: S.sqrt_(x), _math.sqrt)
m.cos = _wrap1(lambda x: S.trig(x)[0], _math.cos)
m.sin = _wrap1(lambda x: S.trig(x)[1], _math.sin)


def _tan(x):
    c, s = S.trig(x)
    return s / c


m.tan = _wrap1(_tan, _math.tan)
m.acos = _wrap1(S.acos_, _math.acos)
m.asin = _wrap1(S.asin_, _math.asin)
m.atan = _wrap1(S.atan_, _math.atan)
m.radians = _wrap1(S.radians_, _math.radians)
m.degrees = _wrap1(S.degrees_, _math.degrees)


def _atan2(y, x):
    return _out(_np_false(S.atan2_(y, x)))


m.atan2 = _atan2


def _hypot(*a):
    t = 0
    for x in a:
        t = t + S.sym(x) * S.sym(x)
    return _out(_np_false(S.sqrt_(t)))


m.hypot = _hypot


def _dist(p, q):
    return _hypot(*[a - b for a, b in zip(p, q)])


m.dist = _dist


def _copysign(a, b):
    if _conc(a) and _conc(b):
        return _math.copysign(a, b)
    return _out(_np_false(S.copysign_(a, b)))


m.copysign = _copysign


def _fabs(x):
    return _math.fabs(x) if _conc(x) else _np_false(abs(x))


m.fabs = _fabs


def _floor(x):
    return _math.floor(x) if _conc(x) else S.floor_(x)


def _ceil(x):
    return _math.ceil(x) if _conc(x) else -S.floor_(-x)


m.floor = _floor
m.ceil = _ceil
m.trunc = lambda x: _math.trunc(x) if _conc(x) else S.trunc_(x)


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if _conc(a) and _conc(b):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if _special(a) or _special(b):
        return a == b
    d = abs(a - b)
    if d == 0:
        return True
    mx = abs(a)
    mb = abs(b)
    if mb > mx:
        mx = mb
    return bool(S.b_or(d <= rel_tol * mx, d <= abs_tol))


m.isclose = _isclose
m.isnan = lambda x: _math.isnan(x) if _conc(x) else False
m.isinf = lambda x: _math.isinf(x) if _conc(x) else False
m.isfinite = lambda x: _math.isfinite(x) if _conc(x) else True


def _pow(a, b):
    if _conc(a) and _conc(b):
        return _math.pow(a, b)
    return _np_false(S.sym(a) ** b)


m.pow = _pow
m.cbrt = lambda x: S.root_(S.sym(x), 3) if bool(S.sym(x) >= 0) else -S.root_(-S.sym(x), 3)


def _fsum(it):
    return sum_(it)


m.fsum = _fsum


def _fmod(a, b):
    if _conc(a) and _conc(b):
        return _math.fmod(a, b)
    k = S.concretise(S.trunc_(S.sym(a) / b))
    return _np_false(a - b * k)


m.fmod = _fmod


def _modf(x):
    if _conc(x):
        return _math.modf(x)
    i = S.trunc_(x)
    return x - i, i


m.modf = _modf


def _log(name):
    real = getattr(_math, name)

    def f(x, *a):
        if _conc(x) and all(_conc(t) for t in a):
            return real(x, *a)
        if len(a) == 0 and isinstance(x, SymReal) and x.is_const and name != 'log':
            return real(float(x.value))
        if name == 'log':
            return S.log_(x) if not a else S.log_(x) / S.log_(a[0])
        raise Unsupported(f'math.{name} of a symbolic value')
    return f


for _n in ('log', 'log10', 'log2', 'exp', 'expm1', 'log1p', 'sinh', 'cosh', 'tanh', 'gamma'):
    setattr(m, _n, _log(_n))
for _n in ('gcd', 'lcm', 'factorial', 'comb', 'perm', 'isqrt', 'prod', 'frexp', 'ldexp', 'erf', 'ulp', 'nextafter',
           'asinh', 'acosh', 'atanh', 'remainder', 'sumprod'):
    if hasattr(_math, _n) and not hasattr(m, _n):
        setattr(m, _n, getattr(_math, _n))


def _prod(it, start=1):
    for x in it:
        start = start * x
    return start


m.prod = _prod
MATH = m


def _math_init():
    m.pi = S.pi()
    m.tau = S.pi() * 2


# -- numpy -----------------------------------------------------------------------------------------

_FLOATS = (float, _np.float64, _np.float32, _np.float16, _np.floating)


def _is_float_dtype(dt):
    if dt is None:
        return False
    if dt is FloatShim or dt in _FLOATS:
        return True
    if isinstance(dt, str):
        return dt.startswith(('float', 'f', 'd', 'double'))
    try:
        return _np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def _el(x):
    """normalise an element of an object array"""
    if isinstance(x, S.SymRound):
        return x.exact().with_np(True)
    if isinstance(x, SymReal):
        return x.with_np(True)
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, _np.number)):
        if isinstance(x, (float, _np.floating)) and _special(float(x)):
            return _np.float64(x)
        return S.sym(x).with_np(True)
    return x


def _objectify(a):
    out = _np.empty(a.shape, dtype=object)
    flat_in, flat_out = a.reshape(-1), out.reshape(-1)
    for i in range(flat_in.size):
        flat_out[i] = _el(flat_in[i])
    return flat_out.reshape(a.shape)


def _has_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    if hasattr(x, '__iter__') and hasattr(x, '__len__') and not isinstance(x, (str, bytes, dict)):
        try:
            return any(_has_sym(i) for i in x)
        except TypeError:
            return False
    return False


def _array(obj, dtype=None, copy=True, **kw):
    if dtype is IntShim:
        dtype = int
    if dtype is BoolShim:
        dtype = bool
    fl = _is_float_dtype(dtype)
    if isinstance(obj, SymReal):
        r = _np.empty((), dtype=object)
        r[()] = obj.with_np(True)
        return r
    if isinstance(obj, _np.ndarray):
        a = obj
    elif _has_sym(obj):
        a = _np.array(obj, dtype=object)
    else:
        a = _np.array(obj)
    if dtype is not None and not fl and dtype is not object:
        if a.dtype == object:
            if _np.dtype(dtype).kind in 'iu':
                # truncation towards zero, as numpy does
                out = _np.empty(a.shape, dtype=object)
                fi, fo = a.reshape(-1), out.reshape(-1)
                for i in range(fi.size):
                    fo[i] = S.trunc_(fi[i]) if isinstance(fi[i], SymReal) else int(fi[i])
                return fo.reshape(a.shape)
            raise Unsupported(f'numpy dtype {dtype} with symbolic values')
        return _np.array(a, dtype=dtype)
    if a.dtype == object or a.dtype.kind == 'f' or fl:
        return _objectify(a)
    return _np.array(a) if copy else a


class NumpyProxy(types.ModuleType):

    def __init__(self):
        super().__init__('numpy')
        self.float = FloatShim
        self.float_ = FloatShim
        self.double = FloatShim
        self.float64 = FloatShim
        self.int = IntShim
        self.int_ = IntShim
        self.int64 = IntShim
        self.bool = BoolShim

    def __getattr__(self, name):
        return getattr(_np, name)

    @property
    def pi(self):
        return S.pi()

    # constructors
    array = staticmethod(_array)
    asarray = staticmethod(lambda o, dtype=None, **k: o if isinstance(o, _np.ndarray) and (dtype is None or o.dtype == object)
                           else _array(o, dtype))
    asanyarray = asarray
    asfarray = staticmethod(lambda o, dtype=None: _array(o, FloatShim))

    @staticmethod
    def identity(n, dtype=None):
        return _array(_np.identity(n), dtype if dtype is not None else FloatShim)

    @staticmethod
    def eye(n, *a, dtype=None, **k):
        return _array(_np.eye(n, *a, **k), dtype if dtype is not None else FloatShim)

    @staticmethod
    def zeros(shape, dtype=None, **k):
        return _array(_np.zeros(shape), dtype if dtype is not None else FloatShim)

    @staticmethod
    def ones(shape, dtype=None, **k):
        return _array(_np.ones(shape), dtype if dtype is not None else FloatShim)

    @staticmethod
    def empty(shape, dtype=None, **k):
        return _array(_np.zeros(shape), dtype if dtype is not None else FloatShim)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        a = _np.empty(shape, dtype=object)
        a[...] = v
        return _array(a, dtype if dtype is not None else FloatShim)

    @staticmethod
    def zeros_like(a, **k):
        return NumpyProxy.zeros(_np.shape(a))

    @staticmethod
    def ones_like(a, **k):
        return NumpyProxy.ones(_np.shape(a))

    @staticmethod
    def diag(v, k=0):
        v = _array(v)
        if v.ndim == 1:
            r = NumpyProxy.zeros((len(v), len(v)))
            for i in range(len(v)):
                r[i, i] = v[i]
            return r
        return _np.diag(v, k)

    @staticmethod
    def linspace(a, b, num=50, endpoint=True, **k):
        n = num - 1 if endpoint else num
        return _array([a + (b - a) * Fraction(i, n) for i in range(num)])

    @staticmethod
    def arange(*a, **k):
        if any(_has_sym(x) for x in a):
            raise Unsupported('np.arange of symbolic bounds')
        if 'dtype' in k:
            k['dtype'] = {FloatShim: float, IntShim: int}.get(k['dtype'], k['dtype'])
        r = _np.arange(*a, **k)
        return _objectify(r) if r.dtype.kind == 'f' else r

    # algebra
    @staticmethod
    def _a(x):
        if isinstance(x, _np.ndarray):
            return _objectify(x) if x.dtype.kind == 'f' else x
        return _array(x)

    @staticmethod
    def dot(a, b, out=None):
        return _np.dot(NumpyProxy._a(a), NumpyProxy._a(b))

    @staticmethod
    def vdot(a, b):
        return _np.dot(NumpyProxy._a(a).ravel(), NumpyProxy._a(b).ravel())

    @staticmethod
    def inner(a, b):
        return _np.inner(NumpyProxy._a(a), NumpyProxy._a(b))

    @staticmethod
    def matmul(a, b):
        a, b = NumpyProxy._a(a), NumpyProxy._a(b)
        return _np.dot(a, b) if a.ndim <= 2 and b.ndim <= 2 else _np.matmul(a, b)

    @staticmethod
    def cross(a, b, **k):
        a, b = NumpyProxy._a(a), NumpyProxy._a(b)
        if a.shape == (2,) and b.shape == (2,):
            return a[0] * b[1] - a[1] * b[0]
        return _np.cross(a, b, **k)

    @staticmethod
    def hypot(a, b):
        return S.sqrt_(S.sym(a) * a + S.sym(b) * b)

    class linalg:
        @staticmethod
        def norm(a, *k, **kw):
            if k or kw:
                raise Unsupported('np.linalg.norm options')
            t = 0
            for x in NumpyProxy._a(a).reshape(-1):
                t = t + x * x
            return S.sqrt_(t, True)

        @staticmethod
        def det(a):
            a = NumpyProxy._a(a)
            if a.shape == (2, 2):
                return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
            if a.shape == (3, 3):
                return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
                        - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                        + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
            raise Unsupported('np.linalg.det')

        @staticmethod
        def inv(a):
            a = NumpyProxy._a(a)
            n = a.shape[0]
            d = NumpyProxy.linalg.det(a)
            if d == 0:
                raise _np.linalg.LinAlgError('Singular matrix')
            r = NumpyProxy.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    mnr = _np.delete(_np.delete(a, j, 0), i, 1)
                    if n == 2:
                        cof = mnr[0, 0]
                    else:
                        cof = mnr[0, 0] * mnr[1, 1] - mnr[0, 1] * mnr[1, 0]
                    r[i, j] = cof * (-1) ** (i + j) / d
            return r

        LinAlgError = _np.linalg.LinAlgError

    # comparisons
    @staticmethod
    def array_equal(a, b, **k):
        a, b = NumpyProxy._a(a), NumpyProxy._a(b)
        if a.shape != b.shape:
            return False
        r = True
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            r = S.b_and(r, x == y)
            if r is False:
                return False
        return bool(r)

    @staticmethod
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        fa, fb = _np.broadcast_arrays(NumpyProxy._a(a), NumpyProxy._a(b))
        out = [NumpyProxy._close(x, y, rtol, atol) for x, y in zip(fa.reshape(-1), fb.reshape(-1))]
        if fa.shape == ():
            return out[0]
        return _np.array([bool(o) for o in out]).reshape(fa.shape)

    @staticmethod
    def _close(x, y, rtol, atol):
        if _special(x) or _special(y):
            return bool(x == y)
        return abs(x - y) <= atol + rtol * abs(y)

    @staticmethod
    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        a = list(a) if not isinstance(a, _np.ndarray) and hasattr(a, '__iter__') else a
        b = list(b) if not isinstance(b, _np.ndarray) and hasattr(b, '__iter__') else b
        fa, fb = _np.broadcast_arrays(NumpyProxy._a(a), NumpyProxy._a(b))
        for x, y in zip(fa.reshape(-1), fb.reshape(-1)):
            if not NumpyProxy._close(x, y, rtol, atol):
                return False
        return True

    @staticmethod
    def sign(a):
        def sg(x):
            return 1. if x > 0 else (-1. if x < 0 else 0.)
        return sg(a) if not isinstance(a, _np.ndarray) else _array([sg(x) for x in a.reshape(-1)]).reshape(a.shape)

    @staticmethod
    def fabs(a):
        return abs(NumpyProxy._a(a)) if not isinstance(a, SymReal) else abs(a)

    @staticmethod
    def clip(a, lo, hi, **k):
        def cl(x):
            return lo if x < lo else (hi if x > hi else x)
        return cl(a) if not isinstance(a, _np.ndarray) else _array([cl(x) for x in a.reshape(-1)]).reshape(a.shape)

    @staticmethod
    def _minmax(a, axis, better):
        a = NumpyProxy._a(a)
        if axis is None:
            best = None
            for x in a.reshape(-1):
                if best is None or bool(better(x, best)):
                    best = x
            return best
        a = _np.moveaxis(a, axis, 0)
        out = _np.empty(a.shape[1:], dtype=object)
        fo = out.reshape(-1)
        fl = a.reshape(a.shape[0], -1)
        for j in range(fl.shape[1]):
            fo[j] = NumpyProxy._minmax(fl[:, j], None, better)
        return fo.reshape(out.shape)

    @staticmethod
    def min(a, axis=None, **k):
        return NumpyProxy._minmax(a, axis, lambda x, y: x < y)

    @staticmethod
    def max(a, axis=None, **k):
        return NumpyProxy._minmax(a, axis, lambda x, y: x > y)

    amin = min
    amax = max

    @staticmethod
    def arctan2(y, x):
        return S.atan2_(y, x)

    @staticmethod
    def _unary(name):
        def f(a, *r, **k):
            if isinstance(a, (SymReal, int, float)):
                return getattr(S.sym(a).with_np(True), name)()
            return getattr(_np, name)(NumpyProxy._a(a))
        return f


for _n in ('sqrt', 'cos', 'sin', 'tan', 'radians', 'degrees', 'deg2rad', 'rad2deg', 'arccos', 'arcsin', 'arctan',
           'rint', 'floor', 'ceil', 'square'):
    setattr(NumpyProxy, _n, staticmethod(NumpyProxy._unary(_n)))

NUMPY = NumpyProxy()


class CmathStub(types.ModuleType):
    def __getattr__(self, name):
        def f(*a):
            raise Unsupported('cmath')
        return f
