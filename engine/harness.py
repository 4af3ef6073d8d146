"""Harness API shared by symbolic execution and concrete replay."""
import math
from fractions import Fraction

HARNESSES = {}       # property -> [Harness]


class Harness:
    def __init__(self, prop, name, fn, params, opts):
        self.prop, self.name, self.fn, self.params, self.opts = prop, name, fn, params, opts


def harness(prop, params=None, tier='quick', **opts):
    """Register fn(ctx, **param) for every element of params."""
    def deco(fn):
        plist = params if params is not None else [{}]
        for p in plist:
            name = fn.__name__
            if p:
                name += '[' + ','.join(str(v) for v in p.values()) + ']'
            o = dict(opts)
            o['tier'] = p.get('_tier', tier) if isinstance(p, dict) else tier
            HARNESSES.setdefault(prop, []).append(Harness(prop, name, fn, {k: v for k, v in p.items() if k != '_tier'}, o))
        return fn
    return deco


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(f'{label} {detail}')
        self.label = label
        self.detail = detail


class AssumeFailed(Exception):
    pass


class BaseCtx:

    symbolic = False

    # vectors / structures -------------------------------------------------------------------
    def vec(self, name, **k):
        from Patro.GeometryEngine.Vector import Vector2D
        return Vector2D(self.real(name + '_x', **k), self.real(name + '_y', **k))

    def vecs(self, name, n, **k):
        return [self.vec(f'{name}{i}', **k) for i in range(n)]

    def flat(self, x):
        """list of scalars of a structure"""
        if x is None or isinstance(x, (str, bool)):
            return [x]
        if hasattr(x, '_v') and hasattr(x, 'x') and hasattr(x, 'y'):
            return [x.x, x.y]
        if hasattr(x, 'reshape'):
            return list(x.reshape(-1))
        if isinstance(x, (list, tuple)):
            r = []
            for i in x:
                r.extend(self.flat(i))
            return r
        return [x]

    def eq(self, a, b, label):
        fa, fb = self.flat(a), self.flat(b)
        if len(fa) != len(fb):
            self.fail(label, f'length {len(fa)} != {len(fb)}')
        for i, (p, q) in enumerate(zip(fa, fb)):
            self._eq1(p, q, label if len(fa) == 1 else f'{label}[{i}]')

    def is_(self, a, b, label):
        """plain python equality of non numeric values"""
        ok = a == b
        self.check(ok, label)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        except Exception as e:
            self.fail(label, f'raised {type(e).__name__} instead')
        self.fail(label, 'did not raise')

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def check_iff(self, a, b, label):
        self.check(self.or_(self.and_(a, b), self.and_(self.not_(a), self.not_(b))), label)

    def num(self, text):
        """the number written in a text"""
        if self.symbolic:
            from .shims import FloatShim
            return FloatShim(text)
        return float(text)

    def hexdigit(self, name):
        k = self.int(name, 0, 15)
        if self.symbolic:
            from .sym import hex_digit
            return k, hex_digit(k)
        return k, '0123456789abcdef'[int(k)]

    def cross(self, a, b):
        return a[0] * b[1] - a[1] * b[0]

    def xy(self, v):
        return (v.x, v.y)

    def deg_cs(self, deg):
        """(cos, sin) of an angle in degrees"""
        raise NotImplementedError


class ConcreteCtx(BaseCtx):

    def __init__(self, inputs, choices, bools, tol=1e-6):
        self.inputs, self.choices, self.bools = inputs, choices, bools
        self.tol = tol
        self.checks = 0

    def real(self, name, lo=None, hi=None):
        if name not in self.inputs:
            raise AssumeFailed(f'the path does not reach {name}')
        v = float(self.inputs[name])
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed(name)
        return v

    def angle(self, name, lo=-360, hi=360):
        return self.real(name)

    def int(self, name, lo, hi):
        return int(round(float(self.inputs[name])))

    def bool(self, name):
        return bool(self.bools[name])

    def choose(self, name, options):
        if name not in self.choices:
            raise AssumeFailed(f'the path does not reach {name}')
        return list(options)[self.choices[name]]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def fail(self, label, detail=''):
        raise CheckFailed(label, detail)

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            raise CheckFailed(label)

    def _close(self, a, b):
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return a == b
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol * (1 + max(abs(a), abs(b)))

    def _eq1(self, a, b, label):
        self.checks += 1
        if not self._close(a, b):
            raise CheckFailed(label, f'{a!r} != {b!r}')

    def le(self, a, b, label):
        self.checks += 1
        if not self.le_(a, b):
            raise CheckFailed(label, f'not {a!r} <= {b!r}')

    lt = le

    def le_(self, a, b):
        return float(a) <= float(b) + self.tol * (1 + max(abs(float(a)), abs(float(b))))

    def lt_(self, a, b):
        return self.le_(a, b)

    def eq_(self, a, b):
        fa, fb = self.flat(a), self.flat(b)
        return len(fa) == len(fb) and all(self._close(p, q) for p, q in zip(fa, fb))

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def log(self, x):
        return math.log(x)

    def deg_cs(self, deg):
        if deg % 90 == 0:
            return ((1., 0.), (0., 1.), (-1., 0.), (0., -1.))[int(deg // 90) % 4]
        r = math.radians(deg)
        return math.cos(r), math.sin(r)

    def rad_cs(self, r):
        return math.cos(r), math.sin(r)

    pi = math.pi

    def frac(self, a, b=1):
        return a / b

    def tag(self, *a, **k):
        pass


def run_concrete(h, inputs, choices, bools):
    """-> (verdict, label, detail)"""
    ctx = ConcreteCtx(inputs, choices, bools)
    try:
        h.fn(ctx, **h.params)
    except AssumeFailed:
        return 'assume', '', ''
    except CheckFailed as e:
        return 'fail', e.label, e.detail
    except Exception as e:
        import traceback
        return 'exception', f'exception:{type(e).__name__}', traceback.format_exc(limit=-4)
    return 'pass', '', str(ctx.checks)
