"""Stand-in of the part of sympy the code under test relies on: univariate polynomials and their real roots.

real_roots(p, x) returns an arbitrary number (up to the degree) of symbolic values satisfying p(r) = 0.  Completeness of the
list is assumed at the values registered with `witness`: if p(w) = 0 then w is in the list."""
import types

from . import sym as S
from .sym import SymReal, SymBool


class PolynomialError(ValueError):
    pass


class PolyX:
    """polynomial in x with symbolic coefficients, {power: coefficient}"""

    def __init__(self, c):
        self.c = c

    @staticmethod
    def _co(o):
        if isinstance(o, PolyX):
            return o
        if isinstance(o, Expr):
            return PolyX({0: o.v})
        try:
            return PolyX({0: S.sym(o)})
        except Exception:
            return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = c[k] + v if k in c else v
        return PolyX(c)

    __radd__ = __add__

    def __neg__(self):
        return PolyX({k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        c = {}
        for k, v in self.c.items():
            for l, w in o.c.items():
                c[k + l] = c[k + l] + v * w if k + l in c else v * w
        return PolyX(c)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return PolyX({k: v / o for k, v in self.c.items()})

    def __pow__(self, n):
        r = PolyX({0: S.sym(1)})
        for _ in range(int(n)):
            r = r * self
        return r

    def at(self, t):
        r = S.sym(0)
        for k, v in self.c.items():
            r = r + v * t ** k
        return r

    def has(self, *x):
        return any(bool(v != 0) for k, v in self.c.items() if k > 0)

    @property
    def free_symbols(self):
        return {'x'} if self.has() else set()

    @property
    def is_number(self):
        return not self.has()

    is_constant = is_number


class Expr:
    """a sympy number"""

    def __init__(self, v):
        self.v = v

    def n(self, *a):
        return self.v

    evalf = n

    def __float__(self):
        return self.v

    @property
    def is_real(self):
        return True


LOG = []          # [(PolyX, [roots])] of the current path
WITNESS = []
MAX_ROOTS = [None]
CONSTRAIN = [True]


def reset(*witness, max_roots=None, constrain=True):
    """constrain=False: the other values are arbitrary reals, a coarser and simpler over-approximation"""
    CONSTRAIN[0] = constrain
    LOG.clear()
    WITNESS[:] = list(witness)
    MAX_ROOTS[0] = max_roots


def Symbol(name, **k):
    return PolyX({1: S.sym(1)})


def symbols(names, **k):
    return Symbol(names)


def real_roots(p, *x):
    p = PolyX._co(p)
    deg = max(p.c)
    while deg > 0 and bool(p.c.get(deg, S.sym(0)) == 0):
        deg -= 1
    if deg == 0:
        raise PolynomialError('Cannot compute real roots, not a polynomial')
    p = PolyX({k: v for k, v in p.c.items() if k <= deg})
    for q, old in LOG:          # deterministic
        if set(q.c) == set(p.c) and all(S.sym(q.c[k] - p.c[k]).n.is_zero() for k in p.c):
            return [Expr(r) for r in old]
    roots = []
    for w in WITNESS:
        if bool(p.at(w) == 0):
            roots.append(w)
    cap = deg if MAX_ROOTS[0] is None else min(deg, MAX_ROOTS[0])
    while len(roots) < cap:
        more = SymBool(S.fresh_real('more_roots').z() > 0)
        if not (deg % 2 and not roots) and not bool(more):
            break
        r = S.fresh_real('root')
        if CONSTRAIN[0]:
            S.run().assume(S.zb(p.at(r) == 0))
        roots.append(r)
    LOG.append((p, roots))
    return [Expr(r) for r in roots]


def sympify(x, *a, **k):
    return x


def module():
    m = types.ModuleType('sympy')
    m.Symbol, m.symbols, m.real_roots, m.sympify, m.S = Symbol, symbols, real_roots, sympify, sympify
    m.PolynomialError = PolynomialError
    return m


MODULE = module()
