"""Symbolic values and the forking path explorer.

Real Python code is executed unmodified on SymReal values (exact rational functions over symbolic
reals).  Whenever the code needs a truth value that depends on symbolic inputs, the explorer asks
the SMT solver which outcomes are feasible and forks (by re-execution along a recorded decision
prefix).  Assertions are discharged by asking the solver for a violating assignment on the path.
"""
from fractions import Fraction
import math as _math
import numbers
import os
import time

import z3

from . import poly as _poly
from .poly import Poly, PolyOverflow


class Unsupported(BaseException):
    """A construct the symbolic engine cannot encode."""


class PathAbort(BaseException):
    """Terminate this path (infeasible / assumption failed / budget)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.slices = 0
        self.branches = 0


STATS = Stats()
BASE_TIMEOUT = int(os.environ.get('SYM_TIMEOUT_MS', '20000'))

_solvers = {}


def _mk(kind):
    if kind == 'nlsat':
        return z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'qfnra-nlsat').solver()
    if kind == 'qfnra':
        return z3.SolverFor('QF_NRA')
    if kind == 'linear':
        # products are independent unknowns: only the answer 'unsat' is meaningful
        s = z3.SimpleSolver()
        s.set('arith.nl', False)
        return s
    return z3.Solver()


def solve(constraints, has_int=False, timeout=None, want_model=True):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    timeout = timeout or BASE_TIMEOUT
    t0 = time.time()
    STATS.queries += 1
    if has_int:
        plan = [('default', timeout)]
    else:
        plan = [('linear', min(timeout, 700)), ('qfnra', min(timeout, 3000)), ('nlsat', timeout)]
    res, model = 'unknown', None
    for kind, tmo in plan:
        s = _mk(kind)
        s.set('timeout', tmo)
        s.add(*constraints)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            res = 'unsat'
            break
        if r == z3.sat and kind != 'linear':
            try:
                model = s.model()
            except z3.Z3Exception:
                continue
            res = 'sat'
            break
    STATS.time += time.time() - t0
    setattr(STATS, res, getattr(STATS, res) + 1)
    return res, model


_APPROX = [None, None]


def model_eval(m, z):
    """value of the term in the model. The irrational algebraic values of a model are rounded first: the exact evaluation of
    nested algebraic numbers has no time limit. Such a value only tells which side of a branch to look at first."""
    if _APPROX[0] is not m:
        subs = []
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_algebraic_value(v):
                    subs.append(d)
        if subs:
            subs = [(d(), m[d] if not z3.is_algebraic_value(m[d]) else m[d].approx(12)) for d in m.decls() if d.arity() == 0]
        _APPROX[:] = [m, subs]
    if _APPROX[1]:
        return z3.simplify(z3.substitute(z, _APPROX[1]))
    return m.eval(z, model_completion=True)


# --------------------------------------------------------------------------------------------------

def to_fraction(x):
    """Exact-intent rational of a concrete number (1/3. -> 1/3, 0.1 -> 1/10)."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise ValueError('non finite')
    if x == int(x) and abs(x) < 2**62:
        return int(x)
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if abs(f - g) <= abs(f) * Fraction(1, 10**15):
        return g
    return Fraction(repr(x))


class VarInfo:
    __slots__ = ('name', 'kind', 'z', 'nonneg', 'is_int', 'meta')

    def __init__(self, name, kind, z, nonneg=False, is_int=False, meta=None):
        self.name = name
        self.kind = kind
        self.z = z
        self.nonneg = nonneg
        self.is_int = is_int
        self.meta = meta


class Run:
    """State of one symbolic path."""

    def __init__(self, base=None, prefix=(), limits=None):
        self.vars = list(base.vars) if base else []
        self.rules = dict(base.rules) if base else {}
        self.side = list(base.side) if base else []
        self.cache = dict(base.cache) if base else {}
        self.trig = {k: dict(v) for k, v in base.trig.items()} if base else {}
        self.pc = []
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []          # alternative prefixes discovered on this run
        self.model = None
        self.n_int = sum(1 for v in self.vars if v.is_int)
        self.tokens = {}
        self.inputs = {}           # name -> (kind, var/ value, meta)
        self.choices = {}
        self.limits = limits or {}
        self._zc = {}
        self.unknown_branches = 0
        self.is_base = base is None
        self.deadline = self.limits.get('deadline')
        self.is_input_phase = False

    # -- variables ---------------------------------------------------------------------------
    def new_var(self, name, kind, nonneg=False, is_int=False, meta=None):
        i = len(self.vars)
        if is_int:
            z = z3.ToReal(z3.Int(f'i{i}_{name}'))
            self.n_int += 1
        else:
            z = z3.Real(f'r{i}_{name}')
        self.vars.append(VarInfo(name, kind, z, nonneg, is_int, meta))
        if nonneg:
            self.side.append(z >= 0)
        self.model = None
        return i

    def add_side(self, c):
        self.side.append(c)
        self.model = None

    def zpoly(self, p):
        k = p.key()
        r = self._zc.get(k)
        if r is None:
            terms = []
            for m, c in p.t.items():
                f = []
                for v, e in m:
                    z = self.vars[v].z
                    f.extend([z] * e)
                cz = z3.RealVal(str(c))
                if not f:
                    terms.append(cz)
                elif c == 1:
                    terms.append(z3.Product(*f) if len(f) > 1 else f[0])
                else:
                    terms.append(z3.Product(cz, *f))
            r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
            self._zc[k] = r
        return r

    def constraints(self):
        return self.side + self.pc

    # -- solving -----------------------------------------------------------------------------
    def query(self, extra, timeout=None):
        return solve(self.constraints() + list(extra), self.n_int > 0, timeout)

    def _model_true(self, z):
        if self.model is None:
            return None
        try:
            r = model_eval(self.model, z)
        except z3.Z3Exception:
            return None
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None

    def decide(self, z):
        """Truth value of the z3 formula on this path (forks)."""
        if self.is_base:
            # import-time constants: decide by the solver, must be determined
            r, _ = solve(self.side + [z])
            if r == 'unsat':
                return False
            r2, _ = solve(self.side + [z3.Not(z)])
            if r2 == 'unsat':
                return True
            raise Unsupported('undetermined truth value at import time')
        if self.deadline and time.time() > self.deadline:
            raise PathAbort('deadline')
        n = len(self.taken)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.taken.append(d)
            STATS.branches += 1
            if isinstance(d, tuple):         # forced (only one feasible side)
                self.pc.append(z if d[0] else z3.Not(z))
                return d[0]
            self.pc.append(z if d else z3.Not(z))
            return d
        if n > self.limits.get('max_decisions', 4000):
            raise PathAbort('too many decisions')
        # fresh decision
        mt = self._model_true(z)
        nz = z3.Not(z)
        sides = {}
        if mt is not None:
            sides[mt] = ('sat', self.model)
        for val, f in ((True, z), (False, nz)):
            if val not in sides:
                sides[val] = self.query([f], self.limits.get('branch_timeout', 4000))
                if sides[val][0] == 'unsat' and val is True and False not in sides:
                    sides[False] = ('sat', self.model)   # pc itself is assumed feasible
                    break
        tf = sides[True][0] != 'unsat'
        ff = sides[False][0] != 'unsat'
        STATS.branches += 1
        if sides[True][0] == 'unknown' or sides[False][0] == 'unknown':
            self.unknown_branches += 1
        if tf and ff:
            # prefer a side with a known model
            val = True if sides[True][0] == 'sat' else (False if sides[False][0] == 'sat' else True)
            self.pending.append(self.taken + [not val])
            self.taken.append(val)
            self.pc.append(z if val else nz)
            self.model = sides[val][1]
            return val
        if tf or ff:
            val = tf
            self.taken.append((val,))
            # implied: keep it as a lemma
            self.pc.append(z if val else nz)
            if sides[val][1] is not None:
                self.model = sides[val][1]
            return val
        raise PathAbort('infeasible')

    def assume(self, z):
        """Restrict the path; abort when infeasible."""
        mt = self._model_true(z)
        self.pc.append(z)
        if mt is True:
            return
        self.model = None
        if len(self.taken) < len(self.prefix):
            return       # already known feasible from the discovering run
        r, m = solve(self.constraints(), self.n_int > 0, self.limits.get('branch_timeout', 4000))
        if r == 'unsat':
            raise PathAbort('assumption')
        self.model = m


RUN = None


def set_run(run):
    global RUN
    RUN = run
    _poly.set_rules(run.rules if run is not None else {})


def run():
    return RUN


# --------------------------------------------------------------------------------------------------

class SymBool:

    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return RUN.decide(self.z)

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = zb(o)
        return SymBool(z3.Xor(self.z, o))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.z == zb(o))
        if isinstance(o, (int, float)) and o in (0, 1):
            return SymBool(self.z == zb(bool(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.z))

    def __hash__(self):
        return 0

    # bools are numbers in python
    def _num(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __int__(self):
        return self._num()

    def __index__(self):
        return self._num()

    def __float__(self):
        return float(self._num())

    def any(self):
        return self

    def all(self):
        return self

    def __repr__(self):
        return f'SymBool({self.z})'


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def _wrap(z):
    return SymBool(z)


def b_and(*a):
    if any(x is False for x in a):
        return False
    a = [x for x in a if x is not True]
    if not a:
        return True
    return SymBool(z3.And(*[zb(x) for x in a]))


def b_or(*a):
    if any(x is True for x in a):
        return True
    a = [x for x in a if x is not False]
    if not a:
        return False
    return SymBool(z3.Or(*[zb(x) for x in a]))


def b_not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.z))
    return not x


# --------------------------------------------------------------------------------------------------

ONE = Poly.const(1)
_INF = float('inf')


def _is_special(x):
    return isinstance(x, float) and (x != x or x in (_INF, -_INF))


class SymReal:
    """num/den, exact.  `np` marks values that behave like numpy.float64 scalars (x/0 -> inf)."""

    __slots__ = ('n', 'd', 'np')
    __array_priority__ = -1.0

    def __init__(self, n, d=None, np=False):
        self.n = n
        self.d = d
        self.np = np

    # -- construction
    @staticmethod
    def make(n, d=None, np=False):
        if d is None:
            return SymReal(n, None, np)
        if d.is_const():
            return SymReal(n.scale(Fraction(1) / d.const_value()), None, np)
        if n.is_zero():
            return SymReal(n, None, np)
        # common monomial
        if len(d.t) == 1 or (d.content() and n.content()):
            cn, cd = dict(n.content()), dict(d.content())
            com = tuple(sorted((v, min(e, cd[v])) for v, e in cn.items() if v in cd))
            if com:
                n, d = n.div_mono(com), d.div_mono(com)
                if d.is_const():
                    return SymReal(n.scale(Fraction(1) / d.const_value()), None, np)
        q = n.exact_div(d)
        if q is not None:
            return SymReal(q, None, np)
        if len(n.t) > 1 and len(n.t) <= len(d.t):
            q = d.exact_div(n)
            if q is not None and not q.is_const():
                n, d = ONE, q
        # rationalise a single sqrt atom denominators: 1/r -> r/r^2
        # normalise the leading coefficient of d to be 1
        lead = d.t[max(d.t, key=_poly._mono_key)]
        if lead != 1:
            k = Fraction(1) / lead
            n, d = n.scale(k), d.scale(k)
        return SymReal(n, d, np)

    # -- predicates
    @property
    def is_const(self):
        return self.d is None and self.n.is_const()

    @property
    def value(self):
        return self.n.const_value()

    def with_np(self, flag):
        return self if self.np == flag else SymReal(self.n, self.d, flag)

    def z(self):
        r = RUN
        if self.d is None:
            return r.zpoly(self.n)
        return r.zpoly(self.n) / r.zpoly(self.d)

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, SymBool):
            return SymReal(Poly.const(o._num()))
        if isinstance(o, (bool, int, Fraction)):
            return SymReal(Poly.const(o))
        if isinstance(o, float):      # includes numpy.float64
            if _is_special(o):
                return None
            return SymReal(Poly.const(to_fraction(o)), None, type(o) is not float)
        if _is_np_scalar(o):
            return SymReal(Poly.const(to_fraction(o.item())), None, True)
        return NotImplemented

    def __add__(self, o):
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            return o
        np = self.np or c.np
        if self.d is None and c.d is None:
            return SymReal(self.n + c.n, None, np)
        if self.d is None:
            return SymReal.make(self.n * c.d + c.n, c.d, np)
        if c.d is None:
            return SymReal.make(self.n + c.n * self.d, self.d, np)
        if self.d == c.d:
            return SymReal.make(self.n + c.n, self.d, np)
        q = self.d.exact_div(c.d)
        if q is not None:
            return SymReal.make(self.n + c.n * q, self.d, np)
        q = c.d.exact_div(self.d)
        if q is not None:
            return SymReal.make(self.n * q + c.n, c.d, np)
        return SymReal.make(self.n * c.d + c.n * self.d, self.d * c.d, np)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.n, self.d, self.np)

    def __pos__(self):
        return self

    def __sub__(self, o):
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            return -o
        return self + (-c)

    def __rsub__(self, o):
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            return o
        return c + (-self)

    def __mul__(self, o):
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            if o != o:
                return o
            if bool(self > 0):
                return o
            if bool(self < 0):
                return -o
            return float('nan')
        np = self.np or c.np
        if self.d is None and c.d is None:
            return SymReal(self.n * c.n, None, np)
        n1, d1, n2, d2 = self.n, self.d, c.n, c.d
        # cross-cancel before multiplying
        if d2 is not None:
            q = n1.exact_div(d2)
            if q is not None:
                n1, d2 = q, None
        if d1 is not None:
            q = n2.exact_div(d1)
            if q is not None:
                n2, d1 = q, None
        if d1 is None and d2 is None:
            return SymReal(n1 * n2, None, np)
        d = d1 if d2 is None else (d2 if d1 is None else d1 * d2)
        return SymReal.make(n1 * n2, d, np)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            return o if o != o else SymReal(Poly({}), None, self.np)
        return _div(self, c)

    def __rtruediv__(self, o):
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            if o != o:
                return o
            if bool(self < 0):
                return -o
            if self.np or bool(self > 0):
                return o
            raise ZeroDivisionError('float division by zero')
        return _div(c, self)

    def __floordiv__(self, o):
        q = self / o
        return floor_(q)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        k = concretise(floor_(self / o))
        return self - o * k

    def __rmod__(self, o):
        k = concretise(floor_(o / self))
        return o - self * k

    def __divmod__(self, o):
        k = concretise(floor_(self / o))
        return k, self - o * k

    def __pow__(self, e, mod=None):
        return power(self, e)

    def __rpow__(self, b):
        c = self._co(b)
        if c is NotImplemented or c is None:
            raise Unsupported('pow')
        return power(c, self)

    def __abs__(self):
        if self.is_const:
            return SymReal(Poly.const(abs(self.value)), None, self.np)
        if self.n.is_zero():
            return self
        if self.d is None and len(self.n.t) == 1:
            (m, c), = self.n.t.items()
            if all(RUN.vars[v].nonneg or e % 2 == 0 for v, e in m):
                return SymReal(Poly({m: abs(c)}), None, self.np)
        if bool(self >= 0):
            return self
        return -self

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymRound):
            return NotImplemented
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            if o != o:
                return op == 'ne'
            return {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[op]
        if self.d is None and c.d is None:
            n, d = self.n - c.n, None
        else:
            diff = self - c
            n, d = diff.n, diff.d
        return sign_test(n, d, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        return 0

    def __bool__(self):
        r = self._cmp(0, 'ne')
        return bool(r)

    # -- conversions
    def __float__(self):
        raise Unsupported('float() of a symbolic value at a C boundary')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        return concretise(trunc_(self))

    def __index__(self):
        if self.is_const and Fraction(self.value).denominator == 1:
            return int(self.value)
        if all(RUN.vars[v].is_int for v in self.n.variables()) and self.d is None:
            return concretise(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __round__(self, n=None):
        return round_(self, n)

    def is_integer(self):
        return bool(floor_(self) == self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.

    def conjugate(self):
        return self

    def item(self):
        return self.with_np(False)

    # numpy object ufuncs call these
    def sqrt(self):
        return sqrt_(self, npmode=True)

    def rint(self):
        return round_(self, 0)

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def fabs(self):
        return abs(self)

    def square(self):
        return self * self

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return s / c

    def radians(self):
        return radians_(self)

    deg2rad = radians

    def degrees(self):
        return degrees_(self)

    rad2deg = degrees

    def arccos(self):
        return acos_(self, True)

    def arcsin(self):
        return asin_(self, True)

    def arctan(self):
        return atan_(self)

    def isfinite(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickle')

    # -- text
    def __str__(self):
        return token_for(self)

    def __format__(self, spec):
        if spec in ('', 's', 'r'):
            return token_for(self)
        if spec.endswith('g') and '%' not in spec:
            n = int(spec[spec.index('.') + 1:-1] or 0) if '.' in spec else 6
            return token_for(self if n > 15 else round_significant(self, max(n, 1)))
        if spec == 'f':
            spec = '.6f'
        if spec.endswith('f') and '.' in spec:
            n = int(spec[spec.index('.') + 1:-1] or 0)
            return token_for(round_(self, n, lazy=False))
        if spec in ('02x', '02X'):
            return hex_byte(self)
        if spec[:-1].isdigit() and spec[-1] == 'f':     # minimal width
            return token_for(round_(self, 6, lazy=False))
        raise Unsupported('format spec ' + spec)

    def __repr__(self):
        if RUN is None:
            return 'SymReal(?)'
        return token_for(self)


numbers.Real.register(SymReal)


def _is_np_scalar(o):
    return hasattr(o, 'dtype') and hasattr(o, 'item') and getattr(o, 'shape', None) == () \
        and type(o).__name__ != 'ndarray'


def sym(x):
    """Coerce a concrete number to SymReal."""
    if isinstance(x, SymRound):
        return x.exact()
    if isinstance(x, SymReal):
        return x
    r = SymReal(ONE)._co(x)
    if r is None or r is NotImplemented:
        raise Unsupported(f'cannot make a symbolic value from {x!r}')
    return r


def _known_nonneg_mono(m):
    return all(RUN.vars[v].nonneg or e % 2 == 0 for v, e in m)


def _sumsq(p):
    return all(c > 0 and _known_nonneg_mono(m) for m, c in p.t.items())


def sign_test(n, d, op):
    """Test n/d <op> 0."""
    if d is None:
        if n.is_const():
            v = n.const_value()
            return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0, 'eq': v == 0, 'ne': v != 0}[op]
        nz = RUN.zpoly(n)
        if op in ('ge', 'lt') and _sumsq(n):
            return op == 'ge'
        if op in ('le', 'gt') and _sumsq(-n):
            return op == 'le'
        return SymBool({'lt': nz < 0, 'le': nz <= 0, 'gt': nz > 0, 'ge': nz >= 0, 'eq': nz == 0,
                        'ne': nz != 0}[op])
    if op in ('eq', 'ne'):
        return sign_test(n, None, op)
    # strip known-nonnegative monomials (den is non-zero on this path)
    c = d.content()
    strip = tuple((v, e if RUN.vars[v].nonneg else e - e % 2) for v, e in c)
    strip = tuple((v, e) for v, e in strip if e)
    if strip:
        d = d.div_mono(strip)
    if d.is_const():
        return sign_test(n if d.const_value() > 0 else -n, None, op)
    if _sumsq(d):
        return sign_test(n, None, op)
    if _sumsq(-d):
        return sign_test(-n, None, op)
    nz, dz = RUN.zpoly(n), RUN.zpoly(d)
    if op == 'gt':
        return SymBool(z3.Or(z3.And(nz > 0, dz > 0), z3.And(nz < 0, dz < 0)))
    if op == 'lt':
        return SymBool(z3.Or(z3.And(nz > 0, dz < 0), z3.And(nz < 0, dz > 0)))
    if op == 'ge':
        return SymBool(z3.Or(z3.And(nz >= 0, dz > 0), z3.And(nz <= 0, dz < 0)))
    return SymBool(z3.Or(z3.And(nz >= 0, dz < 0), z3.And(nz <= 0, dz > 0)))


def _div(a, b):
    np = a.np or b.np
    if b.n.is_zero():
        zero = True
    elif b.n.is_const():
        zero = False
    else:
        zero = bool(sign_test(b.n, None, 'eq'))
    if zero:
        if not np:
            raise ZeroDivisionError('float division by zero')
        import numpy
        if bool(a > 0):
            return numpy.float64('inf')
        if bool(a < 0):
            return numpy.float64('-inf')
        return numpy.float64('nan')
    # a.n/a.d * b.d/b.n
    inv = SymReal.make(b.d if b.d is not None else ONE, b.n, np)
    return (a * inv).with_np(np)


def fresh_real(name, kind='aux', nonneg=False, is_int=False, meta=None):
    v = RUN.new_var(name, kind, nonneg, is_int, meta)
    return SymReal(Poly.var(v))


def _qroot(c, n):
    """exact n-th root of a rational or None"""
    c = Fraction(c)
    neg = c < 0
    if neg and n % 2 == 0:
        return None
    c = abs(c)

    def iroot(k):
        if k == 0:
            return 0
        r = round(k ** (1.0 / n))
        for t in (r - 1, r, r + 1):
            if t >= 0 and t ** n == k:
                return t
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    r = Fraction(a, b)
    return -r if neg else r


def sqrt_(x, npmode=False):
    x = sym(x)
    np = x.np
    if x.is_const:
        v = x.value
        if v < 0:
            if npmode:
                return float('nan')
            raise ValueError('math domain error')
        r = _qroot(v, 2)
        if r is not None:
            return SymReal(Poly.const(r), None, np)
    if not x.n.is_zero() and not (x.d is None and _sumsq(x.n)):
        if bool(x < 0):
            if npmode:
                return float('nan')
            raise ValueError('math domain error')
    key = ('sqrt', x.n.key(), x.d.key() if x.d is not None else None)
    hit = RUN.cache.get(key)
    if hit is not None:
        return hit.with_np(np)
    if x.d is None:
        res = _sqrt_poly(x.n)
    else:
        # sqrt(n/d) = sqrt(n*d)/|d|
        d = SymReal(x.d)
        prod = x.n * x.d
        ad = abs(d)
        res = _sqrt_poly(prod) / ad
    RUN.cache[key] = res
    return res.with_np(np)


def _sqrt_poly(p):
    """sqrt of a polynomial known to be >= 0 on this path."""
    if p.is_const():
        r = _qroot(p.const_value(), 2)
        if r is not None:
            return SymReal(Poly.const(r))
    # pull the even monomial content and rational square out
    cont = p.content()
    even = tuple((v, e - e % 2) for v, e in cont if e >= 2)
    factor = SymReal(ONE)
    if even:
        p = p.div_mono(even)
        half = tuple((v, e // 2) for v, e in even)
        factor = abs(SymReal(Poly({half: 1})))
    # normalise the rational coefficient
    lead = abs(Fraction(p.t[max(p.t, key=_poly._mono_key)]))
    k = Fraction(1)
    r = _qroot(lead, 2)
    if r is not None and r != 1:
        p = p.scale(Fraction(1) / lead)
        k = r
    if p.is_const():
        r = _qroot(p.const_value(), 2)
        if r is not None:
            return factor * SymReal(Poly.const(r * k))
    sq = _poly_square_root(p)
    if sq is not None:
        return factor * abs(SymReal(sq)) * k
    key = ('sqrtp', p.key())
    hit = RUN.cache.get(key)
    if hit is None:
        v = RUN.new_var('sqrt', 'sqrt', nonneg=True, meta=p)
        z = RUN.vars[v].z
        RUN.add_side(z * z == RUN.zpoly(p))
        RUN.rules[v] = (2, p)
        hit = SymReal(Poly.var(v))
        if p.is_const():
            f = _math.sqrt(p.const_value())
            RUN.add_side(z > z3.RealVal(str(Fraction(f) * (1 - Fraction(1, 10**12)))))
            RUN.add_side(z < z3.RealVal(str(Fraction(f) * (1 + Fraction(1, 10**12)))))
        RUN.cache[key] = hit
    return factor * hit * k


def _poly_square_root(p):
    """p = q^2 with rational q, else None (small polynomials)."""
    if len(p.t) > 60 or len(p.t) < 2:
        return None
    # leading term
    rem = p
    lm = max(p.t, key=_poly._mono_key)
    lc = _qroot(p.t[lm], 2)
    if lc is None or any(e % 2 for _, e in lm):
        return None
    qm = tuple((v, e // 2) for v, e in lm)
    q = Poly({qm: lc})
    rem = p - _poly._raw_mul(q, q)
    steps = 0
    while not rem.is_zero():
        steps += 1
        if steps > 40:
            return None
        m = max(rem.t, key=_poly._mono_key)
        t = _poly._mono_div(m, qm)
        if t is None:
            return None
        nt = Poly({t: Fraction(rem.t[m]) / (2 * lc)})
        rem = rem - (_poly._raw_mul(q, nt).scale(2) + _poly._raw_mul(nt, nt))
        q = q + nt
    return q


def power(b, e):
    if isinstance(e, SymReal):
        if e.is_const:
            e = Fraction(e.value)
        else:
            raise Unsupported('symbolic exponent')
    if isinstance(e, float):
        e = to_fraction(e)
    e = Fraction(e)
    if e.denominator == 1:
        k = int(e)
        if k < 0:
            return 1 / power(b, -k)
        if b.d is None:
            return SymReal(b.n ** k, None, b.np)
        r = SymReal(ONE, None, b.np)
        for _ in range(k):
            r = r * b
        return r
    if e.denominator == 2:
        s = sqrt_(b, npmode=b.np)
        return power(s, e.numerator)
    # general p/q root of a non negative number
    if b.is_const and b.value < 0 or (not b.is_const and bool(b < 0)):
        raise Unsupported('fractional power of a negative number (complex)')
    r = root_(b, e.denominator)
    return power(r, e.numerator)


def root_(x, n):
    """real n-th root of a non negative value"""
    if x.is_const:
        r = _qroot(x.value, n)
        if r is not None:
            return SymReal(Poly.const(r), None, x.np)
    if bool(x == 0):
        return SymReal(Poly({}), None, x.np)
    key = ('root', n, x.n.key(), x.d.key() if x.d is not None else None)
    hit = RUN.cache.get(key)
    if hit is None:
        if x.d is not None:
            t = fresh_real('quot')
            RUN.add_side(t.z() * RUN.zpoly(x.d) == RUN.zpoly(x.n))
            x = t
        v = RUN.new_var('root', 'root', nonneg=True, meta=(n, x.n))
        z = RUN.vars[v].z
        RUN.add_side(z3.Product(*[z] * n) == RUN.zpoly(x.n))
        RUN.rules[v] = (n, x.n)
        hit = SymReal(Poly.var(v))
        RUN.cache[key] = hit
    return hit.with_np(x.np)


# -- integers --------------------------------------------------------------------------------------

def floor_(x):
    if isinstance(x, (int, float, Fraction)):
        return _math.floor(x)
    x = sym(x)
    if x.is_const:
        return _math.floor(x.value)
    if x.d is None and all(RUN.vars[v].is_int for v in x.n.variables()) and \
            all(Fraction(c).denominator == 1 for c in x.n.t.values()):
        return x
    key = ('floor', x.n.key(), x.d.key() if x.d is not None else None)
    hit = RUN.cache.get(key)
    if hit is not None:
        return hit
    # few-valued quotients are concretised by the solver; otherwise an integer atom is introduced
    v = RUN.new_var('floor', 'int', is_int=True, meta=('floor', x.n, x.d))
    k = SymReal(Poly.var(v))
    RUN.add_side(zb(k <= x))
    RUN.add_side(zb(x < k + 1))
    RUN.cache[key] = k
    return k


def trunc_(x):
    x = sym(x)
    if x.is_const:
        return int(x.value)
    if bool(x >= 0):
        return floor_(x)
    return -floor_(-x)


def concretise(k):
    """Fork over the integer values of k."""
    if isinstance(k, int):
        return k
    k = sym(k)
    if k.is_const:
        return int(k.value)
    limit = RUN.limits.get('max_concretise', 64)
    for _ in range(limit):
        n = len(RUN.taken)
        if n < len(RUN.prefix):
            # replayed decision: the candidate value was recorded in the prefix
            d = RUN.prefix[n]
            val = d[1] if isinstance(d, tuple) else None
            if val is None:
                raise Unsupported('prefix mismatch in concretise')
            RUN.taken.append(d)
            z = zb(k == val)
            if d[0]:
                RUN.pc.append(z)
                return val
            RUN.pc.append(z3.Not(z))
            continue
        r, m = RUN.query([])
        if r == 'unsat':
            raise PathAbort('infeasible')
        if r != 'sat':
            raise Unsupported('cannot concretise (solver unknown)')
        mv = model_eval(m, k.z())
        try:
            val = int(mv.as_fraction()) if hasattr(mv, 'as_fraction') else int(mv.as_long())
        except Exception:
            raise Unsupported('cannot concretise')
        z = zb(k == val)
        r2, m2 = RUN.query([z3.Not(z)], RUN.limits.get('branch_timeout', 4000))
        STATS.branches += 1
        if r2 != 'unsat':
            RUN.pending.append(RUN.taken + [(False, val)])
        RUN.taken.append((True, val))
        RUN.pc.append(z)
        RUN.model = m
        return val
    raise PathAbort('too many integer values')


class SymRound(SymReal):
    """round(x, n), compared lazily with constants so that most uses stay in linear reals."""

    __slots__ = ('base', 'nd', '_ex')

    def __init__(self, base, nd):
        self.base = base
        self.nd = nd
        self._ex = None
        self.np = base.np

    # lazily exact
    def exact(self):
        if self._ex is None:
            self._ex = round_(self.base, self.nd, lazy=False)
        return self._ex

    @property
    def n(self):
        return self.exact().n

    @property
    def d(self):
        return self.exact().d

    def with_np(self, flag):
        return self

    def __neg__(self):
        return -self.exact()

    def _cmp(self, o, op):
        if isinstance(o, SymRound):
            o = o.exact()
        c = self._co(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None or not c.is_const:
            return self.exact()._cmp(o, op)
        unit = Fraction(1, 10 ** self.nd) if self.nd >= 0 else Fraction(10 ** -self.nd)
        k = Fraction(c.value) / unit
        x = self.base
        half = unit / 2
        if k.denominator != 1:
            # between two representable values
            lo = (k.numerator // k.denominator) * unit
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return SymRound(x, self.nd)._cmp(lo, {'lt': 'le', 'le': 'le', 'gt': 'gt', 'ge': 'gt'}[op])
        v = k * unit
        even = k % 2 == 0
        lo, hi = v - half, v + half
        ge = (x >= lo) if even else (x > lo)      # round(x) >= v
        le = (x <= hi) if even else (x < hi)      # round(x) <= v
        if op == 'eq':
            return b_and(ge, le)
        if op == 'ne':
            return b_not(b_and(ge, le))
        return {'ge': ge, 'lt': b_not(ge), 'le': le, 'gt': b_not(le)}[op]


def round_(x, n=None, lazy=True):
    x = sym(x)
    nd = 0 if n is None else int(n)
    if x.is_const:
        r = round(Fraction(x.value), nd)
        return int(r) if n is None else SymReal(Poly.const(r), None, x.np)
    if n is None and x.d is None and all(RUN.vars[v].is_int for v in x.n.variables()) and \
            all(Fraction(c).denominator == 1 for c in x.n.t.values()):
        return x
    if lazy and n is not None:
        return SymRound(x, nd)
    unit = Fraction(1, 10 ** nd) if nd >= 0 else Fraction(10 ** -nd)
    key = ('round', nd, x.n.key(), x.d.key() if x.d is not None else None)
    hit = RUN.cache.get(key)
    if hit is None:
        v = RUN.new_var('round', 'int', is_int=True, meta=('round', x.n, x.d, nd))
        k = SymReal(Poly.var(v))
        dx = x - k * unit
        RUN.add_side(zb(dx <= unit / 2))
        RUN.add_side(zb(dx >= -unit / 2))
        hit = k * unit
        RUN.cache[key] = hit
    return hit


def round_significant(x, n):
    """x rounded to n significant digits (numbers under 1e-4 are not told apart)"""
    e, m = -4, abs(x)
    while e < 12 and m >= Fraction(10) ** (e + 1):
        e += 1
    return round_(x, n - 1 - e, lazy=False)


# -- angles ----------------------------------------------------------------------------------------

PI_VAR = 0


def pi():
    return SymReal(Poly.var(PI_VAR))


def radians_(x):
    if isinstance(x, (int, float, Fraction)):
        if _is_special(x):
            return x
    return sym(x) * pi() * Fraction(1, 180)


def degrees_(x):
    x = sym(x)
    # x*180/pi without a zero test
    num = x.n.scale(180)
    q = num.exact_div(Poly.var(PI_VAR))
    if q is not None:
        return SymReal.make(q, x.d, x.np)
    d = Poly.var(PI_VAR) if x.d is None else x.d * Poly.var(PI_VAR)
    return SymReal.make(num, d, x.np)


def _exact_cs(t):
    """cos, sin of t*pi for rational t; exact when t is a multiple of 1/12, else numeric atoms."""
    t = Fraction(t) % 2
    S = lambda v: SymReal(Poly.const(v))
    # quadrant reduction
    q, r = divmod(t, Fraction(1, 2))
    q = int(q)
    if r == 0:
        c, s = S(1), S(0)
    elif r == Fraction(1, 4):
        h = sqrt_(S(2)) * Fraction(1, 2)
        c, s = h, h
    elif r == Fraction(1, 6):
        c, s = sqrt_(S(3)) * Fraction(1, 2), S(Fraction(1, 2))
    elif r == Fraction(1, 3):
        c, s = S(Fraction(1, 2)), sqrt_(S(3)) * Fraction(1, 2)
    elif r in (Fraction(1, 12), Fraction(5, 12)):
        a = sqrt_(S(6)) * Fraction(1, 4)
        b = sqrt_(S(2)) * Fraction(1, 4)
        c, s = (a + b, a - b) if r == Fraction(1, 12) else (a - b, a + b)
    else:
        key = ('cs', r)
        hit = RUN.cache.get(key)
        if hit is None:
            cv = RUN.new_var('cosk', 'const', nonneg=True)
            sv = RUN.new_var('sink', 'const', nonneg=True)
            for v, f in ((cv, _math.cos(r * _math.pi)), (sv, _math.sin(r * _math.pi))):
                z = RUN.vars[v].z
                e = Fraction(1, 10**12)
                RUN.add_side(z > z3.RealVal(str(Fraction(f) - e)))
                RUN.add_side(z < z3.RealVal(str(Fraction(f) + e)))
            RUN.add_side(RUN.vars[cv].z ** 2 + RUN.vars[sv].z ** 2 == 1)
            RUN.rules[sv] = (2, ONE - Poly.var(cv) * Poly.var(cv))
            hit = (SymReal(Poly.var(cv)), SymReal(Poly.var(sv)))
            RUN.cache[key] = hit
        c, s = hit
    for _ in range(q):
        c, s = -s, c
    return c, s


def _multiple(c, s, k):
    """cos(k a), sin(k a)"""
    neg = k < 0
    k = abs(k)
    rc, rs = SymReal(ONE), SymReal(Poly({}))
    for _ in range(k):
        rc, rs = rc * c - rs * s, rs * c + rc * s
    return rc, (-rs if neg else rs)


def new_trig_atom(key, unit, link=None):
    """Register cos/sin of unit*key (key: monomial or opaque id)."""
    cv = RUN.new_var('cos', 'cos', meta=(key, unit))
    sv = RUN.new_var('sin', 'sin', meta=(key, unit))
    zc, zs = RUN.vars[cv].z, RUN.vars[sv].z
    RUN.add_side(zc * zc + zs * zs == 1)
    RUN.rules[sv] = (2, ONE - Poly.var(cv) * Poly.var(cv))
    c, s = SymReal(Poly.var(cv)), SymReal(Poly.var(sv))
    RUN.trig.setdefault(key, {})[unit] = (c, s)
    return c, s


def _atom_cs(key, coef):
    coef = Fraction(coef)
    units = RUN.trig.get(key)
    if units:
        for u, (c, s) in sorted(units.items(), key=lambda p: -p[0]):
            k = coef / u
            if k.denominator == 1 and abs(k) <= 16:
                return _multiple(c, s, int(k))
        # finer unit
        u, (c, s) = max(units.items(), key=lambda p: p[0])
        k = coef / u
        q = k.denominator
        if q > 8:
            raise Unsupported('angle fraction')
        fine = u / q
        fc, fs = new_trig_atom(key, fine)
        mc, ms = _multiple(fc, fs, q)
        RUN.add_side(zb(mc == c))
        RUN.add_side(zb(ms == s))
        rng = RUN.cache.get(('range', key))
        if rng is not None and q == 2:
            # |u*key| <= pi  =>  cos(half) >= 0
            if rng == 'pi' and u == 1:
                RUN.add_side(zb(fc >= 0))
        return _multiple(fc, fs, int(coef / fine))
    unit = abs(coef)
    c, s = new_trig_atom(key, unit)
    return (c, s) if coef > 0 else (c, -s)


def trig(x):
    """cos, sin of x (radians)"""
    x = sym(x)
    if x.n.is_zero():
        return SymReal(ONE), SymReal(Poly({}))
    if x.d is not None:
        # distribute over the denominator when it divides term by term
        key = ('ang', x.n.key(), x.d.key())
        return _atom_cs(key, 1)
    rc, rs = SymReal(ONE), SymReal(Poly({}))
    for m, c in sorted(x.n.t.items()):
        if m == ((PI_VAR, 1),):
            ac, as_ = _exact_cs(c)
        elif m == ():
            ac, as_ = _atom_cs(('one',), c)
            if c != 0 and not RUN.cache.get(('numang', c)):
                RUN.cache[('numang', c)] = True
                for v, f in ((ac, _math.cos(c)), (as_, _math.sin(c))):
                    e = Fraction(1, 10**12)
                    RUN.add_side(zb(v > Fraction(f) - e))
                    RUN.add_side(zb(v < Fraction(f) + e))
        else:
            ac, as_ = _atom_cs(m, c)
        rc, rs = rc * ac - rs * as_, rs * ac + rc * as_
    return rc.with_np(x.np), rs.with_np(x.np)


def angle_atom(name, c, s, constraints, halfrange=True, meta=None):
    """Fresh angle (radians) with known cosine / sine."""
    th = fresh_real(name, 'angle', meta=(c, s))
    v = len(RUN.vars) - 1
    m = ((v, 1),)
    RUN.trig[m] = {Fraction(1): (c, s)}
    RUN.cache[('range', m)] = 'pi'
    for z in constraints(th):
        RUN.add_side(zb(z))
    return th


def _known_angle(x, table):
    if x.is_const and x.value in table:
        return pi() * table[x.value]
    return None


def acos_(x, npmode=False):
    x = sym(x)
    k = _known_angle(x, {Fraction(1): 0, Fraction(0): Fraction(1, 2), Fraction(-1): Fraction(1),
                         Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)})
    if k is not None:
        return k
    if bool(b_or(x > 1, x < -1)):
        if npmode:
            return float('nan')
        raise ValueError('math domain error')
    key = ('acos', x.n.key(), x.d.key() if x.d is not None else None)
    if key in RUN.cache:
        return RUN.cache[key]
    s = sqrt_(1 - x * x)
    P = pi()
    th = angle_atom('acos', x, s, lambda t: [
        t >= 0, t <= P, zb(t == 0) == zb(x == 1), zb(t == P) == zb(x == -1),
        zb(t < P / 2) == zb(x > 0), zb(t > P / 2) == zb(x < 0),
        zb(t < P / 4) == zb(b_and(x > 0, 2 * x * x > 1)),
        zb(t > 3 * P / 4) == zb(b_and(x < 0, 2 * x * x > 1))])
    _monotone('acos', th, x, False)
    RUN.cache[key] = th
    return th


def asin_(x, npmode=False):
    x = sym(x)
    return pi() / 2 - acos_(x, npmode)


def atan_(x):
    x = sym(x)
    k = _known_angle(x, {Fraction(0): 0, Fraction(1): Fraction(1, 4), Fraction(-1): Fraction(-1, 4)})
    if k is not None:
        return k
    key = ('atan', x.n.key(), x.d.key() if x.d is not None else None)
    if key in RUN.cache:
        return RUN.cache[key]
    h = sqrt_(1 + x * x)
    P = pi()
    th = angle_atom('atan', 1 / h, x / h, lambda t: [
        t > -P / 2, t < P / 2, zb(t > 0) == zb(x > 0), zb(t == 0) == zb(x == 0),
        zb(t > P / 4) == zb(x > 1), zb(t < -P / 4) == zb(x < -1)])
    _monotone('atan', th, x, True)
    RUN.cache[key] = th
    return th


def _monotone(fn, th, x, increasing):
    """order of two values of a monotone function follows the order of their arguments"""
    seen = RUN.cache.setdefault(('monotone', fn), [])
    for t2, x2 in seen[-12:]:
        RUN.add_side(zb(th < t2) == zb(x < x2 if increasing else x > x2))
        RUN.add_side(zb(th == t2) == zb(x == x2))
    RUN.cache[('monotone', fn)] = seen + [(th, x)]


def atan2_(y, x):
    y, x = sym(y), sym(x)
    if bool(b_and(x == 0, y == 0)):
        return SymReal(Poly({}))
    P = pi()
    if y.is_const and y.value == 0:
        return SymReal(Poly({})) if bool(x > 0) else P
    if x.is_const and x.value == 0:
        return P / 2 if bool(y > 0) else -P / 2
    key = ('atan2', y.n.key(), y.d and y.d.key(), x.n.key(), x.d and x.d.key())
    if key in RUN.cache:
        return RUN.cache[key]
    r = sqrt_(x * x + y * y)
    th = angle_atom('atan2', x / r, y / r, lambda t: [
        t > -P, t <= P,
        zb(t == 0) == zb(b_and(y == 0, x > 0)), zb(t == P) == zb(b_and(y == 0, x < 0)),
        zb(b_and(t > 0, t < P)) == zb(y > 0), zb(t < 0) == zb(y < 0),
        zb(b_and(t > -P / 2, t < P / 2)) == zb(x > 0),
        zb(t == P / 2) == zb(b_and(x == 0, y > 0)), zb(t == -P / 2) == zb(b_and(x == 0, y < 0))])
    RUN.cache[key] = th
    return th


def log_(x):
    """natural logarithm: an increasing function, exact at 1"""
    x = sym(x)
    if bool(x <= 0):
        raise ValueError('math domain error')
    if x.is_const and x.value == 1:
        return SymReal(Poly({}))
    key = ('log', x.n.key(), x.d.key() if x.d is not None else None)
    if key not in RUN.cache:
        th = fresh_real('log', 'log')
        RUN.add_side(zb(th > 0) == zb(x > 1))
        RUN.add_side(zb(th == 0) == zb(x == 1))
        RUN.add_side(zb(th <= x - 1))
        _monotone('log', th, x, True)
        RUN.cache[key] = th
    return RUN.cache[key]


def copysign_(a, b):
    a = sym(a)
    if isinstance(b, float) and not isinstance(b, SymReal):
        neg = _math.copysign(1, b) < 0
    else:
        b = sym(b)
        neg = bool(b < 0)
    a = abs(a)
    return -a if neg else a


# -- text tokens -----------------------------------------------------------------------------------

TOKEN_PREFIX = '9007199'


def token_for(x):
    """A decimal numeral standing for a symbolic value inside strings."""
    x = sym(x)
    if x.is_const:
        v = Fraction(x.value)
        if v.denominator == 1:
            return f'{int(v)}.0' if not getattr(x, 'int_like', False) else str(int(v))
        return repr(float(v))
    if RUN is None:
        return 'SymReal'
    for t, v in RUN.tokens.items():
        if v.n == x.n and v.d == x.d:
            return t
        if v.d == x.d and (v.n + x.n).is_zero():
            return '-' + t
    t = f'{TOKEN_PREFIX}{len(RUN.tokens) + 100}.5'
    RUN.tokens[t] = x.with_np(False)
    return t


def parse_token(s):
    """-> SymReal or None"""
    if RUN is None or not RUN.tokens:
        return None
    t = s.strip()
    neg = False
    if t[:1] in '+-':
        neg = t[0] == '-'
        t = t[1:]
    v = RUN.tokens.get(t)
    if v is None:
        # int form
        return None
    return -v if neg else v


# -- base run: constants that exist at import time -----------------------------------------------

def make_base():
    b = Run()
    v = b.new_var('pi', 'const', nonneg=True)
    assert v == PI_VAR
    z = b.vars[v].z
    b.side.append(z > z3.RealVal('3.14159265358979'))
    b.side.append(z < z3.RealVal('3.14159265358980'))
    return b


# -- hexadecimal digits ----------------------------------------------------------------------------

def hex_digit(x):
    """A character which stands for the symbolic digit x (an integer between 0 and 15)"""
    d = RUN.cache.setdefault('hex digits', {})
    c = chr(0xE000 + len(d))
    d[c] = x
    return c


def parse_hex(s):
    """-> SymReal, or None when the text has no symbolic digit"""
    if RUN is None:
        return None
    d = RUN.cache.get('hex digits')
    if not d or not any(c in d for c in s):
        return None
    bytes_ = RUN.cache.setdefault('hex bytes', {})
    if s in bytes_:
        return bytes_[s]
    v = 0
    for c in s:
        v = v*16 + (d[c] if c in d else int(c, 16))
    if len(s) == 2:
        bytes_[s] = v
    return v


def hex_byte(x):
    """Two characters; two values have the same ones only when they are equal on the path"""
    bytes_ = RUN.cache.setdefault('hex bytes', {})
    for s, v in bytes_.items():
        if isinstance(v, SymReal) and v.d is None and x.d is None and v.n == x.n:
            return s
    for s, v in list(bytes_.items()):
        if x == v:
            return s
    d = RUN.cache.setdefault('hex digits', {})
    s = chr(0xE000 + len(d)) + chr(0xE001 + len(d))
    d[s[0]] = d[s[1]] = None
    bytes_[s] = x
    return s
