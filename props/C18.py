"""Roots of polynomials (Patro/Common/Math/Root.py)."""
from engine.harness import harness

try:
    from engine.loader import STUBS
    from engine import sympy_stub
    STUBS['sympy'] = sympy_stub.MODULE
except ImportError:     # replay
    sympy_stub = None

MODULES = ['Patro.Common.Math.Root']
BOUNDS = 'coefficients of magnitude <= 10 (any real), roots of magnitude <= 10, degrees 0 to 5, null leading coefficients included'
ASSUMPTIONS = ['sympy.real_roots(p) returns values r with p(r) = 0, among which is every real root of p, and raises PolynomialError for a constant']
META = dict(
    title='Root finders return exactly the real roots of the polynomial',
    statement="""quadratic_root(a, b, c) returns a pair, a value or None: the real roots of ax² + bx + c (a pair iff there are two, None iff there is none
    or the polynomial is constant). cubic_root(a, b, c, d) returns the list of the real roots whatever the actual degree is, and [] for a constant.
    cubic_root_normalised(a, b, c) returns the list of the real roots of x³ + ax² + bx + c, each once (three values, two when one is double, one otherwise).
    fifth_root and the fourth_root_normalised / fifth_root_normalised / fifth_root_sympy / cubic_root_sympy variants return the real roots of the polynomial whose
    coefficients are given from the highest degree to the lowest (the leading 1 is implied in the normalised ones).""",
    quant='all coefficients, including null leading coefficients, double roots and polynomials without real root',
    why='Bézier extrema, intersections and projections all come down to these solvers; a missed or spurious root is a missed or spurious point',
    files=['Patro/Common/Math/Root.py'],
    mechanism=[('quadratic_root', 'Patro/Common/Math/Root.py'), ('cubic_root_normalised', 'Patro/Common/Math/Root.py'), ('fifth_root', 'Patro/Common/Math/Root.py')])
P = 'C18'
N = 10


def as_list(r):
    if r is None:
        return []
    return list(r) if isinstance(r, (tuple, list)) else [r]


def value(p, x):
    v = 0
    for c in p:
        v = v * x + c
    return v


def reals(ctx, names):
    return [ctx.real(n, -N, N) for n in names]


def member(ctx, w, roots):
    return ctx.or_(*[ctx.eq_(w, r) for r in roots]) if roots else False


@harness(P)
def quadratic_sound(ctx):
    """each value is a root, number of values"""
    from Patro.Common.Math.Root import quadratic_root
    a, b, c = reals(ctx, 'abc')
    roots = as_list(quadratic_root(a, b, c))
    for r in roots:
        ctx.eq(value([a, b, c], r), 0, 'root')
    disc = b * b - 4 * a * c
    if a == 0:
        ctx.is_(len(roots), 1 if b != 0 else 0, 'degree 1')
    elif disc > 0:
        ctx.is_(len(roots), 2, 'two roots')
        ctx.check(roots[0] != roots[1], 'distinct')
    else:
        ctx.is_(len(roots), 1 if ctx.symbolic and disc == 0 else len(roots), 'double root')
        ctx.check(len(roots) < 2 or not ctx.symbolic, 'at most one')
        if disc < -1e-9:
            ctx.is_(len(roots), 0, 'no root')


@harness(P)
def quadratic_complete(ctx):
    """every root is found: a (x - u) (x - v)"""
    from Patro.Common.Math.Root import quadratic_root
    a, u, v = reals(ctx, 'auv')
    k = ctx.choose('k', ['degree 2', 'degree 1', 'double'])
    ctx.assume(a != 0)
    if k == 'double':
        p = [a, -2 * a * u, a * u * u]
        v = u
    elif k == 'degree 2':
        p = [a, -a * (u + v), a * u * v]
    else:
        p = [0, a, -a * u]
        v = u
    r = quadratic_root(*p)
    roots = as_list(r)
    ctx.check(roots != [], 'a root')
    ctx.check(member(ctx, u, roots), 'first root')
    ctx.check(member(ctx, v, roots), 'second root')


@harness(P, budget=40)
def cubic_normalised_three(ctx):
    """three values: relations of Viète; one or two: roots"""
    from Patro.Common.Math.Root import cubic_root_normalised
    a, b, c = reals(ctx, 'abc')
    roots = cubic_root_normalised(a, b, c)
    ctx.check(1 <= len(roots) <= 3, 'one to three roots')
    if len(roots) == 3:
        x, y, z = roots
        ctx.eq([x + y + z, x * y + y * z + z * x, x * y * z], [-a, b, -c], 'three roots')
    else:
        for r in roots:
            ctx.eq(value([1, a, b, c], r), 0, 'root')


@harness(P, params=[{'k': k} for k in ('three', 'double', 'triple', 'one')], budget=40)
def cubic_normalised_complete(ctx, k):
    from Patro.Common.Math.Root import cubic_root_normalised
    u, v, w = reals(ctx, 'uvw')
    if k == 'one':
        # (x - u) ((x - v)² + w²)
        ctx.assume(w > 0.1)
        e1, e2, e3 = u + 2 * v, 2 * u * v + v * v + w * w, u * (v * v + w * w)
        want = [u]
    else:
        if k == 'three':
            # v and w are gaps
            ctx.assume(ctx.and_(v > 0.1, w > 0.1))
            v, w = u + v, u + v + w
        elif k == 'double':
            w = v
            ctx.assume(u != v)
        else:
            v = w = u
        e1, e2, e3 = u + v + w, u * v + v * w + w * u, u * v * w
        want = {'three': [u, v, w], 'double': [u, v], 'triple': [u]}[k]
    roots = cubic_root_normalised(-e1, e2, -e3)
    ctx.is_(len(roots), len(want), 'number of roots')
    if k == 'three':
        # a permutation of the roots: same symmetric functions
        x, y, z = roots
        ctx.eq([x + y + z, x * y + y * z + z * x, x * y * z], [e1, e2, e3], 'three roots')
        return
    for r in want:
        ctx.check(member(ctx, r, roots), 'root found')


NAMES = {
    'cubic_root': 4, 'cubic_root_sympy': 4, 'fifth_root': 6, 'fifth_root_sympy': 6,
    'fourth_root_normalised': 4, 'fifth_root_normalised': 5,
}


def cases():
    for name, n in NAMES.items():
        yield {'name': name, 'lead': 0}
        if name in ('cubic_root', 'fifth_root'):
            for lead in range(1, n):
                yield {'name': name, 'lead': lead}
        if name == 'fifth_root_sympy':
            yield {'name': name, 'lead': 1}


@harness(P, params=list(cases()), budget=20)
def polynomial(ctx, name, lead):
    """lead null leading coefficients, then a non null one; w is a root"""
    from Patro.Common.Math import Root
    f = getattr(Root, name)
    n = NAMES[name]
    p = reals(ctx, 'abcdef'[:n])
    for i in range(lead):
        p[i] = 0
    w = ctx.real('w', -N, N)
    full = [1] + p if name.endswith('normalised') else p
    if lead < n - 1 and not name.endswith('normalised'):
        ctx.assume(p[lead] != 0)
    if lead == n - 1:
        # constant
        ctx.is_(list(f(*p)), [], 'constant')
        return
    # the constant term such that w is a root
    full[-1] = -value(full[:-1], w) * w
    p[-1] = full[-1]
    if ctx.symbolic:
        sympy_stub.reset(w)
    roots = list(f(*p))
    if ctx.symbolic:
        for r in roots:
            ctx.eq(value(full, r), 0, 'root')
        ctx.check(member(ctx, w, roots), 'every root')
    else:
        for r in roots:
            ctx.check(abs(value(full, r)) < 1e-6 * (1 + sum(abs(c * r**i) for i, c in enumerate(full[::-1]))), 'root')
        ctx.check(min([abs(w - r) for r in roots], default=9) < 1e-3, 'every root')


@harness(P)
def cubic_formula(ctx):
    """_cubic_root: double and triple roots"""
    from Patro.Common.Math.Root import _cubic_root
    a, u, v = reals(ctx, 'auv')
    ctx.assume(a != 0)
    k = ctx.choose('k', ['double', 'triple'])
    if k == 'triple':
        v = u
    else:
        ctx.assume(u != v)
    p = [a, -a * (2 * u + v), a * (u * u + 2 * u * v), -a * u * u * v]
    try:
        roots = as_list(_cubic_root(*p))
    except NotImplementedError:
        # rounding of the discriminant in floating point arithmetic
        ctx.check(not ctx.symbolic, 'null discriminant')
        return
    ctx.check(member(ctx, u, roots), 'double root')
    ctx.check(member(ctx, v, roots), 'simple root')
