"""Iteration tools and scalar functions."""
from engine.harness import harness

MODULES = ['Patro.Common.IterTools', 'Patro.Common.Math.Functions']
BOUNDS = 'sequences of up to 5 symbolic items (lists and tuples), windows of up to 6 items; all numbers of magnitude <= 100'
BOUNDS += '; also sequences of twelve items'
META = dict(
    title='Iteration over pairs, windows and closed sequences; scalar helper functions',
    statement="""pairwise gives the consecutive pairs of a sequence, closed_pairwise also the pair of the last and first items, closed_iterator all the items and the first one again, multiwise(n) all the windows of
    n consecutive items (none when n is larger than the sequence), closed_multiwise_index_iterator the windows of n indices modulo the length. The sequence is not modified. rint is the nearest integer,
    ceil_int the least integer which is not less, middle the mean, cmp and sign the comparison and the sign (1 for zero), trignometric_clamp the nearest number of [-1, 1],
    is_in_trignometric_range and epsilon_float the closed interval tests that they name.""",
    quant='all items, all lengths and windows in the bounds, all numbers',
    why='the edges of polygons and the clamped cosines come from these functions; tests sample a few numbers',
    files=['Patro/Common/IterTools.py', 'Patro/Common/Math/Functions.py'],
    mechanism=[('pairwise, multiwise', 'Patro/Common/IterTools.py'), ('sign, trignometric_clamp', 'Patro/Common/Math/Functions.py')])
P = 'C28'


def items(ctx, n):
    v = [ctx.real(f'v{i}', -100, 100) for i in range(n)]
    return v, tuple(v) if ctx.choose('type', ['list', 'tuple']) == 'tuple' else list(v)


def same(ctx, got, want, label):
    got = [list(x) if isinstance(x, (list, tuple)) else [x] for x in got]
    ctx.check([len(x) for x in got] == [len(x) for x in want], label + ': lengths')
    for a, b in zip(got, want):
        if a:
            ctx.eq(a, b, label)


@harness(P, params=[{'n': n} for n in (1, 2, 3, 4, 5, 12)])
def iterators(ctx, n):
    from Patro.Common import IterTools as I
    v, s = items(ctx, n)
    same(ctx, I.closed_iterator(s), [[x] for x in v + v[:1]], 'closed_iterator')
    same(ctx, I.pairwise(s), [v[i:i+2] for i in range(n-1)], 'pairwise')
    same(ctx, I.closed_pairwise(s), [[v[i], v[(i+1) % n]] for i in range(n)], 'closed_pairwise')
    for k in range(0, 7):
        same(ctx, I.multiwise(s, k), [v[i:i+k] for i in range(n-k+1)] if k else [], 'multiwise')
        if k:
            ctx.check([list(x) for x in I.closed_multiwise_index_iterator(n, k)] == [[(i+j) % n for j in range(k)] for i in range(n)], 'closed_multiwise_index_iterator')
    same(ctx, I.multiwise(s), [v[i:i+2] for i in range(n-1)], 'multiwise by default')
    same(ctx, I.multiwise(iter(s), 3), [v[i:i+3] for i in range(n-2)], 'multiwise of an iterator')
    ctx.check([list(x) for x in I.closed_multiwise_index_iterator(n)] == [[i, (i+1) % n] for i in range(n)], 'closed_multiwise_index_iterator by default')
    ctx.eq(list(s), v, 'the sequence is not modified')


@harness(P)
def functions(ctx):
    from Patro.Common.Math import Functions as F
    x, y = ctx.real('x', -100, 100), ctx.real('y', -100, 100)
    ctx.eq(F.middle(x, y), (x + y)/2, 'middle')
    c = F.cmp(x, y)
    ctx.check_iff(c == 1, ctx.lt_(y, x), 'cmp 1')
    ctx.check_iff(c == -1, ctx.lt_(x, y), 'cmp -1')
    ctx.check(c in (-1, 0, 1), 'cmp')


@harness(P)
def signs(ctx):
    from Patro.Common.Math import Functions as F
    x = ctx.real('x', -100, 100)
    s = F.sign(x)
    ctx.check_iff(ctx.eq_(s, 1), ctx.le_(0, x), 'sign 1')
    ctx.check_iff(ctx.eq_(s, -1), ctx.lt_(x, 0), 'sign -1')


@harness(P)
def rounding(ctx):
    from Patro.Common.Math import Functions as F
    x = ctx.real('x', -100, 100)
    r = F.rint(x)
    ctx.check(isinstance(r, int) or ctx.symbolic, 'an integer')
    ctx.check(ctx.and_(ctx.le_(r - .5, x), ctx.le_(x, r + .5)), 'rint')


@harness(P)
def ceiling(ctx):
    from Patro.Common.Math import Functions as F
    x = ctx.real('x', -100, 100)
    r = F.ceil_int(x)
    ctx.check(ctx.and_(ctx.lt_(r - 1, x), ctx.le_(x, r)), 'ceil_int')
    n = ctx.int('n', -50, 50)
    ctx.eq(F.ceil_int(n), n, 'ceil_int of an integer')
    ctx.eq(F.rint(n), n, 'rint of an integer')


@harness(P)
def ranges(ctx):
    from Patro.Common.Math import Functions as F
    x = ctx.real('x', -100, 100)
    c = F.trignometric_clamp(x)
    ctx.check(ctx.and_(ctx.le_(-1, c), ctx.le_(c, 1)), 'in the range')
    inside = ctx.and_(ctx.le_(-1, x), ctx.le_(x, 1))
    ctx.check(ctx.implies(inside, ctx.eq_(c, x)), 'a number of the range is kept')
    ctx.check(ctx.implies(ctx.lt_(1, x), ctx.eq_(c, 1)), 'above')
    ctx.check(ctx.implies(ctx.lt_(x, -1), ctx.eq_(c, -1)), 'below')
    ctx.check_iff(F.is_in_trignometric_range(x), inside, 'is_in_trignometric_range')


@harness(P)
def epsilon(ctx):
    from Patro.Common.Math import Functions as F
    x, d, e = ctx.real('x', -100, 100), ctx.real('d', -10, 10), ctx.real('e', 0, 10)
    ctx.check_iff(F.epsilon_float(x, x + d, e), ctx.and_(ctx.le_(d, e), ctx.le_(-e, d)), 'epsilon_float')
    ctx.check_iff(F.epsilon_float(x, x + d), ctx.and_(ctx.le_(d, .001), ctx.le_(-.001, d)), 'epsilon_float by default')
