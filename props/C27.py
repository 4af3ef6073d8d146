"""Counters and identifiers under concurrency."""
import itertools

from engine.harness import harness
from engine import conc
from engine.conc import Conc

try:
    from engine.loader import STUBS
    STUBS['threading'] = conc.MODULE
except ImportError:     # replay
    pass

MODULES = ['Patro.Common.AtomicCounter', 'Patro.Common.Object']
BOUNDS = ('2 or 3 threads, each of one operation (2 threads of 2 operations too), any initial value, any positive increment, any value to set; '
          'every interleaving of the accesses to the attributes of the counter')
ASSUMPTIONS = ['sequential consistency: an access to an attribute is atomic and the accesses are totally ordered (the GIL)']
META = dict(
    title='The atomic counter is linearizable and identifiers are unique',
    statement="""Whatever the interleaving of the threads which use a counter, the results are those of the operations executed one after the other in some order: increment adds its step (1 by default)
    and returns the value which its own increment gave, set gives the counter a larger value, and raises ValueError and changes nothing when the value is not larger. The lock is
    always released. Hence objects which take their identifier from a counter, concurrently or not, have distinct identifiers, and the ones made later in a thread have larger ones; a
    given identifier is kept, and later objects do not reuse it. An object with a checked identifier keeps the identifier given unless the check refuses it, and takes a new one
    only when none is given; a name is a string or None.""",
    quant='all interleavings of the accesses of up to 3 threads, all initial values and steps', over=['schedules', 'inputs'],
    why='a lost update or a value read outside of the lock needs a preemption between two bytecodes, which a test never meets',
    files=['Patro/Common/AtomicCounter.py', 'Patro/Common/Object.py'],
    technique='symbolic execution of each thread; the interleaving (time stamps, reads-from) is a partial-order SMT encoding, z3 decides linearizability',
    mechanism=[('AtomicCounter', 'Patro/Common/AtomicCounter.py'), ('ObjectGlobalIdMixin', 'Patro/Common/Object.py')])
P = 'C27'


def spec(ctx, init, ops, outs, order):
    """The condition that the outcomes are the ones of the operations in this order"""
    v, cond = init, []
    for i in order:
        kind, x = ops[i]
        o = outs[i]
        if kind == 'inc':
            v = v + x
            cond += [ctx.eq_(o.value, v)] if o.exception is None and o.value is not None else [False]
        elif kind == 'int':
            cond += [ctx.eq_(o.value, v)] if o.exception is None and o.value is not None else [False]
        else:
            if o.exception is None:
                cond.append(ctx.lt_(v, x))
                v = x
            else:
                cond.append(o.exception is ValueError and ctx.le_(x, v))
    return ctx.and_(*cond)


def linearizable(ctx, init, ops, outs, before=()):
    cases = []
    for order in itertools.permutations(range(len(ops))):
        if all(order.index(a) < order.index(b) for a, b in before):
            cases.append(spec(ctx, init, ops, outs, order))
    ctx.check(ctx.or_(*cases), 'the results are the ones of the operations in some order')


def operation(counter, kind, x, default):
    if kind == 'inc':
        return counter.increment() if default else counter.increment(x)
    if kind == 'int':
        return counter._value if False else counter.__int__()
    return counter.set(x)


CASES2 = [('inc', 'inc'), ('inc', 'set'), ('set', 'set'), ('inc', 'int'), ('set', 'int')]
CASES3 = [('inc', 'inc', 'inc'), ('inc', 'inc', 'set'), ('inc', 'set', 'set'), ('inc', 'inc', 'int')]


@harness(P, params=[{'kinds': k} for k in CASES2 + CASES3], budget=40, budget_thorough=300)
def concurrent(ctx, kinds):
    from Patro.Common.AtomicCounter import AtomicCounter
    c = Conc(ctx)
    init = ctx.int('init', -5, 5)
    default = ctx.choose('default', [True, False])
    ops = [(k, 1 if k == 'inc' and default else ctx.int(f'x{i}', 1 if k == 'inc' else -10, 10)) for i, k in enumerate(kinds)]
    counter = c.probe(AtomicCounter)(init)
    outs = c.run([lambda k=k, x=x: operation(counter, k, x, default) for k, x in ops], end=lambda: operation(counter, 'inc', 1, True))
    linearizable(ctx, init, ops + [('inc', 1)], outs, before=[(i, len(ops)) for i in range(len(ops))])


@harness(P, params=[{'kinds': k} for k in (('inc', 'inc', 'inc'), ('inc', 'set', 'inc'))], budget=60, budget_thorough=300)
def two_operations(ctx, kinds):
    """a thread makes two operations"""
    from Patro.Common.AtomicCounter import AtomicCounter
    c = Conc(ctx)
    init = ctx.int('init', -5, 5)
    ops = [(k, ctx.int(f'x{i}', 1 if k == 'inc' else -10, 10)) for i, k in enumerate(kinds)]
    counter = c.probe(AtomicCounter)(init)
    results = {}

    def safe(i):
        k, x = ops[i]
        try:
            results[i] = conc.Outcome(operation(counter, k, x, False))
        except ValueError:
            results[i] = conc.Outcome(exception=ValueError)

    def first():
        safe(0)
        safe(1)
    outs = c.run([first, lambda: safe(2)], end=lambda: operation(counter, 'int', 0, True))
    ctx.check(all(o.exception is None for o in outs), 'no other exception')
    outs = [results.get(i, conc.Outcome()) for i in range(3)] + [outs[-1]]
    linearizable(ctx, init, ops + [('int', 0)], outs, before=[(0, 1)] + [(i, 3) for i in range(3)])


@harness(P, params=[{'n': n} for n in (2, 3)], budget=40, budget_thorough=300)
def identifiers(ctx, n):
    """objects made by concurrent threads"""
    from Patro.Common.AtomicCounter import AtomicCounter
    from Patro.Common.Object import ObjectGlobalIdMixin
    c = Conc(ctx)
    counter = c.probe(AtomicCounter)(ctx.int('init', -5, 5))
    given = ctx.choose('given', [False, True])
    x = ctx.int('id', -10, 10)

    class Item(ObjectGlobalIdMixin):
        pass

    def make():
        return Item(counter=counter).id
    first = (lambda: Item(x, counter).id) if given else make
    outs = c.run([first] + [make]*(n-1), end=make)
    for o in outs[1:]:
        ctx.check(o.exception is None, 'no exception')
    if given:
        if outs[0].exception is None:
            ctx.eq(outs[0].value, x, 'the given id is kept')
        else:
            ctx.check(outs[0].exception is ValueError, 'a given id which may have been used is refused')
    else:
        ctx.check(outs[0].exception is None, 'no exception')
    ids = [o.value for o in outs if o.exception is None]
    for i in range(len(ids)):
        for j in range(i):
            ctx.check(ctx.not_(ctx.eq_(ids[i], ids[j])), 'the identifiers are distinct')
    for v in ids[:-1]:
        ctx.check(ctx.lt_(v, ids[-1]), 'a later object has a larger identifier')


@harness(P)
def shared_counter(ctx):
    """the default counter is shared by the subclasses"""
    from Patro.Common.Object import ObjectGlobalIdMixin

    class A(ObjectGlobalIdMixin):
        pass

    class B(A):
        pass
    a, b, c = A(), B(), ObjectGlobalIdMixin()
    ctx.check(a.id < b.id < c.id, 'distinct identifiers in the order of creation')
    ctx.check(a.__int__() == a.id, 'int')
    k = ctx.int('k', 1, 20)
    d = A(b.id + 1 + k)
    ctx.eq(d.id, b.id + 1 + k, 'given id')
    e = B()
    ctx.check(ctx.lt_(d.id, e.id), 'a later object does not reuse a given identifier')
    bad = ctx.int('bad', -3, 0)
    ctx.raises(ValueError, lambda: A(e.id + bad), 'an identifier which may be used is refused')
    f = A()
    ctx.check(ctx.lt_(e.id, f.id), 'the counter still increases after an error')


@harness(P)
def checked_id(ctx):
    """an identifier is checked when it is given and made otherwise"""
    from Patro.Common.Object import ObjectCkeckedIdMixin
    k = ctx.int('k', -5, 5)
    limit = ctx.int('limit', -5, 5)
    made, seen = [], []

    class Item(ObjectCkeckedIdMixin):

        def new_id(self):
            made.append(100 + len(made))
            return made[-1]

        def check_id(self, id):
            seen.append(id)
            if id < limit:
                raise ValueError(id)
    for i in range(2):
        ctx.is_(Item().id, 100 + i, 'a new identifier')
    ctx.is_((made, seen), ([100, 101], []), 'no check of a new identifier')
    try:
        item = Item(k)
    except ValueError:
        ctx.lt(k, limit, 'refused only by the check')
    else:
        ctx.le(limit, k, 'kept when the check accepts it')
        ctx.eq(item.id, k, 'the identifier is the given one')
        ctx.eq(item.__int__(), k, 'int')
    ctx.is_(len(made), 2, 'no identifier made when one is given')
    ctx.eq(seen, [k], 'the given identifier is checked')
    ctx.eq(ObjectCkeckedIdMixin(k).id, k, 'nothing refused by default')
    ctx.raises(NotImplementedError, lambda: ObjectCkeckedIdMixin(), 'no default for new identifiers')


@harness(P)
def names(ctx):
    """the name of an object"""
    from Patro.Common.Object import ObjectNameMixin
    n = ctx.choose('name', [None, 'A', '', 12])
    o = ObjectNameMixin(n)
    ctx.is_(o.name, n if n is None else str(n), 'name')
    m = ctx.choose('other', [None, 'B', '', 0])
    o.name = m
    ctx.is_(o.name, m if m is None else str(m), 'changed name')
    if m:
        ctx.is_(str(o), m, 'str')
