"""Singletons under concurrency."""
from engine.harness import harness
from engine import conc
from engine.conc import Conc

try:
    from engine.loader import STUBS
    STUBS['threading'] = conc.MODULE
except ImportError:     # replay
    pass

MODULES = ['Patro.Common.Singleton']
BOUNDS = '2 or 3 threads (4 in the thorough tier), 1 or 2 instantiations in each; a class and its subclass; every interleaving of the accesses to the attributes of the class'
ASSUMPTIONS = ['sequential consistency: an access to an attribute is atomic and the accesses are totally ordered (the GIL)']
META = dict(
    title='A singleton class has one instance, whatever the threads that ask for it',
    statement="""Whatever the interleaving of the threads which instantiate a class whose metaclass is SingletonMetaClass, all of them get the same completely initialised instance, its constructor
    is run once, and the lock is released, even when a constructor fails (the next call then tries again). A subclass has its own instance, of its own class. A class decorated by singleton or
    singleton_func gives the same instance at each call, made with the arguments of the first one. The instances of a monostate class are distinct but share their attributes.""",
    quant='all interleavings of the accesses of up to 3 threads, all arguments', over=['schedules', 'inputs'],
    why='two threads which both find that there is no instance need a preemption at one place, which a test never meets',
    files=['Patro/Common/Singleton.py'],
    technique='symbolic execution of each thread; the interleaving (time stamps, reads-from) is a partial-order SMT encoding, z3 decides the assertions',
    mechanism=[('SingletonMetaClass, singleton, monostate', 'Patro/Common/Singleton.py')])
P = 'C34'


class Made(list):
    pass


def make_class(meta, made, base=object, fails=()):
    class Thing(base, metaclass=meta):
        def __init__(self, *args):
            made.append((type(self), args))
            if len(made) in fails:
                raise ValueError
            self.__dict__['args'] = args
    return Thing


@harness(P, params=[{'n': 2}, {'n': 3}, {'n': 4, '_tier': 'thorough'}], budget=60, budget_thorough=400)
def metaclass(ctx, n):
    from Patro.Common.Singleton import SingletonMetaClass
    c = Conc(ctx)
    made = []
    cls = make_class(c.probe_metaclass(SingletonMetaClass), made)
    outs = c.run([lambda i=i: cls(i) for i in range(n)], end=(lambda: cls('end')) if n == 2 else None)
    ctx.check(all(o.exception is None for o in outs), 'no exception')
    ctx.check(len({id(o.value) for o in outs}) == 1, 'all the calls return the same instance')
    ctx.check(len(made) == 1, 'the constructor is run once')
    ctx.check(type(outs[0].value) is cls, 'its class')


@harness(P, budget=60, budget_thorough=400)
def two_calls(ctx):
    """a thread asks for the instance twice"""
    from Patro.Common.Singleton import SingletonMetaClass
    c = Conc(ctx)
    made = []
    cls = make_class(c.probe_metaclass(SingletonMetaClass), made)
    outs = c.run([lambda: [cls(0), cls(1)], lambda: cls(2)])
    ctx.check(all(o.exception is None for o in outs), 'no exception')
    a, b = [c.resolve(x) for x in outs[0].value]
    ctx.check(a is b and a is outs[1].value, 'all the calls return the same instance')
    ctx.check(len(made) == 1, 'the constructor is run once')


@harness(P, budget=60, budget_thorough=400)
def failing_constructor(ctx):
    """the first constructor fails"""
    from Patro.Common.Singleton import SingletonMetaClass
    c = Conc(ctx)
    made = []
    cls = make_class(c.probe_metaclass(SingletonMetaClass), made, fails=(1,))
    outs = c.run([lambda: cls(0), lambda: cls(1)], end=lambda: cls(2))
    errors = [o for o in outs if o.exception is not None]
    ctx.check(len(errors) == 1 and errors[0].exception is ValueError, 'the failure is reported once')
    ctx.check(len({id(o.value) for o in outs if o.exception is None}) == 1, 'then all the calls return the same instance')
    ctx.check(len(made) == 2, 'the constructor is run again once')
    ctx.check(outs[-1].exception is None, 'the class can be used')


@harness(P, params=[{'order': o} for o in ('base first', 'subclass first', 'subclass made after')])
def subclass(ctx, order):
    from Patro.Common.Singleton import SingletonMetaClass
    made = []
    base = make_class(SingletonMetaClass, made)
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)
    if order == 'subclass made after':
        a = base(x)
        sub = make_class(SingletonMetaClass, made, base)
        b = sub(y)
    else:
        sub = make_class(SingletonMetaClass, made, base)
        if order == 'base first':
            a = base(x)
            b = sub(y)
        else:
            b = sub(y)
            a = base(x)
    other = make_class(SingletonMetaClass, made)
    o = other(x, y)
    ctx.check(type(a) is base and type(b) is sub and type(o) is other, 'each class has an instance of its own')
    ctx.eq(a.args[0], x, 'arguments')
    ctx.eq(b.args[0], y, 'arguments of the subclass')
    ctx.check(base(y) is a and sub(x) is b and other() is o, 'the same instances afterwards')
    ctx.eq(a.args[0], x, 'the instance is not initialised again')
    ctx.check(len(made) == 3, 'constructors')


@harness(P, params=[{'kind': k} for k in ('singleton', 'singleton_func')])
def decorators(ctx, kind):
    from Patro.Common import Singleton
    deco = getattr(Singleton, kind)
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)
    made = []

    @deco
    class A:
        def __init__(self, v, w=None):
            made.append(v)
            self.v, self.w = v, w

    @deco
    class B(object):
        def __init__(self, v):
            self.v = v
    a = A(x, w=y)
    b = B(y)
    ctx.check(A(y) is a and A(y, w=x) is a and B(x) is b and a is not b, 'the same instance for each class')
    ctx.eq([a.v, a.w, b.v], [x, y, y], 'made with the arguments of the first call')
    ctx.check(len(made) == 1, 'the constructor is run once')


@harness(P, params=[{'kind': k} for k in ('singleton', 'singleton_func', 'metaclass')])
def falsy(ctx, kind):
    """instances which are false or equal to None"""
    from Patro.Common import Singleton
    made = []
    falses = ctx.choose('false', ['len', 'bool', 'eq'])

    class A(**dict(metaclass=Singleton.SingletonMetaClass) if kind == 'metaclass' else {}):
        def __init__(self, v):
            made.append(v)
            self.v = v

        def __bool__(self):
            return falses != 'bool'

        def __eq__(self, other):
            return falses == 'eq'
        __hash__ = None
    if falses == 'len':
        del A.__bool__
        A.__len__ = lambda self: 0
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)
    f = A if kind == 'metaclass' else getattr(Singleton, kind)(A)
    a = f(x)
    ctx.check(f(y) is a and f(y) is a, 'the same instance')
    ctx.eq(a.v, x, 'made once')
    ctx.check(len(made) == 1, 'the constructor is run once')


@harness(P)
def monostates(ctx):
    from Patro.Common.Singleton import monostate
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)

    class State(monostate):
        def __init__(self, v):
            self.v = v
    a = State(x)
    ctx.eq(a.v, x, 'state')
    b = State(y)
    ctx.check(a is not b, 'distinct objects')
    ctx.eq([a.v, b.v], [y, y], 'shared state')
    a.w = x
    ctx.eq(b.w, x, 'a new attribute is shared')
