"""Concurrent executions of the real code, encoded by partial orders.

Symbolically, each thread is executed on its own by the symbolic executor.  Every access to an attribute of a probed object
and every acquisition/release of a lock is an event with a symbolic time stamp, and a read returns an unknown
value.  close() then constrains the whole: program order, mutual exclusion of the critical sections, and each
read returns the value of the last write before it.  The assertions which follow are decided for every schedule.

Concretely (replay), the threads are real threads whose accesses are executed in the order of the time stamps of
the model.
"""
import threading as real_threading
import types

try:
    from .sym import SymReal, Unsupported
except ImportError:     # replay: no solver
    SymReal, Unsupported = (), RuntimeError

CURRENT = None      # the Conc of the running path


class LockStub:

    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        c = CURRENT
        if c is None or c.tid is None:
            return True
        if not blocking or timeout != -1:
            raise Unsupported('lock with a timeout')
        if self.owner == c.tid:
            if not self.reentrant:
                c.ctx.fail('the operations end', 'a thread waits for a lock which it holds')
            self.depth += 1
            return True
        self.owner, self.depth = c.tid, 1
        c.event('acq', self)
        return True

    def release(self):
        c = CURRENT
        if c is None or c.tid is None:
            return
        if self.owner != c.tid:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None
            c.event('rel', self)

    def locked(self):
        raise Unsupported('Lock.locked')

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLockStub(LockStub):
    reentrant = True


def _unsupported(name):
    def f(*a, **k):
        raise Unsupported('threading.' + name)
    return f


class _Threading(types.ModuleType):
    Lock = LockStub
    RLock = RLockStub

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('Semaphore', 'BoundedSemaphore', 'Condition', 'Event', 'local', 'Barrier'):
            return _unsupported(name)
        return getattr(real_threading, name)


MODULE = _Threading('threading')


class Foreign:

    """The object stored by the k-th write of another thread"""

    def __init__(self, tid, k):
        self.__dict__.update(tid=tid, k=k)

    def __getattr__(self, name):
        raise Unsupported('access to the object of another thread')


class Outcome:

    def __init__(self, value=None, exception=None):
        self.value, self.exception = value, exception


def is_lock(x):
    return isinstance(x, (LockStub, type(real_threading.Lock()), type(real_threading.RLock())))


class Conc:

    def __init__(self, ctx, max_foreign=1):
        global CURRENT
        CURRENT = self
        self.ctx, self.max_foreign = ctx, max_foreign
        self.tid = None
        self.events = {}        # tid -> [(kind, loc, value, clock)]
        self.init = {}          # loc -> value
        self.keep = []
        self.schedule = None
        self.local = real_threading.local()

    # -- probes ----------------------------------------------------------------------------------

    def me(self):
        return self.tid if self.ctx.symbolic else getattr(self.local, 'tid', None)

    def read(self, obj, name, raw):
        """raw() returns the actual value"""
        tid = self.me()
        if tid is None:
            return raw()
        if not self.ctx.symbolic:
            return self.gated(tid, raw)
        value = raw()
        if is_lock(value) or callable(value) and not isinstance(value, type):
            return value
        loc = (id(obj), name)
        self.keep.append(obj)
        init = self.init.setdefault(loc, value)
        n = sum(len(e) for e in self.events.values())
        if isinstance(init, (int, float, SymReal)) and not isinstance(init, bool):
            got = self.ctx.real(f'read_{tid}_{name}_{n}')
        else:
            own = [v for k, l, v, c in self.events.get(tid, ()) if k == 'w' and l == loc]
            foreign = [Foreign(t, k) for t in self.tids if t != tid for k in range(self.max_foreign)]
            foreign = [f for f in foreign if f.tid > tid or f.k < self.writes(f.tid)]      # the previous threads are executed already
            got = self.ctx.choose(f'read_{tid}_{name}_{n}', [init] + own[-1:] + foreign)
        self.event('r', loc, got)
        return got

    def write(self, obj, name, value, raw):
        """raw() writes"""
        tid = self.me()
        if tid is None:
            return raw()
        if not self.ctx.symbolic:
            return self.gated(tid, raw)
        loc = (id(obj), name)
        self.keep.append(obj)
        if loc not in self.init:
            try:
                self.init[loc] = object.__getattribute__(obj, name) if not isinstance(obj, type) else type.__getattribute__(obj, name)
            except AttributeError:
                raise Unsupported('attribute created by a thread')
        self.event('w', loc, value)

    def event(self, kind, loc, value=None):
        e = self.events.setdefault(self.tid, [])
        e.append((kind, loc, value, self.ctx.real(f'clk_{self.tid}_{len(e)}_{kind}')))

    def probe(self, cls):
        """A subclass of cls (a class of the code under test) whose instance attributes are probed"""
        conc = self

        class Probe(cls):
            def __getattribute__(self, name):
                raw = lambda: super(Probe, self).__getattribute__(name)
                if name.startswith('__') or name not in super(Probe, self).__getattribute__('__dict__'):
                    return raw()
                return conc.read(self, name, raw)

            def __setattr__(self, name, value):
                return conc.write(self, name, value, lambda: super(Probe, self).__setattr__(name, value))

        Probe.__name__ = cls.__name__
        return Probe

    def probe_metaclass(self, meta):
        """A subclass of the metaclass whose classes have probed attributes"""
        conc = self

        class Probe(meta):
            def __getattribute__(cls, name):
                raw = lambda: super(Probe, cls).__getattribute__(name)
                if name.startswith('__') or name not in super(Probe, cls).__getattribute__('__dict__'):
                    return raw()
                return conc.read(cls, name, raw)

            def __setattr__(cls, name, value):
                return conc.write(cls, name, value, lambda: super(Probe, cls).__setattr__(name, value))

        return Probe

    # -- executions ------------------------------------------------------------------------------

    def run(self, fns, end=None):
        """Run the functions as concurrent threads, then *end*; return their outcomes"""
        self.tids = list(range(len(fns)))
        if self.ctx.symbolic:
            out = []
            for t, f in enumerate(fns):
                out.append(self.one(t, f))
            if end is not None:
                out.append(self.one(len(fns), end))
            self.close(len(fns))
            for o in out:
                o.value = self.resolve(o.value)
            return out
        return self.run_real(fns, end)

    def one(self, t, f):
        self.tid = t
        self.events.setdefault(t, [])
        try:
            o = Outcome(f())
        except (ValueError, TypeError, AttributeError, RuntimeError, KeyError) as e:
            if isinstance(e, Unsupported):
                raise
            o = Outcome(exception=type(e))
        finally:
            self.tid = None
        held = {id(l): l for k, l, v, c in self.events[t] if k == 'acq'}
        for l in held.values():
            if l.owner == t:
                self.ctx.fail('the operations end', 'a thread ends with a lock')
        return o

    def writes(self, tid):
        return sum(k == 'w' for k, l, v, c in self.events.get(tid, ()))

    def plausible(self):
        """Quick necessary conditions for the reads of objects"""
        for t, es in self.events.items():
            written = {}
            for k, l, v, c in es:
                if k == 'w':
                    written[l] = v
                elif k == 'r' and not isinstance(v, (int, float, SymReal)):
                    if isinstance(v, Foreign):
                        if v.k >= self.writes(v.tid):
                            return False
                    elif l in written and written[l] is not v:
                        if not any(k2 == 'w' and l2 == l and v2 is v for e2 in self.events.values() for k2, l2, v2, c2 in e2):
                            return False
        return True

    def resolve(self, v):
        if isinstance(v, Foreign):
            ws = [x for k, l, x, c in self.events.get(v.tid, ()) if k == 'w']
            return ws[v.k] if v.k < len(ws) else v
        return v

    def same(self, a, b):
        if isinstance(a, (int, float, SymReal)) and isinstance(b, (int, float, SymReal)):
            return self.ctx.eq_(a, b)
        return self.resolve(a) is self.resolve(b)

    def close(self, end):
        ctx, ev = self.ctx, self.events
        if not self.plausible():
            ctx.assume(False)
        lt = ctx.lt_
        conds = []
        # program order; the end is after all the threads
        for t, es in ev.items():
            prev = None
            for e in es:
                conds.append(lt(0, e[3]))
                if prev is not None:
                    conds.append(lt(prev, e[3]))
                prev = e[3]
        for t, es in ev.items():
            if t != end and es and ev.get(end):
                conds.append(lt(es[-1][3], ev[end][0][3]))
        flat = [(t, i, e) for t, es in ev.items() for i, e in enumerate(es)]
        for a in range(len(flat)):
            for b in range(a):
                if flat[a][0] != flat[b][0] and end not in (flat[a][0], flat[b][0]):
                    conds.append(ctx.or_(lt(flat[a][2][3], flat[b][2][3]), lt(flat[b][2][3], flat[a][2][3])))
        # critical sections
        sections = []
        for t, es in ev.items():
            opened = {}
            for k, l, v, c in es:
                if k == 'acq':
                    opened[id(l)] = c
                elif k == 'rel':
                    sections.append((t, id(l), opened.pop(id(l)), c))
        for a in range(len(sections)):
            for b in range(a):
                (t, l, c0, c1), (u, m, d0, d1) = sections[a], sections[b]
                if l == m and t != u:
                    conds.append(ctx.or_(lt(c1, d0), lt(d1, c0)))
        # reads
        writes = [e for t, i, e in flat if e[0] == 'w']
        for t, i, e in flat:
            if e[0] != 'r':
                continue
            ws = [w for w in writes if w[1] == e[1]]
            cases = [ctx.and_(self.same(self.init[e[1]], e[2]), *[lt(e[3], w[3]) for w in ws])]
            for w in ws:
                cases.append(ctx.and_(self.same(w[2], e[2]), lt(w[3], e[3]),
                                      *[ctx.or_(lt(x[3], w[3]), lt(e[3], x[3])) for x in ws if x is not w]))
            conds.append(ctx.or_(*cases))
        ctx.assume(ctx.and_(*conds))

    # -- replay ----------------------------------------------------------------------------------

    def run_real(self, fns, end):
        order = []
        for name, v in self.ctx.inputs.items():
            if name.startswith('clk_'):
                _, t, i, kind = name.split('_')
                if kind in 'rw' and int(t) < len(fns):
                    order.append((float(v), int(t)))
        self.schedule = [t for _, t in sorted(order)]
        self.cond = real_threading.Condition()
        self.done = set()
        out = [None]*len(fns)

        def thread(t, f):
            self.local.tid = t
            try:
                out[t] = Outcome(f())
            except Exception as e:
                out[t] = Outcome(exception=type(e))
            with self.cond:
                self.schedule = [x for x in self.schedule if x != t]
                self.cond.notify_all()

        ts = [real_threading.Thread(target=thread, args=a, daemon=True) for a in enumerate(fns)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(5)
        if None in out:
            self.ctx.fail('the operations end', 'a thread does not end')
        if end is not None:
            out.append(None)
            n = len(fns)

            def last():
                try:
                    out[n] = Outcome(end())
                except Exception as e:
                    out[n] = Outcome(exception=type(e))
            t = real_threading.Thread(target=last, daemon=True)
            t.start()
            t.join(5)
            if out[n] is None:
                self.ctx.fail('the operations end', 'a thread does not end')
        return out

    def gated(self, tid, raw):
        with self.cond:
            self.cond.wait_for(lambda: not self.schedule or self.schedule[0] == tid or tid not in self.schedule, timeout=2)
            value = raw()
            if tid in self.schedule and not is_lock(value):
                self.schedule.remove(tid)
            self.cond.notify_all()
        return value
