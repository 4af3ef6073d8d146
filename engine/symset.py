"""Sets whose membership is symbolic and whose order of iteration is chosen by the harness."""
CTX = None
GUARD = [True]
ORDER = None        # key function


class guard:
    """The additions to sets in the block are made under a condition"""

    def __init__(self, cond):
        self.cond = cond

    def __enter__(self):
        GUARD.append(self.cond if GUARD[-1] is True else CTX.and_(GUARD[-1], self.cond))

    def __exit__(self, *a):
        GUARD.pop()


class SymSet:

    def __init__(self, items=()):
        self.d = {}     # item -> condition
        for i in items:
            self.add(i)

    def conds(self):
        return self.d.items() if ORDER is None else sorted(self.d.items(), key=lambda kv: ORDER(kv[0]))

    def add(self, x):
        g = GUARD[-1]
        old = self.d.get(x, False)
        if old is True or g is False:
            return
        self.d[x] = g if old is False else CTX.or_(old, g) if g is not True else True

    def __contains__(self, x):
        return bool(self.d.get(x, False))

    def discard(self, x):
        if GUARD[-1] is not True:
            if x in self and GUARD[-1]:
                del self.d[x]
            return
        self.d.pop(x, None)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x, c in self.conds():
            if c:
                self.d.pop(x)
                return x
            self.d[x] = False
        raise KeyError('pop from an empty set')

    def clear(self):
        self.d.clear()

    def __iter__(self):
        n = len(self.d)
        for x, c in list(self.conds()):
            if c:
                yield x
            if len(self.d) != n:
                raise RuntimeError('Set changed size during iteration')

    def __bool__(self):
        return bool(CTX.or_(*self.d.values())) if self.d else False

    def __len__(self):
        return sum(1 for c in self.d.values() if c)

    def copy(self):
        s = SymSet()
        s.d = dict(self.d)
        return s

    def update(self, *others):
        for o in others:
            if isinstance(o, SymSet):
                for x, c in list(o.conds()):
                    with guard(c):
                        self.add(x)
            else:
                for x in o:
                    self.add(x)

    def union(self, *others):
        s = self.copy()
        s.update(*others)
        return s

    def __or__(self, other):
        return self.union(other)

    def __ior__(self, other):
        self.update(other)
        return self

    def difference(self, other):
        return SymSet(x for x in self if x not in other)

    __sub__ = difference

    def intersection(self, other):
        return SymSet(x for x in self if x in other)

    __and__ = intersection

    def __eq__(self, other):
        return all(x in other for x in self) and all(x in self for x in other)

    __hash__ = None
