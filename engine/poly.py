"""Sparse multivariate polynomials over Q, with optional reduction rules for algebraic atoms.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of (variable, exponent)
pairs.  Reduction rules (owned by the current symbolic path) rewrite var**n -> polynomial in
earlier variables (sqrt, sin, cube root ... atoms).
"""
from fractions import Fraction

ONE_M = ()


class PolyOverflow(Exception):
    pass


MAX_TERMS = 6000

# rules: var -> (power, Poly)   (set by the active path)
_rules = {}


def set_rules(rules):
    global _rules
    _rules = rules


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    na, nb = len(a), len(b)
    while i < na and j < nb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _mono_div(a, b):
    """a / b or None"""
    if not b:
        return a
    da = dict(a)
    for v, e in b:
        ea = da.get(v, 0)
        if ea < e:
            return None
        if ea == e:
            del da[v]
        else:
            da[v] = ea - e
    return tuple(sorted(da.items()))


def _mono_key(m):
    # lexicographic order on variables (higher variable index first)
    return tuple(sorted(((v, e) for v, e in m), reverse=True))


class Poly:

    __slots__ = ('t', '_h')

    def __init__(self, terms):
        self.t = terms
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        return Poly({ONE_M: c}) if c != 0 else Poly({})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    # -- predicates
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const_value(self):
        return self.t.get(ONE_M, 0)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, other):
        return other is not None and self.t == other.t

    def __hash__(self):
        return hash(self.key())

    def variables(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    # -- arithmetic
    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly({})
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        if len(self.t) * len(o.t) > 40 * MAX_TERMS:
            raise PolyOverflow(f'product of {len(self.t)} and {len(o.t)} terms')
        r = {}
        for ma, ca in self.t.items():
            for mb, cb in o.t.items():
                m = _mono_mul(ma, mb)
                v = r.get(m, 0) + ca * cb
                r[m] = v
        r = {m: (c if not (isinstance(c, Fraction) and c.denominator == 1) else c.numerator)
             for m, c in r.items() if c != 0}
        if len(r) > MAX_TERMS:
            raise PolyOverflow(f'{len(r)} terms')
        return Poly(r).reduced()

    def __pow__(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def reduced(self):
        """Apply the algebraic rules var**n -> poly."""
        rules = _rules
        if not rules:
            return self
        cur = self
        for _ in range(64):
            hit = None
            for m in cur.t:
                for v, e in m:
                    rl = rules.get(v)
                    if rl is not None and e >= rl[0]:
                        if hit is None or v > hit:
                            hit = v
            if hit is None:
                return cur
            n, p = rules[hit]
            # group terms by the exponent of hit
            groups = {}
            for m, c in cur.t.items():
                e = 0
                rest = m
                for i, (v, ex) in enumerate(m):
                    if v == hit:
                        e = ex
                        rest = m[:i] + m[i + 1:]
                        break
                q, rem = divmod(e, n)
                if rem:
                    rest = _mono_mul(rest, ((hit, rem),))
                g = groups.setdefault(q, {})
                g[rest] = g.get(rest, 0) + c
            acc = Poly({})
            pq = Poly.const(1)
            last = 0
            for q in sorted(groups):
                for _i in range(q - last):
                    pq = pq * p
                last = q
                gp = Poly({m: c for m, c in groups[q].items() if c != 0})
                acc = acc + _raw_mul(gp, pq)
            cur = acc
        return cur

    # -- exact division
    def exact_div(self, d, limit=400):
        """self / d when exact, else None."""
        if d.is_const():
            return self.scale(Fraction(1) / d.const_value())
        if not self.t:
            return self
        if len(d.t) == 1:
            (dm, dc), = d.t.items()
            r = {}
            for m, c in self.t.items():
                q = _mono_div(m, dm)
                if q is None:
                    return None
                r[q] = _q(c, dc)
            return Poly(r)
        if len(self.t) < len(d.t) or len(self.t) > limit or not d.variables() <= self.variables():
            return None
        lead_d = max(d.t, key=_mono_key)
        cd = d.t[lead_d]
        rem = dict(self.t)
        quo = {}
        steps = 0
        while rem:
            steps += 1
            if steps > limit:
                return None
            lead = max(rem, key=_mono_key)
            qm = _mono_div(lead, lead_d)
            if qm is None:
                return None
            qc = _q(rem[lead], cd)
            quo[qm] = qc
            for m, c in d.t.items():
                mm = _mono_mul(m, qm)
                v = rem.get(mm, 0) - c * qc
                if v == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = v
        return Poly(quo)

    def content(self):
        """(coefficient gcd-ish normaliser, common monomial)"""
        common = None
        for m in self.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {v: min(e, d[v]) for v, e in common.items() if v in d}
            if not common:
                break
        return tuple(sorted((common or {}).items()))

    def div_mono(self, m):
        return Poly({_mono_div(k, m): c for k, c in self.t.items()})

    def evalf(self, env):
        s = 0
        for m, c in self.t.items():
            p = c
            for v, e in m:
                p = p * env[v] ** e
            s = s + p
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        return ' + '.join(f"{c}" + ''.join(f"*v{v}" + (f"^{e}" if e > 1 else '') for v, e in m)
                          for m, c in self.t.items())


def _q(a, b):
    r = Fraction(a) / Fraction(b)
    return r.numerator if r.denominator == 1 else r


def _raw_mul(a, b):
    if not a.t or not b.t:
        return Poly({})
    r = {}
    for ma, ca in a.t.items():
        for mb, cb in b.t.items():
            m = _mono_mul(ma, mb)
            r[m] = r.get(m, 0) + ca * cb
    if len(r) > MAX_TERMS:
        raise PolyOverflow(f'{len(r)} terms')
    return Poly({m: c for m, c in r.items() if c != 0})
