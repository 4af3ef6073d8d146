"""Symbolic context, path exploration, counterexample search and replay; property runner."""
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import sym as S
from .harness import BaseCtx, HARNESSES
from .poly import Poly, PolyOverflow
from .sym import PathAbort, Run, SymBool, SymReal, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = None


class StopHarness(BaseException):
    pass


class NonTermination(BaseException):
    pass


_WATCH = [0, -1]


def _watchdog(signum, frame):
    """each second of CPU: is the code looping without asking anything to the solver?"""
    if S.STATS.queries != _WATCH[1]:
        _WATCH[:] = [0, S.STATS.queries]
        return
    _WATCH[0] += 1
    import resource
    if _WATCH[0] >= 15 or _WATCH[0] >= 3 and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 3 << 20:
        _WATCH[0] = 0
        raise NonTermination()


def _watchdog_start():
    import signal
    _WATCH[:] = [0, -1]
    signal.signal(signal.SIGVTALRM, _watchdog)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1, 1)


def _watchdog_stop():
    import signal
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


MARGIN = Fraction(os.environ.get('VERIF_MARGIN', '2/100000'))     # violations under it are rounding tolerances of the code


class SymCtx(BaseCtx):

    symbolic = True

    def __init__(self, run, task):
        self.run, self.task = run, task
        self.checks = 0

    # -- inputs ------------------------------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        if name in self.run.inputs:
            raise Unsupported(f'input {name} declared twice')
        v = self.run.new_var(name, 'input')
        x = SymReal(Poly.var(v))
        self.run.inputs[name] = ('real', v)
        if lo is not None:
            self.run.add_side(self.run.vars[v].z >= z3.RealVal(str(S.to_fraction(lo))))
            if lo >= 0:
                self.run.vars[v].nonneg = True
        if hi is not None:
            self.run.add_side(self.run.vars[v].z <= z3.RealVal(str(S.to_fraction(hi))))
        return x

    def int(self, name, lo, hi):
        if name in self.run.inputs:
            raise Unsupported(f'input {name} declared twice')
        v = self.run.new_var(name, 'input', is_int=True)
        self.run.inputs[name] = ('int', v)
        self.run.add_side(self.run.vars[v].z >= lo)
        self.run.add_side(self.run.vars[v].z <= hi)
        return SymReal(Poly.var(v))

    def angle(self, name, lo=-360, hi=360):
        """angle in degrees with exact cosine/sine atoms"""
        t = self.real(name, lo, hi)
        v = self.run.inputs[name][1]
        key = tuple(sorted(((S.PI_VAR, 1), (v, 1))))
        c, s = S.new_trig_atom(key, Fraction(1, 180))
        cz, sz, tz = S.zb(c >= 0), None, self.run.vars[v].z
        c_, s_ = c.z(), s.z()
        k0, k1 = int(lo // 90), int(-(-hi // 90))
        quad = [(c_ > 0, s_ > 0), (c_ < 0, s_ > 0), (c_ < 0, s_ < 0), (c_ > 0, s_ < 0)]
        exact = [(1, 0), (0, 1), (-1, 0), (0, -1)]
        for k in range(k0, k1 + 1):
            a, b = quad[k % 4]
            self.run.add_side(z3.Implies(z3.And(tz > 90 * k, tz < 90 * (k + 1)), z3.And(a, b)))
            ec, es = exact[k % 4]
            self.run.add_side(z3.Implies(tz == 90 * k, z3.And(c_ == ec, s_ == es)))
        self.run.inputs[name] = ('angle', v, (c, s))
        return t

    def bool(self, name):
        b = z3.Bool('b_' + name)
        self.run.inputs[name] = ('bool', b)
        return SymBool(b)

    def choose(self, name, options):
        options = list(options)
        r = self.run
        n = len(r.taken)
        if n < len(r.prefix):
            d = r.prefix[n]
            r.taken.append(d)
            i = d[1]
        else:
            i = 0
            for j in range(len(options) - 1, 0, -1):
                r.pending.append(r.taken + [('c', j)])
            r.taken.append(('c', 0))
        r.choices[name] = i
        return options[i]

    # -- conditions --------------------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.run.assume(cond.z)
        elif isinstance(cond, SymReal):
            self.run.assume(S.zb(cond != 0))
        elif not cond:
            raise PathAbort('assumption')

    def le_(self, a, b):
        return a <= b

    def lt_(self, a, b):
        return a < b

    def eq_(self, a, b):
        fa, fb = self.flat(a), self.flat(b)
        if len(fa) != len(fb):
            return False
        return S.b_and(*[p == q for p, q in zip(fa, fb)])

    and_ = staticmethod(S.b_and)
    or_ = staticmethod(S.b_or)
    not_ = staticmethod(S.b_not)

    def ite(self, c, a, b):
        return a if c else b

    def log(self, x):
        return S.log_(x)

    def sqrt(self, x):
        return S.sqrt_(x)

    def deg_cs(self, deg):
        return S.trig(S.radians_(deg))

    def rad_cs(self, r):
        return S.trig(S.sym(r))

    @property
    def pi(self):
        return S.pi()

    def frac(self, a, b=1):
        return Fraction(a, b)

    # -- assertions --------------------------------------------------------------------------
    def fail(self, label, detail=''):
        self.checks += 1
        self.task.violated(self, label, None, [], detail)
        raise PathAbort('failed check')

    def check(self, cond, label):
        self.checks += 1
        if isinstance(cond, SymBool):
            self.task.obligation(self, label, z3.Not(cond.z), None)
        elif isinstance(cond, SymReal):
            self.task.obligation(self, label, S.zb(cond == 0), None)
        elif not cond:
            self.task.violated(self, label, None, [], 'condition is false on the path')
            raise PathAbort('failed check')
        else:
            self.task.trivial += 1

    def _eq1(self, a, b, label):
        self.checks += 1
        if isinstance(a, (SymReal, SymBool)) or isinstance(b, (SymReal, SymBool)):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                self.task.violated(self, label, None, [], 'type mismatch')
                raise PathAbort('failed check')
            for v in (a, b):
                if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                    self.task.violated(self, label, None, [], 'non finite value')
                    raise PathAbort('failed check')
            d = a - b
            if isinstance(d, (int, float, Fraction)):
                ok = abs(d) < 1e-9
                if ok:
                    self.task.trivial += 1
                    return
                self.task.violated(self, label, None, [], 'different constants')
                raise PathAbort('failed check')
            if d.is_const:
                if abs(d.value) < Fraction(1, 10**9):
                    self.task.trivial += 1
                    self.task.by_normal_form += 1
                    return
                self.task.violated(self, label, None, [], f'difference {d.value}')
                raise PathAbort('failed check')
            exact = S.zb(d != 0)
            eps = self.task.margin
            margin = S.zb(S.b_or(d > eps, d < -eps))
            self.task.obligation(self, label, exact, margin)
        else:
            if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
                ok = a == b
            else:
                fa, fb = float(a), float(b)
                ok = fa == fb or abs(fa - fb) <= 1e-6 * (1 + max(abs(fa), abs(fb)))
            if ok:
                self.task.trivial += 1
            else:
                self.task.violated(self, label, None, [], f'{a!r} != {b!r}')
                raise PathAbort('failed check')

    def le(self, a, b, label):
        self.checks += 1
        c = a <= b
        if isinstance(c, SymBool):
            d = a - b
            self.task.obligation(self, label, z3.Not(c.z), S.zb(d > self.task.margin))
        elif not c:
            if isinstance(a, SymReal) and a.is_const or isinstance(b, SymReal) and b.is_const:
                a, b = float(S.sym(a).value), float(S.sym(b).value)
            if float(a) <= float(b) + 1e-6 * (1 + max(abs(float(a)), abs(float(b)))):
                self.task.trivial += 1
                return
            self.task.violated(self, label, None, [], 'not <=')
            raise PathAbort('failed check')
        else:
            self.task.trivial += 1

    lt = le

    def tag(self, *a, **k):
        pass


# --------------------------------------------------------------------------------------------------

def model_values(run, model):
    """-> (inputs, choices, bools) as JSON-able values; None when a value cannot be read."""
    ins, bools = {}, {}

    def val(z):
        r = model.eval(z, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(30)
        if z3.is_rational_value(r):
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        if z3.is_int_value(r):
            return Fraction(r.as_long())
        r = z3.simplify(r)
        if z3.is_rational_value(r):
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        if z3.is_int_value(r):
            return Fraction(r.as_long())
        raise ValueError(str(r))

    import math
    for name, info in run.inputs.items():
        if info[0] == 'bool':
            bools[name] = z3.is_true(model.eval(info[1], model_completion=True))
        elif info[0] == 'angle':
            t = float(val(run.vars[info[1]].z))
            c, s = float(val(info[2][0].z())), float(val(info[2][1].z()))
            a = math.degrees(math.atan2(s, c))
            for snap in (1, 4, 1000):
                if abs(round(a * snap) / snap - a) < 1e-9:
                    a = round(a * snap) / snap
            a += 360 * round((t - a) / 360)
            ins[name] = a
        else:
            f = val(run.vars[info[1]].z)
            ins[name] = float(f)
    return ins, dict(run.choices), bools


class Task:
    """Exploration of one harness."""

    def __init__(self, prop, h, tier, seed, deadline, known):
        self.prop, self.h, self.tier, self.seed = prop, h, tier, seed
        self.known = [k for k in known if k['property'] == prop and
                      (k['harness'] == h.name or k['harness'] == h.fn.__name__)]
        self.deadline = deadline
        self.paths = self.completed = self.aborted = 0
        self.obligations = self.discharged = self.trivial = self.by_normal_form = 0
        self.sliced = 0
        self.undecided = []
        self.violations = []
        self.unreproduced = []
        self.known_hits = {}
        self.unsupported = []
        self.witnesses = self.witness_ok = 0
        self.witness_bad = []
        self.samples = []
        self.truncated = None
        self.endless_tried = self.unsupported_tried = 0
        self.margin = max(MARGIN, h.opts['margin']) if 'margin' in h.opts else MARGIN
        self.unknown_branches = 0
        self.labels = {}
        self._worker = None
        self.rng = random.Random(seed)
        self.exhaustive = True

    # -- replay ------------------------------------------------------------------------------
    def worker(self):
        if self._worker is None:
            env = dict(os.environ)
            env.pop('PYTHONPATH', None)
            self._worker = subprocess.Popen([sys.executable, os.path.join(HERE, 'replay.py')], stdin=subprocess.PIPE,
                                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
            self._send({'property': self.prop})
        return self._worker

    def _send(self, req):
        w = self._worker
        w.stdin.write(json.dumps(req) + '\n')
        w.stdin.flush()
        line = w.stdout.readline()
        if not line:
            return ['error', 'worker died', '']
        return json.loads(line)

    def replay(self, vals):
        self.worker()
        return self._send({'harness': self.h.name, 'inputs': vals[0], 'choices': vals[1], 'bools': vals[2]})

    def close(self):
        if self._worker is not None:
            try:
                self._worker.stdin.close()
                self._worker.wait(5)
            except Exception:
                self._worker.kill()

    # -- candidates --------------------------------------------------------------------------
    def nice_models(self, run, extra, limit=3, snap=True, timeout=3000):
        """yield up to `limit` models of the path, friendly values first"""
        reals = [(n, i[1]) for n, i in run.inputs.items() if i[0] in ('real', 'angle')]
        zs = [run.vars[v].z for _, v in reals]
        hi = run.n_int > 0
        cons = run.constraints() + list(extra)
        box = lambda k: [z3.And(z >= -k, z <= k) for n, z in zip(reals, zs) if run.inputs[n[0]][0] == 'real']
        got = 0
        for bnd in (box(10), box(1000), []):
            r, m = S.solve(cons + bnd, hi, timeout)
            if r != 'sat':
                continue
            if snap:
                fixed = []
                t0 = time.time()
                for (n, v), z in zip(reals, zs):
                    if run.inputs[n][0] != 'real' or time.time() - t0 > 6:
                        continue
                    cur = m.eval(z, model_completion=True)
                    if z3.is_algebraic_value(cur):
                        cur = cur.approx(10)
                    try:
                        f = Fraction(cur.numerator_as_long(), cur.denominator_as_long())
                    except Exception:
                        continue
                    for scale in (1, 2, 8):
                        g = Fraction(round(f * scale), scale)
                        c = z == z3.RealVal(str(g))
                        if g == f:
                            fixed.append(c)
                            break
                        r2, m2 = S.solve(cons + bnd + fixed + [c], hi, 600)
                        if r2 == 'sat':
                            fixed.append(c)
                            m = m2
                            break
            yield m
            got += 1
            if got >= limit:
                return

    def known_match(self, label, run):
        for k in self.known:
            if k['label'] == label or label.startswith(k['label'] + '['):
                ch = k.get('choices') or {}
                if all(run.choices.get(n) == v for n, v in ch.items()):
                    return k
        return None

    def violated(self, ctx, label, z, margins, detail=''):
        """A violating assignment is feasible (z None: the whole path violates)."""
        run = ctx.run
        self.labels.setdefault(label, [0, 0])
        if z is None:
            self.obligations += 1
            self.labels[label][0] += 1
        k = self.known_match(label, run)
        if k is not None and k['id'] in self.known_hits:
            return
        tried = []
        for extra in list(margins) + ([[z]] if z is not None else [[]]):
            extra = extra if isinstance(extra, list) else [extra]
            for m in self.nice_models(run, extra):
                try:
                    vals = model_values(run, m)
                except ValueError:
                    continue
                if vals in tried:
                    continue
                tried.append(vals)
                res = self.replay(vals)
                if res[0] in ('fail', 'exception', 'endless'):
                    if k is not None:
                        self.known_hits[k['id']] = {'inputs': vals[0], 'choices': vals[1], 'observed': res[:2]}
                        return
                    v = {'property': self.prop, 'harness': self.h.name, 'label': label, 'inputs': vals[0],
                         'choices': vals[1], 'bools': vals[2], 'observed': res, 'detail': str(detail)[:2000]}
                    self.violations.append(v)
                    raise StopHarness()
            if len(tried) >= 6:
                break
        if not tried:
            r, m = run.query([] if z is None else [z])
            if r == 'unsat':
                # the path was only presumed feasible
                if z is None:
                    self.discharged += 1
                return
            self.undecided.append(f'{label}: solver unknown on {self.h.name}')
            return
        self.unreproduced.append({'label': label, 'tried': [list(t) for t in tried[:3]], 'detail': str(detail)[:600]})

    def obligation(self, ctx, label, viol, margin):
        run = ctx.run
        self.obligations += 1
        lab = self.labels.setdefault(label, [0, 0])
        lab[0] += 1
        if z3.is_false(z3.simplify(viol)):
            self.discharged += 1
            lab[1] += 1
            return
        # already obviously violated by the current model?
        tmo = self.h.opts.get('timeout', 15000)
        r, m = run.query([viol], tmo)
        if r == 'unsat':
            self.discharged += 1
            lab[1] += 1
            return
        if margin is not None:
            r2, m2 = run.query([margin], tmo)
            if r2 == 'unsat':
                self.discharged += 1
                lab[1] += 1
                return
            if r2 == 'unknown' and r == 'sat':
                r = 'unknown'
        if r == 'sat':
            before = len(self.unreproduced)
            self.violated(ctx, label, viol, [margin] if margin is not None else [])
            return
        # unknown: bounded slices (most inputs fixed by seed, the solver decides the rest)
        self.slice(ctx, label, viol if margin is None else margin)

    def slice(self, ctx, label, viol):
        run = ctx.run
        reals = [run.vars[i[1]].z for n, i in run.inputs.items() if i[0] == 'real']
        n_slices = 6 if self.tier == 'quick' else 24
        ok = 0
        for k in range(n_slices):
            free = 1 if k % 2 else 2
            zs = list(reals)
            self.rng.shuffle(zs)
            fix = [z == z3.RealVal(str(Fraction(self.rng.randint(-12, 12), self.rng.choice((1, 1, 2))))) for z in zs[free:]]
            S.STATS.slices += 1
            r, m = run.query(fix + [viol], 2500)
            if r == 'sat':
                self.violated(ctx, label, viol, [fix + [viol]])
                return
            if r == 'unsat':
                ok += 1
        if ok:
            self.sliced += 1
        else:
            self.undecided.append(f'{label}: solver unknown')

    # -- main loop ---------------------------------------------------------------------------
    def run_all(self):
        opts = dict(self.h.opts)
        limits = {'deadline': self.deadline, 'branch_timeout': opts.get('branch_timeout', 4000),
                  'max_decisions': opts.get('max_decisions', 3000),
                  'max_concretise': opts.get('max_concretise', 64)}
        max_paths = opts.get('max_paths', 3000) * (1 if self.tier == 'quick' else 8)
        stack = [[]]
        max_wit = opts.get('witnesses', 6 if self.tier == 'quick' else 20)
        while stack:
            if self.paths >= max_paths or time.time() > self.deadline:
                self.truncated = f'{len(stack)} path prefixes left unexplored'
                self.exhaustive = False
                break
            # deepest and shallowest decisions in turn: were the budget too short, the paths left would not be all of one kind
            prefix = stack.pop(0 if self.paths % 2 else -1)
            run = Run(BASE, prefix, limits)
            S.set_run(run)
            ctx = SymCtx(run, self)
            self.paths += 1
            try:
                try:
                    _watchdog_start()
                    self.h.fn(ctx, **self.h.params)
                    _watchdog_stop()
                    self.completed += 1
                    if ctx.checks and self.witnesses < max_wit:
                        self.witness(ctx)
                except PathAbort as e:
                    self.aborted += 1
                    if str(e) in ('deadline', 'too many decisions'):
                        if str(e) == 'deadline':
                            self.truncated = 'deadline'
                        self.exhaustive = False
                        self.endless(ctx)
                except (Unsupported, PolyOverflow, RecursionError) as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb if '/engine/' not in f.filename][-2:]
                    self.unsupported.append(f'{type(e).__name__}: {e} @ {" ".join(where)}')
                    self.exhaustive = False
                    self.unsupported_path(ctx)
                except NonTermination:
                    _watchdog_stop()
                    self.exhaustive = False
                    self.endless(ctx)
                except StopHarness:
                    raise
                except Exception as e:
                    tb = traceback.format_exc(limit=-4)
                    r, m = ('sat', run.model) if run.model is not None else run.query([])
                    if r == 'unsat':
                        self.aborted += 1
                    elif _engine_error(e):
                        self.unsupported.append(f'{type(e).__name__}: {e} in engine: {tb[-300:]}')
                        self.exhaustive = False
                    else:
                        try:
                            self.violated(ctx, f'exception:{type(e).__name__}', None, [], tb)
                        except PathAbort:
                            pass
            except StopHarness:
                break
            finally:
                _watchdog_stop()
                self.unknown_branches += run.unknown_branches
                S.set_run(BASE)
            stack.extend(run.pending)
        self.close()
        return self.result()

    def endless(self, ctx):
        """the path does not end (or not within the limits): does the code end on an input of this path?"""
        if self.endless_tried >= 2:
            return
        self.endless_tried += 1
        run = ctx.run
        for m in self.nice_models(run, [], limit=1, timeout=4000):
            try:
                vals = model_values(run, m)
            except ValueError:
                return
            res = self.replay(vals)
            if res[0] == 'endless':
                self.violations.append({'property': self.prop, 'harness': self.h.name, 'label': 'does not terminate', 'inputs': vals[0],
                                        'choices': vals[1], 'bools': vals[2], 'observed': res, 'detail': ''})
                raise StopHarness()

    def generic_model(self, run):
        """a model of the path far from special values"""
        cons, fixed, m = run.constraints(), [], None
        t0 = time.time()
        for n, i in run.inputs.items():
            if i[0] != 'real' or time.time() - t0 > 8:
                continue
            z = run.vars[i[1]].z
            for scale in (10, 100, 1):
                c = z == z3.RealVal(str(Fraction(self.rng.randint(-9999, 9999), 9973) * scale))
                r, m2 = S.solve(cons + fixed + [c], run.n_int > 0, 600)
                if r == 'sat':
                    fixed.append(c)
                    m = m2
                    break
        if m is None:
            r, m = S.solve(cons, run.n_int > 0, 3000)
            if r != 'sat':
                return None
        return m

    def unsupported_path(self, ctx):
        """the path cannot be decided: does the real code at least break the property on two generic inputs of this path?"""
        if self.unsupported_tried >= 4:
            return
        self.unsupported_tried += 1
        run, failed = ctx.run, []
        for _ in range(2):
            try:
                m = self.generic_model(run)
                vals = model_values(run, m) if m is not None else None
            except (ValueError, z3.Z3Exception):
                return
            if vals is None:
                return
            res = self.replay(vals)
            if res[0] not in ('fail', 'exception'):
                return
            failed.append((vals, res))
        vals, res = failed[-1]
        if self.known_match(str(res[1]), run) is not None:
            return
        self.violations.append({'property': self.prop, 'harness': self.h.name, 'label': str(res[1]), 'inputs': vals[0],
                                'choices': vals[1], 'bools': vals[2], 'observed': res, 'detail': 'on a path the encoding does not support'})
        raise StopHarness()

    def witness(self, ctx):
        run = ctx.run
        for m in self.nice_models(run, [], limit=1, snap=True, timeout=4000):
            try:
                vals = model_values(run, m)
            except ValueError:
                return
            self.witnesses += 1
            res = self.replay(vals)
            if res[0] == 'pass':
                self.witness_ok += 1
                if len(self.samples) < 2:
                    self.samples.append({'harness': self.h.name, 'inputs': vals[0], 'choices': vals[1],
                                         'bools': vals[2], 'checks_passed': res[2]})
            else:
                self.witness_bad.append({'values': vals[0], 'choices': vals[1], 'observed': res})
            return

    def result(self):
        st = S.STATS
        return dict(harness=self.h.name, paths=self.paths, completed=self.completed, aborted=self.aborted,
                    obligations=self.obligations + self.trivial, discharged=self.discharged + self.trivial,
                    trivial=self.trivial, by_normal_form=self.by_normal_form, sliced=self.sliced,
                    undecided=self.undecided[:20], n_undecided=len(self.undecided), violations=self.violations,
                    unreproduced=self.unreproduced, known=self.known_hits, unsupported=sorted(set(self.unsupported))[:10],
                    n_unsupported=len(self.unsupported), witnesses=self.witnesses, witness_ok=self.witness_ok,
                    witness_bad=self.witness_bad[:3], samples=self.samples, truncated=self.truncated,
                    unknown_branches=self.unknown_branches, exhaustive=self.exhaustive,
                    queries=st.queries, solver_s=st.time, branches=st.branches, sat=st.sat, unsat=st.unsat,
                    unknown=st.unknown, labels=self.labels)


def _engine_error(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ''
    if isinstance(e, z3.Z3Exception):
        return True
    return '/engine/' in fn and not isinstance(e, (ZeroDivisionError, ValueError, TypeError, AttributeError, IndexError,
                                                   KeyError, OverflowError))


# --------------------------------------------------------------------------------------------------

def _init_process():
    global BASE
    from . import loader
    BASE = S.make_base()
    S.set_run(BASE)
    loader.install()


def _pool_run(args):
    prop, name, tier, seed, budget, known = args
    t0 = time.time()
    S.STATS = S.STATS.__class__()
    z3.set_param('sat.random_seed', seed & 0x7fffffff)
    z3.set_param('smt.random_seed', seed & 0x7fffffff)
    z3.set_param('nlsat.seed', seed & 0x7fffffff)
    h = {x.name: x for x in HARNESSES[prop]}[name]
    sys.setrecursionlimit(6000)
    try:
        functions = _Trace()
        t = Task(prop, h, tier, seed, t0 + budget, known)
        with functions:
            res = t.run_all()
        res['functions'] = sorted(functions.names)
    except BaseException as e:
        res = dict(harness=name, crash=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-3000:])
    res['wall'] = time.time() - t0
    return res


class _Trace:
    """names of the repository functions that were executed symbolically"""

    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = getattr(sys, 'monitoring', None)
        self.mon = mon
        if mon is None:
            return self
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, 'verif')
        except ValueError:
            self.mon = None
            return self
        names = self.names
        roots = ('/Patro/',)

        def start(code, off):
            f = code.co_filename
            if '/Patro/' in f and '/engine/' not in f:
                names.add(f[f.index('/Patro/') + 1:] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.mon is not None:
            self.mon.set_events(self.tool, 0)
            self.mon.free_tool_id(self.tool)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings']]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = a.prop
    known = load_known()
    _init_process()
    mod = importlib.import_module(f'props.{prop}')
    for mname in getattr(mod, 'MODULES', []):
        importlib.import_module(mname)
    hs = [h for h in HARNESSES[prop] if tier == 'thorough' or h.opts['tier'] == 'quick']
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    budget = a.budget or (150 if tier == 'quick' else 900)
    total = 660 if tier == 'quick' else 4 * 3600
    jobs = [(prop, h.name, tier, seed, h.opts.get('budget' if tier == 'quick' else 'budget_thorough', budget), known) for h in hs]
    jobs.sort(key=lambda j: -[h for h in hs if h.name == j[1]][0].opts.get('weight', 1))
    results = []
    ctx = mp.get_context('fork')
    timed_out = []
    with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
        pend = [(j, pool.apply_async(_pool_run, (j,))) for j in jobs]
        end = t0 + total
        fast = os.environ.get('VERIF_FAST')      # development aid: stop at the first violation
        while fast and time.time() < end and not all(r.ready() for _, r in pend):
            got = [r.get() for _, r in pend if r.ready()]
            if any(x.get('violations') for x in got):
                pool.terminate()
                return report(prop, tier, seed, got, mod, known, t0, a)
            time.sleep(.2)
        for j, r in pend:
            try:
                results.append(r.get(max(1, end - time.time())))
            except mp.TimeoutError:
                timed_out.append(j[1])
                results.append(dict(harness=j[1], crash='timeout'))
        pool.terminate()
    return report(prop, tier, seed, results, mod, known, t0, a)


def report(prop, tier, seed, results, mod, known, t0, a):
    evidence = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(os.path.join(evidence, 'replay'), exist_ok=True)
    viol, unrep, crash, dead = [], [], [], []
    known_hits = {}
    for r in results:
        if 'crash' in r:
            crash.append(r)
            continue
        viol += r['violations']
        if r['unreproduced']:
            unrep.append(r)
        known_hits.update(r['known'])
        if not r['violations'] and r['discharged'] == 0 and not r['known']:
            dead.append(r['harness'])
    ok = [r for r in results if 'crash' not in r]
    tot = lambda k: sum(r[k] for r in ok)
    functions = sorted(set(f for r in ok for f in r.get('functions', [])))
    wall = time.time() - t0
    und = {r['harness']: r['undecided'] for r in ok if r['undecided']}
    uns = {r['harness']: r['unsupported'] for r in ok if r['unsupported']}
    trunc = {r['harness']: r['truncated'] for r in ok if r['truncated']}
    cov = {
        'states': tot('paths'),
        'transitions': tot('branches'),
        'traces_validated_against_impl': tot('witness_ok'),
        'samples': [s for r in ok for s in r['samples']][:12],
        'exhaustive': all(r['exhaustive'] for r in ok) and not crash,
        'explanation': 'states = symbolic paths explored; transitions = symbolic branch decisions; traces validated = '
                       'solver witnesses of completed paths replayed on the real code with floats; obligations = '
                       'assertions x paths, each decided for all values of the symbolic inputs on the path',
        'obligations': tot('obligations'), 'discharged': tot('discharged'),
        'decided_by_normal_form': tot('by_normal_form'),
        'decided_only_on_slices': tot('sliced'),
        'solver_queries': tot('queries'), 'solver_unsat': tot('unsat'), 'solver_sat': tot('sat'),
        'solver_unknown': tot('unknown'), 'solver_seconds': round(tot('solver_s'), 2),
        'solver': 'z3 ' + z3.get_version_string(),
        'witness_mismatches': sum(len(r['witness_bad']) for r in ok),
        'undecided': und, 'unsupported': uns, 'truncated': trunc,
        'harnesses': {r['harness']: {'paths': r['paths'], 'completed': r['completed'], 'obligations': r['obligations'],
                                     'discharged': r['discharged'], 'wall_s': round(r['wall'], 1)} for r in ok},
        'functions_encoded': functions,
        'bounds': getattr(mod, 'BOUNDS', ''),
        'known_findings_hit': known_hits,
        'counterexamples_not_reproduced': {r['harness']: r['unreproduced'][:2] for r in unrep},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['inputs are exact reals: IEEE rounding, overflow and NaN propagation are outside the claim '
                          '(counterexamples are confirmed in floating point before being reported)',
                          'numpy/math primitives behave as their real-number definitions (engine/shims.py)']
          + list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(viol)}
    if not a.only:
        with open(os.path.join(evidence, f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v or os.environ.get('VERIF_VERBOSE'):
        for r in sorted(ok, key=lambda r: -r['wall']):
            print(f"  {r['harness']}: paths={r['paths']} done={r['completed']} obl={r['obligations']} "
                  f"ok={r['discharged']} nf={r['by_normal_form']} sl={r['sliced']} und={r['n_undecided']} uns={r['n_unsupported']} "
                  f"wit={r['witness_ok']}/{r['witnesses']} q={r['queries']} unk={r['unknown']} {r['wall']:.1f}s {r['truncated'] or ''}")
            for w in r['witness_bad']:
                print('     witness mismatch', json.dumps(w)[:700])
            for u in r['undecided'][:3]:
                print('     undecided', u)
            for u in r['unsupported'][:4]:
                print('     unsupported', u)
    for r in crash:
        print(f"ERROR harness {r['harness']}: {r['crash']}")
        if 'tb' in r and a.v:
            print(r['tb'])
    for k in known:
        if k['property'] == prop and k['id'] in known_hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        seen = 0
        for v in viol:
            safe = ''.join(c if c.isalnum() else '_' for c in v['harness'])[:60]
            path = os.path.join('evidence', 'replay', f"{prop}-{safe}.json")
            with open(os.path.join(evidence, 'replay', f"{prop}-{safe}.json"), 'w') as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  harness {v['harness']} check {v['label']}: inputs {v['inputs']} choices {v['choices']} bools {v['bools']}")
            print(f"  observed: {v['observed'][0]} {v['observed'][1]} {str(v['observed'][2])[-600:]}")
        return 1
    if unrep:
        for r in unrep:
            for u in r['unreproduced'][:3]:
                print(f"NOT-DECIDED {r['harness']} {u['label']}: counterexample of the solver not reproduced by the "
                      f"code: {json.dumps(u['tried'])[:600]} {u['detail'][-500:]}")
        dead = sorted(set(dead) | set(r['harness'] for r in unrep))
    n_ok = len(ok) - len(dead)
    if dead:
        print(f"NOT-DECIDED harnesses: {dead}")
    if not ok or n_ok * 2 < len(results):
        return 2
    print(f"OK property={prop} tier={tier} harnesses={len(ok)} paths={tot('paths')} obligations={tot('obligations')} "
          f"discharged={tot('discharged')} sliced={tot('sliced')} undecided={sum(r['n_undecided'] for r in ok)} "
          f"unsupported={tot('n_unsupported')} queries={tot('queries')} solver_s={tot('solver_s'):.1f} wall_s={wall:.1f}")
    return 0
