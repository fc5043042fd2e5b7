"""Path exploration.

A harness is a Python function h(ctx).  It is re-executed once per path.  Symbolic inputs are proxies; whenever Python
needs the truth value of a symbolic condition, `Engine.fork` asks z3 which outcomes are feasible under the path condition,
takes one and queues the other.  `ctx.check(cond)` asks z3 for a model of (path condition and not cond).
"""
from __future__ import annotations

import sys
import time
import traceback
from fractions import Fraction

import z3

CUR = None  # the running Engine (symbolic mode), or None (concrete mode)
BEAT = None     # shared with check.py: time of the last sign of progress


class Unsupported(BaseException):
    """The code did something with a symbolic value that the encoding cannot express."""


class PathEnd(BaseException):
    """This path needs no further exploration."""


class OutOfBudget(BaseException):
    pass


class NonTermination(BaseException):
    """A path ran for a long time without asking the solver anything: perhaps a loop that does not end."""


QUIET_LIMIT = 60    # seconds of processor time


class AssumeFailed(Exception):
    """Concrete replay values do not satisfy a harness assumption."""


class CheckFailed(Exception):
    """Concrete replay: the property is violated."""


class SBool:
    """A symbolic truth value."""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CUR.fork(self.z)

    def __and__(self, o): return mkbool(z3.And(self.z, zb(o)))
    __rand__ = __and__

    def __or__(self, o): return mkbool(z3.Or(self.z, zb(o)))
    __ror__ = __or__

    def __xor__(self, o): return mkbool(z3.Xor(self.z, zb(o)))
    __rxor__ = __xor__

    def __invert__(self): return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.z == zb(o))
        return bool(self) == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self): return 11

    def __int__(self): return 1 if bool(self) else 0
    def __index__(self): return 1 if bool(self) else 0
    def __float__(self): return 1.0 if bool(self) else 0.0
    def __add__(self, o): return int(self) + o
    __radd__ = __add__
    def __mul__(self, o): return int(self) * o
    __rmul__ = __mul__
    def __repr__(self): return 'SBool(%s)' % self.z


def zb(o):
    if isinstance(o, SBool):
        return o.z
    return z3.BoolVal(bool(o))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


class SInt:
    """A symbolic integer; used for row/column labels and link keys (all pandas hashing goes through __eq__)."""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __hash__(self): return 17  # one bucket: hash tables then decide by __eq__, i.e. by the solver

    @staticmethod
    def _z(o):
        if isinstance(o, SInt):
            return o.z
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if hasattr(o, '__index__') and not isinstance(o, SBool):
            return z3.IntVal(int(o))
        if isinstance(o, float) and o == o and abs(o) != float('inf') and o == int(o):
            return z3.IntVal(int(o))
        return None

    def _cmp(self, o, f, default):
        if o is self:
            return f(0, 0)
        z = SInt._z(o)
        if z is None:
            if default is None:
                return NotImplemented
            return default
        return mkbool(f(self.z, z))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, False)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, None)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, None)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, None)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, None)

    def _ar(self, o, f):
        z = SInt._z(o)
        if z is None:
            return NotImplemented
        return SInt(z3.simplify(f(self.z, z)))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: b * a)
    def __mod__(self, o): return self._ar(o, lambda a, b: a % b)
    def __floordiv__(self, o): return self._ar(o, lambda a, b: a / b)
    def __neg__(self): return SInt(z3.simplify(-self.z))

    def __bool__(self): return bool(mkbool(self.z != 0))

    def __index__(self): return CUR.enum_int(self.z)
    __int__ = __index__

    def __repr__(self): return 'SInt(%s)' % self.z


class Engine:
    def __init__(self, harness, cfg, *, max_paths=200000, deadline=None, solver_timeout_ms=4000, max_candidates=3,
                 max_witnesses=6):
        self.harness, self.cfg = harness, cfg
        self.max_paths, self.deadline = max_paths, deadline
        self.max_candidates = max_candidates
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.stats = dict(paths=0, decided_paths=0, forks=0, queries=0, solver_s=0.0, asserts=0, discharged=0, unknown=0,
                          reach=0, unsupported=0, fork_unknown=0)
        self.candidates = []   # dicts: message, values, kind
        self.unsupported = []
        self.complete = False
        self.collected = []    # per-path values handed over by the harness (ctx.collect)
        self.samples = []
        self.witnesses = []   # concrete inputs of decided paths
        self.max_witnesses = max_witnesses
        self.races = []
        self.in_solver = False
        self.progress = self.path_start = time.process_time()
        self.bits = False     # bit-precise floats are in play: incremental solving does not pay

    # -- solver ---------------------------------------------------------------------------------------------------
    def _check(self, *extra):
        self.in_solver = True
        try:
            return self._check1(*extra)
        finally:
            self.in_solver = False
            self.progress = time.process_time()

    def watch(self):
        """Called from a timer signal."""
        if not self.in_solver and CUR is self and time.process_time() - self.progress > QUIET_LIMIT:
            self.progress = time.process_time()
            raise NonTermination()

    def _check1(self, *extra):
        if BEAT is not None:
            BEAT.value = time.time()
        if self.bits:
            return self._check_fresh(*extra, timeout=60000)
        self.stats['queries'] += 1
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats['solver_s'] += time.perf_counter() - t
        return r, model

    def _check_fresh(self, *extra, timeout=20000, tactic=None):
        self.in_solver = True
        try:
            return self._check_fresh1(*extra, timeout=timeout, tactic=tactic)
        finally:
            self.in_solver = False
            self.progress = time.process_time()

    def _check_fresh1(self, *extra, timeout=20000, tactic=None):
        if self.bits:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver()
        else:
            s = z3.Solver() if tactic is None else z3.SolverFor(tactic)
        s.set('timeout', timeout)
        s.add(*self.solver.assertions())
        s.add(*extra)
        self.stats['queries'] += 1
        t = time.perf_counter()
        if BEAT is not None:
            BEAT.value = time.time()
        r = s.check()
        self.stats['solver_s'] += time.perf_counter() - t
        return r, (s.model() if r == z3.sat else None)

    def add(self, *z):
        self.solver.add(*z)

    # -- exploration ----------------------------------------------------------------------------------------------
    def run(self):
        global CUR
        prev = CUR
        CUR = self
        todo = [[]]
        try:
            while todo:
                if self.stats['paths'] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    return self
                if len(self.candidates) >= self.max_candidates:
                    return self
                self.prefix = todo.pop()
                self.todo = todo
                try:
                    self._run_path()
                except OutOfBudget:
                    self.stats['paths'] -= 1
                    return self
            self.complete = True
        finally:
            CUR = prev
        return self

    def _reset_path(self):
        self.trace = []
        self.decided = {}
        self.inputs = {}
        self.keep = []
        self.memo = {}
        self.counter = {}
        self.races = []
        self.poisoned = None
        self.asserted_here = 0

    def _run_path(self):
        from . import npshim, real
        self._reset_path()
        real.reset()
        npshim.NB.reset()
        npshim.LOG.cur = None
        self.solver.push()
        self.stats['paths'] += 1
        ctx = SymCtx(self)
        self.progress = self.path_start = time.process_time()
        if BEAT is not None:
            BEAT.value = time.time()
        try:
            self.harness(ctx)
            if self.poisoned:
                raise Unsupported(self.poisoned)
            # vacuity guard: the end of the harness was reached under a satisfiable path condition
            r, m = self._check()
            if r == z3.sat:
                self.stats['reach'] += 1
                n = self.stats['reach']
                if len(self.witnesses) < self.max_witnesses or n & (n - 1) == 0:   # the first ones, then 2^k
                    self.witnesses.append(self._values(m))
                if len(self.samples) < 3 and self.asserted_here:
                    self.samples.append({k: str(v) for k, v in self._values(m).items()})
            if r != z3.unsat:
                self.stats['decided_paths'] += 1
        except PathEnd:
            self.stats['decided_paths'] += 1
        except OutOfBudget:
            if time.process_time() - self.path_start > 2 * QUIET_LIMIT:
                self._endless()
            raise
        except NonTermination:
            self._endless()
        except Unsupported as e:
            self._unsupported(str(e) or 'unsupported')
        except RecursionError as e:
            self._unsupported('RecursionError')
        except Exception as e:
            if self.poisoned:
                self._unsupported(self.poisoned)
            else:
                tb = traceback.format_exc(limit=-6)
                r, m = self._check()
                if r == z3.unsat:
                    pass  # infeasible path (only after an `unknown` fork)
                else:
                    self._candidate('exception', '%s: %s' % (type(e).__name__, str(e)[:300]), m, tb)
        finally:
            self.solver.pop()

    def _endless(self):
        where = traceback.format_exc(limit=-4)
        r, m = self._check()
        if r == z3.sat:
            self._candidate('nontermination', 'the run does not end', m, where)
            self.max_candidates = len(self.candidates)    # the other paths would take as long

    def _unsupported(self, why):
        self.stats['unsupported'] += 1
        if len(self.unsupported) < 20:
            self.unsupported.append(why)
        r, m = self._check()
        if r == z3.sat and len(self.candidates) < self.max_candidates and self.stats['unsupported'] <= 4:
            self._candidate('unsupported', why, m, traceback.format_exc(limit=-8))

    def _values(self, model):
        vals = {}
        for name, (kind, z) in self.inputs.items():
            if kind == 'const':
                vals[name] = z
                continue
            if model is None:
                continue
            v = model.eval(z, model_completion=True)
            if kind == 'int':
                vals[name] = v.as_long()
            elif kind == 'bool':
                vals[name] = z3.is_true(v)
            elif kind == 'real':
                vals[name] = num_to_float(v)
            elif kind == 'fp':
                vals[name] = fp_to_float(v)
        return vals

    def _candidate(self, kind, message, model, detail=''):
        from . import real
        vals = self._values(model)
        alt = {}
        if model is not None:
            try:
                alt = real.suggest(model, self.inputs)
            except Exception:
                alt = {}
        self.candidates.append(dict(kind=kind, message=message, values=vals, alt=alt, detail=detail,
                                    cfg=self.cfg, has_model=model is not None))

    # -- services for proxies -------------------------------------------------------------------------------------
    def fork(self, z):
        self.stats['forks'] += 1
        key = z.get_id()
        d = self.decided.get(key)
        if d is not None:
            return d[0]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                self.todo.append(list(self.trace))
                raise OutOfBudget()
            rt, _ = self._check(z)
            if rt == z3.unsat:
                v = False
                # implied: not a decision, but remember it
                self.decided[key] = (False, z)
                self.trace.append(False)
                return False
            rf, _ = self._check(z3.Not(z))
            if rf == z3.unsat:
                self.decided[key] = (True, z)
                self.trace.append(True)
                return True
            if z3.unknown in (rt, rf):
                self.stats['fork_unknown'] += 1
            self.todo.append(self.trace + [False])
            v = True
        self.trace.append(v)
        self.decided[key] = (v, z)
        self.solver.add(z if v else z3.Not(z))
        return v

    def enum_int(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        for _ in range(64):
            r, m = self._check_pref(z)
            if r is None:
                break
            if self.fork(z == r):
                return r
        self.poisoned = 'unbounded symbolic integer used as a concrete index'
        raise Unsupported(self.poisoned)

    def _check_pref(self, z):
        # smallest feasible value first, deterministic: the value depends only on the path condition
        r, m = self._check()
        if r != z3.sat:
            return None, None
        v = m.eval(z, model_completion=True).as_long()
        # make the choice deterministic by minimising within small steps
        lo = v
        for step in (1 << 20, 1 << 10, 64, 16, 4, 1):
            while True:
                rr, mm = self._check(z <= lo - step)
                if rr != z3.sat:
                    break
                lo = mm.eval(z, model_completion=True).as_long()
                if lo < -(1 << 40):
                    return None, None
        return lo, None

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base


def num_to_float(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    return float(str(v))


def fp_to_float(v):
    import struct
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return struct.unpack('<d', struct.pack('<Q', bv.as_long()))[0]


# ---------------------------------------------------------------------------------------------------------------------

class SymCtx:
    """What a harness sees in symbolic mode."""
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.cfg = eng.cfg

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, lo_open=False, hi_open=False):
        from .real import SReal, new_var
        if name in self.e.memo:
            return self.e.memo[name]
        v = new_var(name, pos=pos or (lo is not None and lo > 0) or (lo == 0 and lo_open))
        z = v.z()
        self.e.inputs[name] = ('real', z)
        if pos:
            self.e.add(z > 0)
        if lo is not None:
            b = z3.RealVal(Fraction(lo))
            self.e.add(z > b if lo_open else z >= b)
        if hi is not None:
            b = z3.RealVal(Fraction(hi))
            self.e.add(z < b if hi_open else z <= b)
        self.e.memo[name] = v
        return v

    def fp(self, name, lo=None, hi=None):
        """A bit-precise IEEE double (not NaN) in [lo, hi]."""
        from .fp import SFloat, FPS
        z = z3.FP(name, FPS)
        self.e.bits = True
        self.e.inputs[name] = ('fp', z)
        self.e.add(z3.Not(z3.fpIsNaN(z)), z3.Not(z3.fpIsInf(z)))
        if lo is not None:
            self.e.add(z3.fpGEQ(z, z3.FPVal(lo, FPS)))
        if hi is not None:
            self.e.add(z3.fpLEQ(z, z3.FPVal(hi, FPS)))
        return SFloat(z)

    def skip(self):
        """This part of the package is not there to be examined."""
        raise PathEnd()

    def util(self, name, inf=True):
        """A utility: a finite real, or -inf."""
        if inf and self.flag(name + '?-inf'):
            return float('-inf')
        return self.real(name)

    def key(self, name, lo=None, hi=None):
        z = z3.Int(name)
        self.e.inputs[name] = ('int', z)
        if lo is not None:
            self.e.add(z >= lo)
        if hi is not None:
            self.e.add(z <= hi)
        return SInt(z)

    def sbool(self, name):
        z = z3.Bool(name)
        self.e.inputs[name] = ('bool', z)
        return SBool(z)

    def flag(self, name):
        """A symbolic Boolean decided at once (both outcomes are explored)."""
        return bool(self.sbool(name))

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        z = z3.Int(name)
        self.e.inputs[name] = ('int', z)
        self.e.add(z >= 0, z < len(options))
        lo, hi = 0, len(options)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.e.fork(z < mid):
                hi = mid
            else:
                lo = mid
        return options[lo]

    def perm(self, name, items):
        """An arbitrary ordering of items."""
        items, out = list(items), []
        k = 0
        while items:
            i = self.choose('%s.%d' % (name, k), range(len(items)))
            out.append(items.pop(i))
            k += 1
        return out

    def distinct(self, keys):
        z = [SInt._z(k) for k in keys]
        if len(z) > 1:
            self.e.add(z3.Distinct(*z))

    # assumptions and assertions
    def assume(self, cond):
        if isinstance(cond, SBool):
            r, _ = self.e._check(cond.z)
            if r == z3.unsat:
                raise PathEnd()
            self.e.add(cond.z)
        elif not cond:
            raise PathEnd()

    def check(self, cond, msg='property'):
        e = self.e
        e.stats['asserts'] += 1
        e.asserted_here += 1
        if isinstance(cond, SBool):
            neg = z3.Not(cond.z)
        else:
            neg = z3.BoolVal(not bool(cond))
        r, m = e._check(neg)
        if r == z3.unknown:
            r, m = e._check_fresh(neg)
        if r == z3.unknown:
            r, m = self._assisted(neg)
        if r == z3.unsat:
            e.stats['discharged'] += 1
            return
        if r == z3.unknown:
            e.stats['unknown'] += 1
            e._candidate('unknown', 'solver gave no answer: ' + msg, e._check()[1])
            raise PathEnd()
        e._candidate('violation', msg, m)
        raise PathEnd()

    def _assisted(self, neg):
        """Look for a counterexample with the real inputs fixed to generic values (an under-approximation)."""
        vals = [Fraction(3, 7), Fraction(5, 11), Fraction(-2, 3), Fraction(7, 13), Fraction(1, 5), Fraction(-9, 17), Fraction(8, 9)]
        for off in range(3):
            ex = [neg]
            k = off
            for name, (kind, z) in self.e.inputs.items():
                if kind == 'real':
                    v = vals[k % len(vals)]
                    if off == 2:
                        v = abs(v)
                    ex.append(z == z3.RealVal(v))
                    k += 1
            r, m = self.e._check_fresh(*ex, timeout=5000)
            if r == z3.sat:
                return r, m
        return z3.unknown, None

    def fail(self, msg):
        self.check(False, msg)

    # comparisons of values
    def eq(self, a, b):
        from . import real
        return real.values_equal(a, b)

    def check_eq(self, a, b, msg='values differ'):
        self.check(self.eq(a, b), msg)

    def exp(self, x):
        from . import real
        return real.s_exp(x)

    def log(self, x):
        from . import real
        return real.s_log(x)

    # data helpers
    def arr(self, values, dtype=float):
        import numpy as np
        a = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            a[i] = v
        return a

    def mat(self, rows):
        import numpy as np
        a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = v
        return a

    def series(self, values, index=None, name=None):
        """A float column of symbolic values."""
        import pandas as pd
        from .symarray import SymArray
        return pd.Series(SymArray(self.arr(values)), index=index, name=name)

    def column(self, values):
        from .symarray import SymArray
        return SymArray(self.arr(values))

    def keys(self, values):
        """Labels or link keys (None is a null key).  Plain integers become constant symbolic integers, so that all of them meet
        in the same bucket of any hash table."""
        import numpy as np
        a = np.empty(len(values), dtype=object)
        for i, v in enumerate(values):
            a[i] = SInt(z3.IntVal(v)) if isinstance(v, int) and not isinstance(v, bool) else v
        return a

    def collect(self, value):
        self.e.collected.append(value)

    @property
    def races(self):
        return self.e.races


class ConCtx:
    """The same interface on concrete values: used to replay a counterexample on the real package."""
    symbolic = False

    def __init__(self, cfg, values, jitter=None, clip=20.0, spread=None):
        self.cfg = cfg
        self.values = dict(values)
        self.reals = {}
        self.clip, self.spread = clip, spread   # spread: magnitudes for the real inputs that are not bounded (with a jitter)
        self.jitter = jitter  # random.Random or None: vary the real inputs around/away from the model
        self.races = []
        self.checked = 0

    def real(self, name, lo=None, hi=None, pos=False, lo_open=False, hi_open=False):
        if name in self.reals:
            return self.reals[name]
        nonneg = pos or (lo is not None and lo >= 0)
        v = float(self.values.get(name, 0.5 if nonneg else 0.0))
        if self.jitter is not None:
            j = self.jitter
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * (0.05 + 0.9 * j.random())
            elif nonneg:
                v = (lo or 0.0) + 0.1 + 2 * j.random()
            else:
                v = round(j.uniform(-2, 2) + (j.choice(self.spread) if self.spread else 0), 3)
        if abs(v) > self.clip:  # keep exponentials finite: overflow is outside the claim
            v = self.clip if v > 0 else -self.clip
        if lo is not None and (v < lo or (lo_open and v == lo)):
            v = lo + 1e-9 if lo_open else lo
        if hi is not None and (v > hi or (hi_open and v == hi)):
            v = hi if not hi_open else hi - 1e-9
        if pos and v <= 0:
            v = 1e-3
        self.reals[name] = v
        return v

    def used(self):
        d = {k: v for k, v in self.values.items()}
        d.update(self.reals)
        return d

    def fp(self, name, lo=None, hi=None):
        v = float(self.values.get(name, lo if lo is not None else 0.0))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise AssumeFailed(name)
        return v

    def skip(self):
        raise AssumeFailed('skipped')

    def util(self, name, inf=True):
        if inf and self.flag(name + '?-inf'):
            return float('-inf')
        return self.real(name)

    def key(self, name, lo=None, hi=None):
        v = int(self.values.get(name, lo if lo is not None else 0))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise AssumeFailed(name)
        return v

    def sbool(self, name):
        v = self.values.get(name, False)
        return v if isinstance(v, bool) else str(v) == 'True'

    flag = sbool

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = int(self.values.get(name, 0))
        if not 0 <= i < len(options):
            raise AssumeFailed(name)
        return options[i]

    perm = SymCtx.perm

    def distinct(self, keys):
        if len(set(keys)) != len(keys):
            raise AssumeFailed('distinct')

    def assume(self, cond):
        if not cond:
            raise AssumeFailed('assume')

    def check(self, cond, msg='property'):
        self.checked += 1
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def eq(self, a, b):
        return con_equal(a, b, self.cfg.get('tol', 1.0))

    def check_eq(self, a, b, msg='values differ'):
        self.checked += 1
        if not con_equal(a, b, self.cfg.get('tol', 1.0)):
            raise CheckFailed('%s: got %r, expected %r' % (msg, a, b))

    def exp(self, x):
        import numpy as np
        with np.errstate(all='ignore'):
            r = float(np.exp(np.float64(x)))
        lim = (1e-15, 1e15) if self.cfg.get('precision') == 4 else (1e-140, 1e140)
        if self.clip > 20 and np.isfinite(x) and not lim[0] < r < lim[1]:
            raise AssumeFailed('overflow')
        return r

    def log(self, x):
        import numpy as np
        with np.errstate(all='ignore'):
            return float(np.log(np.float64(x)))

    def arr(self, values, dtype=float):
        import numpy as np
        return np.array(values, dtype=dtype)

    def mat(self, rows):
        import numpy as np
        return np.array(rows, dtype=float).reshape(len(rows), len(rows[0]) if rows else 0)

    def series(self, values, index=None, name=None):
        import pandas as pd
        return pd.Series(self.arr(values), index=index, name=name)

    def column(self, values):
        return self.arr(values)

    def keys(self, values):
        import numpy as np
        if any(v is None for v in values):
            return np.array([np.nan if v is None else float(v) for v in values])
        return np.array(values, dtype='int64')

    def collect(self, value):
        pass


def con_equal(a, b, tol=1.0):
    import numpy as np
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, bytes, tuple)) or isinstance(b, (str, bytes, tuple)):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1e-9 + 1e-7 * max(abs(a), abs(b)))   # cfg['tol'] widens it, e.g. for float32 tables
