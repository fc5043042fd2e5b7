"""Stand-in for the numpy module inside the code under test while it is executed symbolically.

Float allocations become object arrays (so that they can hold symbolic reals), element-wise functions are applied element by
element, np.random is a symbolic stream.  Everything else is numpy itself.
"""
from __future__ import annotations

import itertools
import math
import types

import numpy as np
import z3

from . import engine, real
from .engine import SBool, SInt
from .real import SReal


def sym():
    return engine.CUR is not None


def is_float_dtype(dtype):
    if dtype is None:
        return True
    if dtype is object:
        return False
    try:
        return np.dtype(dtype).kind == 'f'
    except TypeError:
        return False


# -- arrays that record which elements are touched inside a parallel loop --------------------------------------------------
_ids = itertools.count(1)


class TArr(np.ndarray):
    _idx = None
    _base = None

    def __array_finalize__(self, obj):
        self._idx = None
        self._base = None

    def track(self, shared=False):
        # a buffer made inside compiled code gets an identity of its own (addresses are re-used when temporaries are freed);
        # arguments of the outermost compiled call stay alive during it, so their address identifies aliases
        self._idx = np.arange(self.size).reshape(self.shape)
        self._base = self.__array_interface__['data'][0] if shared else -next(_ids)
        return self

    def _log(self, idx, write):
        L = LOG.cur
        if L is None or idx is None:
            return
        s = L[1 if write else 0]
        for k in np.ravel(idx):
            s.add((self._base, int(k)))

    def __getitem__(self, item):
        item = _plain_index(item)
        r = super().__getitem__(item)
        if self._idx is not None:
            sub = self._idx[item]
            if isinstance(r, TArr):
                r._idx, r._base = np.asarray(sub), self._base
            else:
                self._log(sub, False)
        return r

    def __setitem__(self, item, value):
        item = _plain_index(item)
        if self._idx is not None:
            self._log(self._idx[item], True)
        if isinstance(value, TArr):
            value._log(value._idx, False)
        super().__setitem__(item, value)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError
        for i in range(len(self)):
            yield self[i]

    def astype(self, dtype, *a, **k):
        self._log(self._idx, False)
        if self.dtype == object and is_float_dtype(dtype):
            r = self.copy()
            r._idx = None
            return r.track()
        r = super().astype(dtype, *a, **k)
        return r.track() if isinstance(r, TArr) else r

    def copy(self, *a, **k):
        self._log(self._idx, False)
        return super().copy(*a, **k).track()

    def fill(self, v):
        self[...] = v

    def __array_wrap__(self, a, context=None, *rest):
        if np.ndim(a) == 0:     # reductions of a subclass would otherwise stay (mutable) 0-d arrays
            return a[()] if isinstance(a, np.ndarray) else a
        return super().__array_wrap__(a, context, *rest)

    def __iadd__(self, o):
        self._log(self._idx, False)
        self[...] = np.asarray(self) + o
        return self

    def __isub__(self, o):
        self._log(self._idx, False)
        self[...] = np.asarray(self) - o
        return self

    def __imul__(self, o):
        self._log(self._idx, False)
        self[...] = np.asarray(self) * o
        return self

    def __itruediv__(self, o):
        self._log(self._idx, False)
        self[...] = np.asarray(self) / o
        return self


def _reduction(name):
    def f(self, *a, **k):
        self._log(self._idx, False)
        r = getattr(np.asarray(self), name)(*a, **k)
        return r.view(TArr).track() if isinstance(r, np.ndarray) and r.ndim else r
    f.__name__ = name
    return f


for _n in ('sum', 'max', 'min', 'prod', 'mean', 'any', 'all', 'argmax', 'argmin', 'cumsum'):
    setattr(TArr, _n, _reduction(_n))


def _plain_index(item):
    if isinstance(item, SInt):
        return item.__index__()
    if isinstance(item, tuple):
        return tuple(i.__index__() if isinstance(i, SInt) else (np.asarray(i) if isinstance(i, TArr) else i) for i in item)
    if isinstance(item, TArr):
        return np.asarray(item)
    return item


class _Log:
    cur = None


LOG = _Log()


class NumbaState:
    """What numba's runtime knows: the call stack of compiled functions and the thread's random state."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.stack = []       # True for a parallel=True function
        self.rng = None       # ('seed key', position) of the current thread, None = unknown
        self.in_prange = 0
        self.order = None     # function: list of iterations -> order in which they run
        self.nondet = 0
        self.threads = 1
        self.iteration = None # of the parallel loop that runs
        self.seeds = []       # (iteration, seed) of the streams started inside parallel loops
        self.ints = []        # (integer, number of values it can have) drawn from streams

    @property
    def depth(self):
        return len(self.stack)


NB = NumbaState()


# -- element-wise functions ------------------------------------------------------------------------------------------
def _wrap(a, like=None):
    a = np.asarray(a)
    if NB.depth:
        return a.view(TArr).track()
    return a


def has_sym(x):
    if isinstance(x, (SReal, SBool, SInt)):
        return True
    return isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) and any(has_sym(i) for i in x)


def elementwise(name, f, bool_result=False):
    orig = getattr(np, name)

    def g(*args, out=None, **kw):
        # exp and log of constants stay symbolic as well: a rounded value would differ from the exact one
        if not sym() or not (name in ('exp', 'log') or any(has_sym(a) for a in args)):
            with np.errstate(all='ignore'):
                r = orig(*args, **kw) if out is None else orig(*args, out=out, **kw)
            return r
        if all(isinstance(a, (SReal, SInt, SBool)) or np.ndim(a) == 0 for a in args):
            return f(*[a.item() if isinstance(a, np.ndarray) else a for a in args])
        bs = np.broadcast_arrays(*[_objarr(a) for a in args])
        r = np.empty(bs[0].shape, dtype=bool if bool_result else object)
        flat = [np.asarray(b).ravel() for b in bs]
        rr = r.reshape(-1)
        for k in range(rr.size):
            rr[k] = f(*[fl[k] for fl in flat])
        if out is not None:
            out[...] = r
            return out
        return _wrap(r)
    g.__name__ = name
    return g


def _objarr(a):
    if isinstance(a, np.ndarray):
        return np.asarray(a)
    if hasattr(a, '_d'):
        return a._d
    if isinstance(a, (SReal, SInt, SBool)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if hasattr(a, 'to_numpy'):
        return np.asarray(a.to_numpy())
    if isinstance(a, (list, tuple)) and has_sym(a):
        r = np.empty(len(a), dtype=object)
        for i, v in enumerate(a):
            r[i] = v
        return r
    return np.asarray(a)


def _f1(name):
    nf = getattr(np, name)

    def f(x):
        if isinstance(x, SReal):
            return real.s_fn(name, x)
        with np.errstate(all='ignore'):
            return float(nf(float(x)))
    return f


def _isnan(x): return isinstance(x, float) and x != x
def _isinf(x): return isinstance(x, float) and math.isinf(x)
def _isfinite(x): return not (isinstance(x, float) and not math.isfinite(x))


def _max2(a, b):
    if _isnan(a) or _isnan(b):
        return float('nan')
    return a if bool(a >= b) else b


def _min2(a, b):
    if _isnan(a) or _isnan(b):
        return float('nan')
    return a if bool(a <= b) else b


def _div(a, b):
    if not isinstance(b, SReal) and b == 0 or isinstance(b, SReal) and bool(b == 0):
        if isinstance(a, SReal):
            s = a._sign()
        else:
            s = 0 if (a == 0 or a != a) else (1 if a > 0 else -1)
        return float('nan') if s == 0 else math.copysign(float('inf'), s)
    return a / b


def _sqrt(x):
    return real.s_pow(x, 0.5) if isinstance(x, SReal) else float(np.sqrt(x))


def _sign(x):
    return float(x._sign()) if isinstance(x, SReal) else float(np.sign(x))


def _logaddexp(a, b):
    return real.s_log(real.s_exp(a) + real.s_exp(b))


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if _isnan(x):
        return nan
    if isinstance(x, float) and math.isinf(x):
        big = np.finfo(float).max
        return (posinf if posinf is not None else big) if x > 0 else (neginf if neginf is not None else -big)
    return x


OVER = {}
for _n, _f, _b in [('exp', real.s_exp, 0), ('log', real.s_log, 0), ('isnan', _isnan, 1), ('isinf', _isinf, 1),
                   ('isfinite', _isfinite, 1), ('maximum', _max2, 0), ('minimum', _min2, 0), ('sqrt', _sqrt, 0),
                   ('fmax', _max2, 0), ('fmin', _min2, 0), ('divide', _div, 0), ('true_divide', _div, 0),
                   ('power', real.s_pow, 0), ('float_power', real.s_pow, 0), ('sign', _sign, 0),
                   ('logaddexp', _logaddexp, 0), ('log1p', lambda x: real.s_log(x + 1), 0),
                   ('expm1', lambda x: real.s_exp(x) - 1, 0)]:
    OVER[_n] = elementwise(_n, _f, bool(_b))
for _n in ('log10', 'log2', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arcsin', 'arccos', 'arctan', 'floor', 'ceil'):
    OVER[_n] = elementwise(_n, _f1(_n))


def _nan_to_num_arr(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not sym() or not has_sym(x):
        return np.nan_to_num(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
    a = _objarr(x)
    r = a if not copy else a.copy()
    flat = r.reshape(-1)
    for i in range(flat.size):
        flat[i] = _nan_to_num(flat[i], copy, nan, posinf, neginf)
    return r


OVER['nan_to_num'] = _nan_to_num_arr


def _alloc(name):
    orig = getattr(np, name)

    def g(shape, *args, **kw):
        dtype = kw.get('dtype', None)
        rest = list(args)
        fill = None
        if name == 'full':
            fill = rest.pop(0) if rest else kw.pop('fill_value')
        if dtype is None and rest:
            dtype = rest[0]
        kw.pop('dtype', None)
        if name == 'full' and dtype is None:
            dtype = float if isinstance(fill, (float, SReal)) else None
            if dtype is None:
                return _wrap(np.full(shape, fill)) if NB.depth else np.full(shape, fill)
        if sym() and (is_float_dtype(dtype) or isinstance(fill, SReal)):
            r = np.empty(shape, dtype=object)
            r[...] = 0.0 if name == 'zeros' else 1.0 if name == 'ones' else fill if name == 'full' else float('nan')
        else:
            r = np.full(shape, fill, dtype=dtype) if name == 'full' else orig(shape, dtype=dtype or float)
        return r.view(TArr).track() if NB.depth and sym() else r
    g.__name__ = name
    return g


for _n in ('zeros', 'ones', 'empty', 'full'):
    OVER[_n] = _alloc(_n)


def _alloc_like(name):
    orig = getattr(np, name)

    def g(a, *args, **kw):
        if sym() and isinstance(a, np.ndarray) and (a.dtype == object or is_float_dtype(kw.get('dtype', a.dtype))):
            base = name[:-5]
            dt = kw.get('dtype')
            if dt is None:
                dt = float
            if base == 'full':
                return OVER['full'](a.shape, args[0] if args else kw['fill_value'], dtype=dt)
            return OVER[base](a.shape, dtype=dt)
        r = orig(np.asarray(a), *args, **kw)
        return _wrap(r) if NB.depth and sym() else r
    return g


for _n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
    OVER[_n] = _alloc_like(_n)


def _conv(name):
    orig = getattr(np, name)

    def g(a, dtype=None, *args, **kw):
        if sym() and dtype is not None and is_float_dtype(dtype) and has_sym(_objarr(a)):
            r = _objarr(a)
            if not any(type(v).__name__ == 'NAType' for v in r.ravel()):     # pandas.NA is not a number: numpy refuses it
                return r.copy() if name == 'array' else r
        if dtype is not None:
            kw['dtype'] = dtype
        return orig(a, *args, **kw)
    return g


for _n in ('array', 'asarray', 'ascontiguousarray', 'asanyarray'):
    OVER[_n] = _conv(_n)


def _any(a, *args, **kw):
    if sym() and has_sym(a) and not args and not kw:
        for v in _objarr(a).ravel():
            if bool(v):
                return True
        return False
    return np.any(a, *args, **kw)


def _all(a, *args, **kw):
    if sym() and has_sym(a) and not args and not kw:
        for v in _objarr(a).ravel():
            if not bool(v):
                return False
        return True
    return np.all(a, *args, **kw)


OVER['any'] = _any
OVER['all'] = _all


def _reduce_nan(name):
    orig = getattr(np, name)

    def g(a, *args, **kw):
        if sym() and has_sym(a):
            x = _objarr(a)
            y = np.empty(x.shape, dtype=object)
            fy, fx = y.reshape(-1), x.reshape(-1)
            for i in range(fx.size):
                fy[i] = 0.0 if _isnan(fx[i]) else fx[i]
            return np.sum(y, *args, **kw)
        return orig(a, *args, **kw)
    return g


OVER['nansum'] = _reduce_nan('nansum')


def _close(name):
    orig = getattr(np, name)

    def g(a, b, *args, **kw):
        if sym() and (has_sym(a) or has_sym(b)):
            x, y = np.broadcast_arrays(_objarr(a), _objarr(b))
            r = np.empty(x.shape, dtype=bool)
            for i in np.ndindex(x.shape):
                r[i] = bool(real.values_equal(x[i], y[i]))
            return bool(r.all()) if name != 'isclose' else r
        return orig(a, b, *args, **kw)
    return g


for _n in ('isclose', 'allclose', 'array_equal'):
    OVER[_n] = _close(_n)


# -- random numbers ------------------------------------------------------------------------------------------------------
class RandomShim:
    """np.random inside compiled code: each thread has its own state; an element of a seeded stream is a symbolic constant
    determined by (seed, position); drawing from an unseeded or thread-dependent state gives an arbitrary value."""

    def __getattr__(self, name):
        if not sym() or not NB.depth:
            return getattr(np.random, name)
        return super().__getattribute__(name)

    def seed(self, s=None):
        if not (sym() and NB.depth):
            return np.random.seed(s)
        if isinstance(s, SInt):
            key = str(s.z)
        else:
            key = str(int(s))
        NB.rng = [key, 0]
        if NB.in_prange:
            NB.seeds.append((NB.iteration, s))

    def _array_draw_is_thread_dependent(self):
        return NB.stack[-1] and not NB.in_prange

    def _one(self, kind, lo, hi, threaded):
        e = engine.CUR
        if threaded or NB.rng is None:
            NB.nondet += 1
            name = e.fresh('nondet')
        else:
            name = '%s[%s][%d]' % (kind, NB.rng[0], NB.rng[1])
            NB.rng[1] += 1
        if kind == 'rnd':
            # doubles drawn are multiples of 2**-53 (0 left out: C03 has it)
            return engine.SymCtx(e).real(name, lo=max(float(lo), 2.0 ** -53) if 0 <= lo < 1e-300 else float(lo), hi=float(hi), hi_open=True)
        z = z3.Int(name)
        if name not in e.memo:
            e.memo[name] = True
            e.inputs[name] = ('int', z)
            e.add(z >= int(lo), z < int(hi))
            NB.ints.append((SInt(z), int(hi) - int(lo)))
        return SInt(z)

    def _draw(self, kind, lo, hi, size):
        if size is None:
            return self._one(kind, lo, hi, False)
        t = self._array_draw_is_thread_dependent()
        shape = size if isinstance(size, tuple) else (int(size),)
        r = np.empty(shape, dtype=object)
        f = r.reshape(-1)
        for i in range(f.size):
            f[i] = self._one(kind, lo, hi, t)
        return r.view(TArr).track()

    def uniform(self, low=0.0, high=1.0, size=None):
        if not (sym() and NB.depth):
            return np.random.uniform(low, high, size)
        return self._draw('rnd', low, high, size)

    def random(self, size=None): return self.uniform(0.0, 1.0, size)
    random_sample = ranf = sample = random

    def rand(self, *shape): return self.uniform(0.0, 1.0, shape or None)

    def randint(self, low, high=None, size=None, dtype=None):
        if not (sym() and NB.depth):
            return np.random.randint(low, high, size)
        if high is None:
            low, high = 0, low
        return self._draw('rint', low, high, size)


class Shim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.random = RandomShim()

    def __getattr__(self, name):
        if name in OVER:
            return OVER[name]
        return getattr(np, name)

    def __dir__(self):
        return dir(np)


SHIM = Shim()


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        if name == 'exp':
            return lambda x: real.s_exp(x) if sym() else math.exp(x)
        if name == 'log':
            def log(x, *b):
                if isinstance(x, SReal) or sym() and x > 0:
                    r = real.s_log(x)
                    return r / real.s_log(b[0]) if b else r
                return math.log(x, *b)
            return log
        if name in ('isnan', 'isinf', 'isfinite'):
            return lambda x: {'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite}[name](x) if isinstance(x, SReal) \
                else getattr(math, name)(x)
        if name == 'pow':
            return lambda a, b: real.s_pow(a, b)
        if name == 'fsum':
            return lambda xs: sum(xs) if any(isinstance(x, SReal) for x in xs) else math.fsum(xs)
        return getattr(math, name)


MATH = MathShim()


class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, float)
    def __subclasscheck__(cls, c): return issubclass(c, float)
    def __eq__(cls, o): return o is float or o is symfloat
    def __hash__(cls): return hash(float)


class symfloat(float, metaclass=_FloatMeta):
    """The builtin float as seen by the code under test."""
    dtype = np.dtype('f8')

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
            x = x.item()
        if isinstance(x, (SReal, SInt)) and sym():
            return x if isinstance(x, SReal) else real.from_int(x)
        return float(x)
