"""Stand-in for the numba module: functions run as plain Python, parallel loops are executed iteration by iteration while
their accesses are recorded, and the order of iterations is chosen by the harness."""
from __future__ import annotations

import functools
import sys
import types

import numpy as np

from . import engine
from .npshim import LOG, NB, TArr, sym


class ParallelError(SystemError):
    """An exception left a parallel loop body; numba loses it or turns it into a SystemError."""


class _Type:
    def __init__(self, name='type'):
        self._n = name

    def __call__(self, *a, **k):
        # used both as a signature constructor and (rarely) as a cast inside compiled code
        if len(a) == 1 and not k and isinstance(a[0], (int, float, bool, np.generic)):
            if 'int' in self._n:
                return int(a[0])
            return a[0]
        return _Type('sig')

    def __getitem__(self, i): return _Type('arr')
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Type(n)


def _wrap_arg(a):
    if isinstance(a, np.ndarray) and not isinstance(a, TArr):
        return a.view(TArr).track(shared=True)
    return a


def _strip(r):
    if isinstance(r, TArr):
        return r.view(np.ndarray)
    if isinstance(r, tuple):
        return tuple(_strip(x) for x in r)
    if isinstance(r, list):
        return [_strip(x) for x in r]
    return r


def _decorate(f, parallel):
    @functools.wraps(f)
    def g(*args, **kw):
        if not sym():
            return f(*args, **kw)
        top = NB.depth == 0
        if top:
            args = tuple(_wrap_arg(a) for a in args)
            kw = {k: _wrap_arg(v) for k, v in kw.items()}
        entry = NB.in_prange, LOG.cur
        NB.stack.append(parallel)
        if parallel:
            NB.in_prange = 0   # its own loops; a parallel function called inside a parallel loop runs them serially
        try:
            r = f(*args, **kw)
        except Exception as e:
            if parallel and NB.in_prange:
                raise ParallelError('%s left a parallel loop: %s' % (type(e).__name__, e)) from e
            raise
        finally:
            NB.stack.pop()
            NB.in_prange, LOG.cur = entry
        return _strip(r) if top else r
    g.py_func = f
    g.signatures = []
    return g


def njit(*args, **kw):
    parallel = bool(kw.get('parallel', False))
    if len(args) == 1 and not kw and callable(args[0]) and not isinstance(args[0], _Type):
        return _decorate(args[0], False)
    return lambda f: _decorate(f, parallel)


def prange(*a):
    its = list(range(*[int(x) for x in a]))
    if not sym() or not NB.stack or not NB.stack[-1] or NB.in_prange or LOG.cur is not None:
        yield from its          # numba: a nested prange, or one outside a parallel function, is an ordinary range
        return
    order = NB.order(its) if NB.order is not None else its
    logs = []
    for i in order:
        NB.in_prange = 1
        NB.iteration = i
        NB.rng = None
        LOG.cur = (set(), set())
        logs.append((i, LOG.cur))
        yield i   # an exception in the loop body never comes back here: the enclosing compiled function cleans up
        NB.in_prange = 0
        LOG.cur = None
    NB.rng = None
    _conflicts(logs)


def _conflicts(logs):
    e = engine.CUR
    writers, readers = {}, {}
    for i, (rd, wr) in logs:
        for c in wr:
            writers.setdefault(c, set()).add(i)
        for c in rd:
            readers.setdefault(c, set()).add(i)
    for c, w in writers.items():
        others = readers.get(c, set()) - w if len(w) == 1 else set()
        if len(w) > 1 or others:
            e.races.append((sorted(w)[:2], sorted(others)[:2], c[1]))


def install():
    m = types.ModuleType('numba')
    m.njit = njit
    m.jit = njit
    m.prange = prange
    m.set_num_threads = lambda n: setattr(NB, 'threads', int(n))
    m.get_num_threads = lambda: NB.threads
    m.get_thread_id = lambda: 0

    def vectorize(*a, **k):
        if len(a) == 1 and callable(a[0]) and not isinstance(a[0], _Type):
            return np.vectorize(a[0], otypes=[object])
        return lambda f: np.vectorize(f, otypes=[object])
    m.vectorize = vectorize

    class _Cfg:
        NUMBA_NUM_THREADS = 8
        NUMBA_DEFAULT_NUM_THREADS = 8
    m.config = _Cfg()
    m.__version__ = '0.0'
    m.__path__ = []

    def getattr_(name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Type(name)
    m.__getattr__ = getattr_
    sys.modules['numba'] = m
    for sub in ('core', 'core.types', 'types', 'np', 'typed', 'core.errors', 'extending'):
        s = types.ModuleType('numba.' + sub)
        s.__getattr__ = getattr_
        s.__path__ = []
        sys.modules['numba.' + sub] = s
    sys.modules['numba.core'].types = sys.modules['numba.core.types']
    m.core = sys.modules['numba.core']
    m.types = sys.modules['numba.types']
    return m
