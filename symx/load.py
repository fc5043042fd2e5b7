"""Load cheval from /repo: `symbolic()` with the stand-ins (numba, numpy, numexpr), `real()` exactly as users get it."""
from __future__ import annotations

import importlib
import math
import os
import sys
import tempfile
import warnings

REPO = os.environ.get('CHEVAL_REPO', '/repo')
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_loaded = {}
FUNCS = set()


def _prep():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)   # after the environment's own packages
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(20000)


def real():
    _prep()
    if 'NUMBA_CACHE_DIR' not in os.environ:
        os.environ['NUMBA_CACHE_DIR'] = tempfile.mkdtemp(prefix='nbcache')
    import cheval
    return cheval


def _monitor():
    m = sys.monitoring
    try:
        m.use_tool_id(3, 'symx')
    except ValueError:
        return
    root = os.path.realpath(os.path.join(REPO, 'cheval'))

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root) and not code.co_name.startswith('<'):
            FUNCS.add('%s:%s' % (os.path.relpath(fn, os.path.dirname(root)), code.co_qualname))
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)


def symbolic():
    if 'sym' in _loaded:
        return _loaded['sym']
    _prep()
    from . import fakenumba, nestub, npshim
    import numexpr
    import numpy as np
    import pandas  # before numba is replaced
    fakenumba.install()
    _monitor()
    cheval = importlib.import_module('cheval')
    mods = [m for n, m in list(sys.modules.items()) if n == 'cheval' or n.startswith('cheval.')]
    # any module global that *is* numpy / numexpr / math, or one of the replaced functions, under whatever name
    over = {id(getattr(np, n)): f for n, f in npshim.OVER.items() if hasattr(np, n)}
    for mod in mods:
        for k, v in list(vars(mod).items()):
            if v is np:
                setattr(mod, k, npshim.SHIM)
            elif v is numexpr:
                setattr(mod, k, nestub.SHIM)
            elif v is math:
                setattr(mod, k, npshim.MATH)
            elif v is np.random:
                setattr(mod, k, npshim.SHIM.random)
            elif v is numexpr.evaluate:
                setattr(mod, k, nestub.evaluate)
            elif id(v) in over and callable(v) and not isinstance(v, type):
                setattr(mod, k, over[id(v)])
        if not hasattr(mod, 'float'):
            mod.float = npshim.symfloat   # float(x) of a symbolic real is the real itself
    _patch_series()
    import z3
    z3.set_param('smt.random_seed', 1)
    _loaded['sym'] = cheval
    return cheval


def _patch_series():
    """A Series made of an array of symbolic reals is a float-like column, as the array of floats it stands for would be."""
    import numpy as np
    import pandas.core.series as ps
    from . import engine
    from .real import SReal
    from .symarray import SymArray
    orig = ps.sanitize_array

    def sanitize_array(data, index, dtype=None, *a, **k):
        if engine.CUR is not None and isinstance(data, np.ndarray) and data.dtype == object and data.ndim == 1 and dtype is None:
            if any(isinstance(v, SReal) for v in data) and all(isinstance(v, (SReal, float, int)) or v is None for v in data) or \
                    len(data) and all(type(v) in (float, np.float64) for v in data):
                data = SymArray(data)
        return orig(data, index, dtype, *a, **k)
    ps.sanitize_array = sanitize_array
    import pandas.core.dtypes.cast as pc
    pc._maybe_promote_cached = lambda dtype, fill, kind: pc._maybe_promote(dtype, fill)   # a cache would compare values across paths


def functions():
    return sorted(FUNCS)
