"""Stand-in for numexpr.evaluate on symbolic data: the expression text is evaluated element by element."""
from __future__ import annotations

import ast
import types

import numexpr as _ne
import numpy as np

from . import npshim, real
from .npshim import OVER, _objarr, has_sym, sym


class _V(np.ndarray):
    """Object or plain array whose operators follow numexpr (division by zero gives an infinity or NaN)."""

    def __truediv__(self, o): return _v(OVER['divide'](np.asarray(self), np.asarray(o)) if _needs(self, o) else
                                        np.true_divide(np.asarray(self), np.asarray(o)))

    def __rtruediv__(self, o): return _v(o).__truediv__(self)

    def __pow__(self, o): return _v(OVER['power'](np.asarray(self), np.asarray(o)) if _needs(self, o) else
                                    np.power(np.asarray(self, dtype=float), np.asarray(o)))

    def __rpow__(self, o): return _v(o).__pow__(self)


def _needs(a, b):
    return np.asarray(a).dtype == object or np.asarray(b).dtype == object


def _v(x):
    a = np.asarray(_objarr(x))
    if a.dtype.kind in 'iu' and a.dtype.itemsize < 4:
        a = a.astype(np.int32)     # numexpr knows no smaller integers
    return a.view(_V)


def _where(c, a, b):
    c = np.asarray(c)
    if c.dtype == object:
        c = np.array([bool(x) for x in c.ravel()], dtype=bool).reshape(c.shape)
    return _v(np.where(c, np.asarray(a), np.asarray(b)))


_FUNCS = {'where': _where}


def _func(name):
    f = OVER.get({'arctan2': 'arctan2', 'abs': 'abs'}.get(name, name))
    if f is not None:
        return lambda *a: _v(f(*[np.asarray(x) for x in a]))
    if name == 'abs':
        return lambda a: _v(np.abs(np.asarray(a)))
    if name in ('min', 'max', 'sum', 'prod'):
        return lambda a, *r, **k: _v(getattr(np, name)(np.asarray(a), *r, **k))
    if hasattr(np, name):
        return lambda *a: _v(getattr(np, name)(*[np.asarray(x) for x in a]))
    raise ValueError('function %s' % name)


def evaluate(ex, local_dict=None, global_dict=None, out=None, order='K', casting='safe', **kw):
    data = dict(local_dict or {})
    if not sym():
        return _ne.evaluate(ex, local_dict=local_dict, global_dict=global_dict, out=out, order=order, casting=casting, **kw)
    names, calls = set(), set()
    tree = ast.parse(ex.strip(), mode='eval')
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            calls.add(n.func.id)
    skip = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and id(n) not in skip:
            names.add(n.id)
    env = {}   # names that are not data or functions were refused above
    for n in calls:
        env[n] = _FUNCS.get(n) or _func(n)
    for n in names:
        if n in ('True', 'False'):
            continue
        if n not in data:
            raise KeyError(n)
        env[n] = _v(data[n])
    # constants take part as arrays too, so that ~True and 1/0 behave as in numexpr
    tree = ast.fix_missing_locations(_Const().visit(tree))
    env['_v'] = _v
    r = np.asarray(eval(compile(tree, '<expr>', 'eval'), env))
    if out is not None:
        # numexpr broadcasts the operands and the output together: the result must fit the output exactly
        if np.broadcast_shapes(r.shape, out.shape) != out.shape:
            raise ValueError('operands could not be broadcast to the output')
        if out.dtype != object and r.dtype == object:
            r = np.array([real.num(x) for x in r.ravel()]).reshape(r.shape)
        if out.dtype != object and not np.can_cast(r.dtype, out.dtype, casting=casting):
            raise TypeError('Iterator operand 0 cannot be cast to %s' % out.dtype)
        np.copyto(out, r, casting='unsafe')
        return out
    return r


class _Const(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, str):
            n = ast.Constant(n.value.encode())   # numexpr compares byte strings
        return ast.Call(func=ast.Name('_v', ast.Load()), args=[n], keywords=[])


class NE(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_ne, n)


SHIM = NE('numexpr')
SHIM.evaluate = evaluate
SHIM.set_num_threads = lambda n: 1
SHIM.set_vml_num_threads = lambda n: 1
