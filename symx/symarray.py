"""A pandas column of symbolic reals that the code under test treats like an ordinary float column."""
from __future__ import annotations

import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype, register_extension_dtype


@register_extension_dtype
class SymDtype(ExtensionDtype):
    name = 'symreal'
    type = object
    kind = 'f'
    _is_numeric = True
    na_value = np.nan
    dtype = np.dtype('O')

    @classmethod
    def construct_array_type(cls):
        return SymArray

    @classmethod
    def construct_from_string(cls, string):
        if string == 'symreal':
            return cls()
        raise TypeError(string)

    def __eq__(self, o):
        if isinstance(o, str):
            return o == 'symreal'
        return isinstance(o, SymDtype) or o in (np.float64, float) or (isinstance(o, np.dtype) and o == np.dtype('f8'))

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash('symreal')


class SymArray(ExtensionArray):
    def __init__(self, data):
        d = np.asarray(data)
        if d.dtype != object:
            d = d.astype(object)
        self._d = d.view(np.ndarray)

    @classmethod
    def _from_sequence(cls, scalars, *, dtype=None, copy=False):
        a = np.empty(len(scalars), dtype=object)
        for i, v in enumerate(scalars):
            a[i] = v
        return cls(a)

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(values)

    def __getitem__(self, item):
        if isinstance(item, ExtensionArray):
            item = np.asarray(item)
        r = self._d[item]
        return SymArray(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, value):
        if isinstance(value, SymArray):
            value = value._d
        self._d[key] = value

    def __len__(self): return len(self._d)

    def __eq__(self, o):
        return np.asarray(self._d == (o._d if isinstance(o, SymArray) else o), dtype=bool)

    @property
    def dtype(self): return SymDtype()

    @property
    def nbytes(self): return self._d.nbytes

    @property
    def shape(self): return self._d.shape

    def isna(self):
        return np.array([isinstance(v, float) and v != v or v is None for v in self._d], dtype=bool)

    def take(self, indices, *, allow_fill=False, fill_value=None):
        from pandas.api.extensions import take
        if allow_fill and fill_value is None:
            fill_value = np.nan
        return SymArray(take(self._d, indices, fill_value=fill_value, allow_fill=allow_fill))

    def copy(self): return SymArray(self._d.copy())

    def __array__(self, dtype=None):
        if dtype is None or dtype == object:
            return self._d
        return self._d.astype(dtype)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self._d.copy() if copy else self._d

    @classmethod
    def _concat_same_type(cls, to_concat):
        return cls(np.concatenate([a._d for a in to_concat]))

    def _values_for_factorize(self): return self._d, np.nan
    def _values_for_argsort(self): return self._d

    def _formatter(self, boxed=False): return repr
    def __repr__(self): return 'SymArray(%r)' % (list(self._d),)

    def _reduce(self, name, *, skipna=True, ddof=1, min_count=0, **kw):
        """What the reductions of a float column compute, over exact reals."""
        x = list(self._d)
        null = [bool(n) for n in self.isna()]
        if any(null):
            if not skipna:
                return np.nan
            x = [v for v, n in zip(x, null) if not n]
        n = len(x)
        if n < max(min_count, 0) or (n == 0 and name not in ('sum', 'prod')):
            return np.nan
        if name == 'sum':
            return sum(x, 0.0)
        if name == 'prod':
            r = 1.0
            for v in x:
                r = r * v
            return r
        if name == 'mean':
            return sum(x, 0.0) / n
        if name in ('max', 'min'):
            r = x[0]
            for v in x[1:]:
                if (v > r) if name == 'max' else (v < r):
                    r = v
            return r
        if name in ('var', 'std', 'sem'):
            if n <= ddof:
                return np.nan
            m = sum(x, 0.0) / n
            v = sum(((a - m) * (a - m) for a in x), 0.0) / (n - ddof)
            return v if name == 'var' else np.sqrt(v) if isinstance(v, float) else v.sqrt()
        if name == 'median':
            out = []
            for v in x:
                k = 0
                while k < len(out) and out[k] < v:
                    k += 1
                out.insert(k, v)
            return out[n // 2] if n % 2 else (out[n // 2 - 1] + out[n // 2]) / 2
        return getattr(pd.Series(self._d), name)(skipna=skipna, **kw)


def _op(name):
    import operator
    f = getattr(operator, name)

    def method(self, o):
        if isinstance(o, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
        if isinstance(o, SymArray):
            o = o._d
        return SymArray(f(self._d, o))

    def rmethod(self, o):
        if isinstance(o, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
        if isinstance(o, SymArray):
            o = o._d
        return SymArray(f(o, self._d))
    return method, rmethod


for _n in ('add', 'sub', 'mul', 'truediv'):
    _m, _r = _op(_n)
    setattr(SymArray, '__%s__' % _n, _m)
    setattr(SymArray, '__r%s__' % _n, _r)


def _cmp(name):
    import operator
    f = getattr(operator, name)

    def method(self, o):
        if isinstance(o, (pd.Series, pd.DataFrame, pd.Index)):
            return NotImplemented
        if isinstance(o, SymArray):
            o = o._d
        return np.asarray(f(self._d, o), dtype=bool)
    return method


for _n in ('lt', 'le', 'gt', 'ge', 'ne'):
    setattr(SymArray, '__%s__' % _n, _cmp(_n))
