"""Linked frames with symbolic keys, shared by the harnesses of the link properties."""
from .common import *

FORMS = ['index', 'column', 'level', 'level number']


def ldf():
    return cheval().LinkedDataFrame


def key_side(ctx, form, keys, cls=None, extra=None):
    """A frame whose row i has the key keys[i] (None: null), and the arguments that name the key: {'on': ..} / {'levels': ..}"""
    n = len(keys)
    cls = cls or ldf()
    data = dict(extra or {})
    if form == 'index':
        df = cls(data, index=pd.Index(ctx.keys(keys)))
        return df, {}
    if form == 'named index':
        return cls(data, index=pd.Index(ctx.keys(keys), name='key')), {'levels': 'key'}
    if form == 'column':
        df = cls(data, index=['r%d' % i for i in range(n)])
        df['key'] = ctx.keys(keys)
        return df, {'on': 'key'}
    first = list(range(n))[::-1]     # another level, in another order
    mi = pd.MultiIndex.from_arrays([first, ctx.keys(keys)], names=['other', 'key'])
    return cls(data, index=mi), {'levels': 'key' if form == 'level' else 1}


def connect(frame, other, name, self_arg, other_arg, precompute=True):
    kw = {}
    for k, v in self_arg.items():
        kw['on_self' if k == 'on' else 'self_levels'] = v
    for k, v in other_arg.items():
        kw['on_other' if k == 'on' else 'other_levels'] = v
    return frame.link_to(other, name, precompute=precompute, **kw)


def has_link(frame, name):
    try:
        getattr(frame, name)
    except AttributeError:
        return False
    return True


def match(keys, others):
    """For each key the positions of the equal ones (null keys match nothing).  Tuples are compared level by level."""
    def same(a, b):
        if isinstance(a, tuple):
            return all(same(x, y) for x, y in zip(a, b))
        return a is not None and b is not None and bool(a == b)
    return [[j for j, o in enumerate(others) if same(k, o)] for k in keys]


def some_keys(ctx, prefix, n, nulls=0, hi=None):
    """n symbolic keys; the first `nulls` of them may be null."""
    out = []
    for i in range(n):
        if i < nulls and ctx.flag('%s%d is null' % (prefix, i)):
            out.append(None)
        else:
            out.append(ctx.key('%s%d' % (prefix, i), 0, 50) if hi is None else ctx.key('%s%d' % (prefix, i), 0, hi))
    return out


def values(s):
    """The cells of a Series (symbolic or not)."""
    return [s.iat[i] for i in range(len(s))]


def same(ctx, got, want):
    """Equality of cells: missing values equal each other."""
    def null(x):
        return x is None or x is pd.NaT or x is pd.NA or isinstance(x, (float, np.floating)) and x != x or \
            isinstance(x, np.datetime64) and np.isnat(x)
    if null(got) or null(want):
        return null(got) and null(want)
    return ctx.eq(got, want)


def check_series(ctx, s, index, want, what):
    ctx.check(isinstance(s, pd.Series) and len(s) == len(want), '%s: the result is a %s of %s rows' % (what, type(s).__name__, len(s)))
    ctx.check(all(same(ctx, x, y) for x, y in zip(s.index, index)), '%s: the rows of the result are %s' % (what, list(s.index)))
    got = values(s)
    for i, w in enumerate(want):
        ctx.check(same(ctx, got[i], w), '%s: row %d is %r instead of %r' % (what, i, got[i], w))
