"""Helpers shared by the harnesses.  Everything here works in both modes (symbolic proxies / concrete floats)."""
import inspect

import numpy as np
import pandas as pd

NEG = float('-inf')


def cheval():
    import cheval
    return cheval


def core():
    from cheval import core
    return core


def utils_matrix(ctx, rows, cols, inf=True, prefix='u'):
    return [[ctx.util('%s%d_%d' % (prefix, i, j)) if inf else ctx.real('%s%d_%d' % (prefix, i, j))
             for j in range(cols)] for i in range(rows)]


def cell(frame, i, j):
    """Positional cell of a DataFrame/array"""
    return frame.iat[i, j] if isinstance(frame, pd.DataFrame) else frame[i, j]


def model_with_table(ctx, u, choices=None, units=None, tree=None, precision=8):
    """A ChoiceModel whose utility table is u (a matrix symbol)."""
    ch = cheval()
    m = ch.ChoiceModel(precision=precision)
    if tree is None:
        m.add_choices(choices or ['c%d' % j for j in range(len(u[0]))])
    else:
        build_tree(m, tree)
    m.decision_units = pd.Index(units or ['row%d' % i for i in range(len(u))])
    m.declare_matrix('mat')
    m['mat'].assign(frame(ctx, u, m.decision_units, m.choices))
    m.expressions.append('mat')
    return m


def frame(ctx, rows, index=None, columns=None):
    return pd.DataFrame(ctx.mat(rows), index=index, columns=columns)


def build_tree(model, tree):
    """tree: list of parent positions (-1 for top level), optionally with logsum scales: [(parent, scale), ...]"""
    nodes = []
    for k, t in enumerate(tree):
        parent, scale = t if isinstance(t, (list, tuple)) else (t, 1.0)
        owner = model if parent < 0 else nodes[parent]
        nodes.append(owner.add_choice('n%d' % k, logsum_scale=scale))
    return nodes


def finite(row):
    return any(x != NEG for x in row)


def outcome(f):
    """('ok', value) or ('error', exception type name)"""
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', type(e).__name__


def fn(ctx, module, name):
    """A function of the package that is not part of its published surface; skip this harness if it is not there, or takes
    other arguments."""
    f = getattr(module, name, None)
    if f is None:
        ctx.skip()
    try:
        sig = inspect.signature(getattr(f, 'py_func', f))
    except (TypeError, ValueError):
        return f

    def call(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError:
            ctx.skip()
        return f(*a, **k)
    return call


def add(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def name_of(kind_value):
    return kind_value[1] if kind_value[0] == 'error' else None
