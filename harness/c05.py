"""C05: infeasible decision units are reported, or zeroed when the check is off."""
from .common import *

BOUNDS = {
    'quick': 'tables of up to 3x2 and 2x3 cells and nested models of 4..6 nodes with up to 2 units; each cell any real or -inf, one '
             'cell at any position NaN; stochastic runs with the check on and off, discrete runs of 1..2 draws, groups; 1100 units of which one has no feasible alternative, flat and nested',
    'thorough': 'tables of up to 3x3 and 2x4 cells and nested models of 4..7 nodes with up to 2 units; otherwise as quick'}
ASSUME = ['real arithmetic (no rounding, overflow or underflow): a feasible utility has a positive exponential']

NAN = float('nan')
SMALL = [-1, 0, 0, -1]


def jobs(tier):
    big = tier == 'thorough'
    out = []
    shapes = [(1, 2), (2, 2), (3, 2), (2, 3)] + ([(3, 3), (2, 4)] if big else [])
    for rows, cols in shapes:
        for check in (True, False):
            out.append(('h_stochastic', dict(rows=rows, cols=cols, check=check)))
        out.append(('h_nan', dict(rows=rows, cols=cols)))
        if rows * cols <= 6:
            for draws in (1, 2):
                out.append(('h_discrete', dict(rows=rows, cols=cols, draws=draws)))
    trees = [(SMALL, 1), (SMALL, 2), ([-1, -1, 0, 0], 1), ([-1, 0, 0, -1, 3, 3], 1)] + ([([-1, -1, 0, 0, 2, 2], 1)] if big else [])
    for tree, rows in trees:
        for check in (True, False):
            out.append(('h_stochastic', dict(tree=tree, rows=rows, cols=len(tree), check=check)))
        if rows * len(tree) <= 6:
            out.append(('h_nan', dict(tree=tree, rows=rows, cols=len(tree))))
            out.append(('h_discrete', dict(tree=tree, rows=rows, cols=len(tree), draws=1)))
    out.append(('h_discrete', dict(tree=SMALL, rows=1, cols=4, draws=2)))
    out.append(('h_threads', dict(rows=2, cols=2)))
    out.append(('h_threads', dict(tree=SMALL, rows=2, cols=4)))
    out += [('h_long', {}), ('h_long', dict(tree=[-1, -1, 0, 0]))]
    return out


def feasible_units(ctx, u):
    tree = ctx.cfg.get('tree')
    if not tree:
        return [finite(r) for r in u]
    kids = {k: [j for j in range(len(tree)) if tree[j] == k] for k in range(-1, len(tree))}

    def ok(row, k):
        return row[k] != NEG and (not kids[k] or any(ok(row, j) for j in kids[k]))
    return [any(ok(row, k) for k in kids[-1]) for row in u]


def _model(ctx, u, keep=None):
    units = ['row%d' % i for i in range(len(u))]
    if keep is not None:
        u, units = [u[keep]], [units[keep]]
    tree = ctx.cfg.get('tree')
    if tree:   # the first nest has a scale of its own
        tree = [(p, 0.5 if k == 0 else 1.0) for k, p in enumerate(tree)]
    return model_with_table(ctx, u, tree=tree, units=units)


def _run(ctx, m, check=True, **kw):
    return outcome(lambda: m.run_stochastic(check_infeasible=check, **kw))


def h_stochastic(ctx):
    c = ctx.cfg
    u = utils_matrix(ctx, c['rows'], c['cols'])
    ok = feasible_units(ctx, u)
    kind, r = _run(ctx, _model(ctx, u), c['check'])
    if c['check'] and not all(ok):
        ctx.check(kind == 'error' and r == 'UtilityBoundsError', 'a unit without a feasible alternative: %s' % (name_of((kind, r)),))
        return
    ctx.check(kind == 'ok', 'a run that must be accepted raised %s' % (name_of((kind, r)),))
    p, ls, t = r
    for i in range(c['rows']):
        if not ok[i]:
            for j in range(p.shape[1]):
                ctx.check_eq(p.iat[i, j], 0.0, 'probabilities of a unit without a feasible alternative')
            ctx.check_eq(ls.iat[i], 0.0, 'logsum of a unit without a feasible alternative')
        elif c['rows'] > 1:
            kind, r1 = _run(ctx, _model(ctx, u, keep=i), c['check'])
            ctx.check(kind == 'ok', 'a feasible unit alone raised %s' % (name_of((kind, r1)),))
            p1, ls1, t1 = r1
            for j in range(p.shape[1]):
                ctx.check_eq(p.iat[i, j], p1.iat[0, j], 'a unit gives another result alone')
            ctx.check_eq(ls.iat[i], ls1.iat[0], 'a unit gives another logsum alone')
            for j in range(t.shape[1]):
                ctx.check_eq(t.iat[i, j], t1.iat[0, j], 'a unit gives other terms alone')


def h_nan(ctx):
    c = ctx.cfg
    at = ctx.choose('nan cell', [(i, j) for i in range(c['rows']) for j in range(c['cols'])])
    u = [[NAN if (i, j) == tuple(at) else ctx.util('u%d_%d' % (i, j)) for j in range(c['cols'])] for i in range(c['rows'])]
    m = _model(ctx, u)
    how = ctx.choose('run', ['stochastic', 'unchecked', 'discrete'])
    if how == 'discrete':
        kind, r = outcome(lambda: m.run_discrete(random_seed=3))
    else:
        kind, r = _run(ctx, m, how == 'stochastic')
    ctx.check(kind == 'error' and r == 'UtilityBoundsError', 'a utility that is NaN: %s' % (name_of((kind, r)) or 'accepted',))


def h_discrete(ctx):
    c = ctx.cfg
    u = utils_matrix(ctx, c['rows'], c['cols'])
    ok = feasible_units(ctx, u)
    m = _model(ctx, u)
    kind, r = outcome(lambda: m.run_discrete(random_seed=3, n_draws=c['draws'], astype='index', squeeze=False))
    if not all(ok):
        ctx.check(kind == 'error' and r == 'UtilityBoundsError', 'a unit without a feasible alternative: %s' % (name_of((kind, r)),))
        return
    ctx.check(kind == 'ok', 'a run that must be accepted raised %s' % (name_of((kind, r)),))
    got, ls = r
    p, ls2, t = _model(ctx, u).run_stochastic()
    pos = [k for k, lab in enumerate(m.choices) if lab in set(p.columns)]
    for i in range(c['rows']):
        ctx.check_eq(ls.iat[i], ls2.iat[i], 'the logsum of a discrete run')
        for d in range(c['draws']):
            k = int(got.iat[i, d])
            ctx.check(k in pos and p.iat[i, pos.index(k)] > 0, 'an infeasible alternative was drawn')


def h_threads(ctx):
    """The error is the same whatever the number of threads and the position of the unit."""
    c = ctx.cfg
    rows = c['rows'] if ctx.symbolic else 200
    bad = ctx.choose('bad unit', range(c['rows'])) * (1 if ctx.symbolic else 100)
    how = ctx.choose('run', ['stochastic', 'discrete', 'discrete 2'])
    u = [[NEG if i == bad else 0.0 for j in range(c['cols'])] for i in range(rows)]
    m = _model(ctx, u)
    n = 1 if ctx.symbolic else 4
    if how == 'stochastic':
        kind, r = _run(ctx, m, n_threads=n)
    else:
        kind, r = outcome(lambda: m.run_discrete(random_seed=3, n_threads=n, n_draws=2 if '2' in how else 1))
    ctx.check(kind == 'error' and r == 'UtilityBoundsError', 'a unit without a feasible alternative: %s' % (name_of((kind, r)),))


def h_long(ctx):
    """Many units."""
    from . import long
    long.infeasible(ctx)
