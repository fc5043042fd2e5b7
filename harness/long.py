"""Models with many units: data of a few of them is symbolic, that of the others fixed."""
from .common import *

N = 1100
FREE = (0, 511, 1023, 1024, N - 1)


def at(ctx, name, i, base=0.0):
    return ctx.real('%s%d' % (name, i)) if i in FREE else float(i % 3 + base)


class Long:
    """A model of N units with a row vector, a row table, a choice vector, a matrix and partial utilities."""

    def __init__(self, ctx, tree=None, labels='numbers', declare=True):
        self.ctx, self.tree = ctx, tree
        self.m = m = cheval().ChoiceModel()
        if tree:
            build_tree(m, tree)
        else:
            m.add_choices(['c0', 'c1'])
        self.c = len(m.choices)
        order = np.random.RandomState(2).permutation(N)
        m.decision_units = pd.Index({'numbers': [int(x) * 3 for x in order], 'range': range(N), 'text': ['u%d' % x for x in order]}[labels])
        self.u = m.decision_units
        self.vr = [at(ctx, 'a', i) for i in range(N)]
        self.tr = [at(ctx, 'b', i, 1.0) for i in range(N)]
        self.n = [(i * 5) % 4 for i in range(N)]
        self.mx = [[at(ctx, 'm%d_' % j, i, j) if i != 511 else 1.0 for j in range(self.c)] for i in range(N)]
        self.vc = [1.0 * j for j in range(self.c)]
        if not declare:
            return
        m.declare_vector('vr', 0)
        m.declare_table('tr', 0)
        m.declare_vector('vc', 1)
        m.declare_matrix('mx')
        m['vr'].assign(ctx.series(self.vr, self.u))
        t = pd.DataFrame({'n': self.n}, index=self.u)
        t['a'] = ctx.column(self.tr)
        m['tr'].assign(t)
        m['vc'].assign(np.array(self.vc))
        m['mx'].assign(frame(ctx, self.mx, self.u, m.choices))

    def terms(self, want, what, m=None, rows=None, **kw):
        ctx = self.ctx
        p, ls, t = (m or self.m).run_stochastic(**kw)
        rows = range(N) if rows is None else rows
        self.ctx.check(list(t.index) == [self.u[i] for i in rows], '%s: the rows of the result' % what)
        for r, i in enumerate(rows):
            ex = [ctx.exp(want(i, j)) for j in range(self.c)]
            for j in range(self.c):
                w = ex[j]
                if self.tree and j in self.tree:
                    w = w * add(ex[q] for q in range(self.c) if self.tree[q] == j)
                ctx.check_eq(t.iat[r, j], w, '%s: unit %d of %d, choice %d' % (what, i, N, j))
        return p, ls, t


def expressions(ctx):
    """C06"""
    w = Long(ctx, ctx.cfg.get('tree'), ctx.choose('labels', ['numbers', 'range', 'text']))
    e = w.m.expressions
    last = w.m.choices[w.c - 1]
    e.append('vr * 2 + tr.a')
    e.append('where(tr.n > 1, vr, vc)', group='g')
    e.append('mx @ ' + (last if isinstance(last, str) else '.'.join(x for x in last if x != '.')), group='h')
    first = lambda i, j: w.vr[i] * 2 + w.tr[i]
    second = lambda i, j: w.vr[i] if w.n[i] > 1 else w.vc[j]
    third = lambda i, j: w.mx[i][j] if j == w.c - 1 else 0.0
    how = ctx.choose('how', ['together', 'group', 'preval', 'twice', 'threads'])
    allof = lambda i, j: first(i, j) + second(i, j) + third(i, j)
    if how == 'group':
        return w.terms(second, 'a group', group='g')
    if how == 'preval':
        w.m.preval('g')
    if how == 'twice':
        w.m.run_stochastic(clear_scope=False)
    w.terms(allof, how, n_threads=3 if how == 'threads' else 1)


def vectors(ctx):
    """C10: labels are compared however long the data is"""
    w = Long(ctx, labels=ctx.choose('labels', ['numbers', 'text']), declare=False)
    m, kind = w.m, ctx.choose('data', ['series', 'table'])
    swap = ctx.choose('change', ['none', 'ends', 'middle', 'far', 'renamed', 'short', 'repeated'])
    lab = list(w.u)
    a, b = {'ends': (0, N - 1), 'middle': (600, 601), 'far': (N - 3, N - 2)}.get(swap, (0, 0))
    lab[a], lab[b] = lab[b], lab[a]
    if swap == 'renamed':
        lab[777] = 'other' if isinstance(lab[0], str) else -5
    elif swap == 'repeated':
        lab[N - 1] = lab[0]
    vals, idx = (w.vr[:-1], lab[:-1]) if swap == 'short' else (w.vr, lab)
    if kind == 'series':
        m.declare_vector('d', 0)
        m.expressions.append('d')
        k, r = outcome(lambda: m['d'].assign(ctx.series(vals, pd.Index(idx))))
    else:
        m.declare_table('d', 0)
        m.expressions.append('d.q')
        t = pd.DataFrame({'q': ctx.column(vals)}, index=idx)
        k, r = outcome(lambda: m['d'].assign(t))
    if swap == 'none':
        ctx.check(k == 'ok', 'data with the labels of the units was refused: %s' % (r,))
        w.terms(lambda i, j: w.vr[i], 'an aligned %s' % kind)
    else:
        ctx.check(k == 'error', '%s labels of %d were accepted' % (swap, N))


def tables(ctx):
    """C11, C22: every cell goes to its labels"""
    w = Long(ctx, ctx.cfg.get('tree'), labels=ctx.choose('labels', ['numbers', 'text']), declare=False)
    m = w.m
    how = ctx.choose('rows', ['as the units', 'shuffled', 'some', 'sorted', 'reversed'])
    rng = np.random.RandomState(9)
    rows = {'as the units': list(range(N)), 'shuffled': [int(x) for x in rng.permutation(N)], 'some': [int(x) for x in rng.permutation(N)[:N // 2]],
            'sorted': sorted(range(N), key=lambda i: w.u[i]), 'reversed': list(range(N))[::-1]}[how]
    t = frame(ctx, [w.mx[i] for i in rows], [w.u[i] for i in rows], m.choices)
    have = set(rows)
    want = lambda i, j: w.mx[i][j] if i in have else 0.0
    if ctx.cfg['what'] == 'partial':
        m.add_partial_utilities(t, reindex_rows=True)
        if ctx.flag('twice'):
            m.add_partial_utilities(t, reindex_rows=True)
            return w.terms(lambda i, j: want(i, j) * 2, 'partial utilities added twice')
        return w.terms(want, 'partial utilities')
    turned = ctx.flag('transposed')
    m.declare_matrix('x', orientation=int(turned))
    m['x'].assign(t.T if turned else t)
    m.expressions.append('x')
    w.terms(want, 'matrix with rows %s' % how)


def subsets(ctx):
    """C12"""
    w = Long(ctx, ctx.cfg.get('tree'))
    w.m.expressions.append('vr + tr.a')
    w.m.expressions.append('mx', group='g')
    w.m.add_partial_utilities(frame(ctx, w.mx, w.u, w.m.choices))
    how = ctx.choose('rows', ['copy', 'every third', 'last', 'few', 'most', 'shuffled mask'])
    want = lambda i, j: w.vr[i] + w.tr[i] + w.mx[i][j] * 2
    if how == 'copy':
        return w.terms(want, 'a copy', m=w.m.copy())
    keep = {'every third': [i % 3 == 1 for i in range(N)], 'last': [i == N - 1 for i in range(N)], 'few': [i in FREE for i in range(N)],
            'most': [i not in (3, 700) for i in range(N)], 'shuffled mask': [i % 2 == 0 for i in range(N)]}[how]
    mask = pd.Series(keep, index=w.u)
    if how == 'shuffled mask':
        mask = mask.iloc[::-1]
        k, r = outcome(lambda: w.m.copy_subset(mask))
        if k == 'error':
            return ctx.check(True)
        w.terms(want, how, m=r, rows=[i for i in range(N) if keep[i]])
    else:
        w.terms(want, how, m=w.m.copy_subset(mask), rows=[i for i in range(N) if keep[i]])
    w.terms(want, 'the model itself')


def infeasible(ctx):
    """C05: one unit without feasible choices among many"""
    w = Long(ctx, ctx.cfg.get('tree'), declare=False)
    k = ctx.choose('unit', [0, 255, 1023, 1024, N - 1, None])
    u = [[NEG] * w.c if i == k else list(w.mx[i]) for i in range(N)]
    w.m.add_partial_utilities(frame(ctx, u, w.u, w.m.choices))
    run = w.m.run_stochastic
    kind, r = outcome(lambda: run(clear_scope=False))
    ctx.check(kind == ('ok' if k is None else 'error'), 'unit %s of %d is infeasible: %s' % (k, N, kind))
    r = outcome(lambda: run(check_infeasible=False, clear_scope=False))
    ctx.check(r[0] == 'ok', 'a run without the check: %s' % (r[1] if r[0] == 'error' else '',))
    if k is None:
        return
    p, ls, t = r[1]
    for j in range(p.shape[1]):
        ctx.check_eq(p.iat[k, j], 0.0, 'probability of an infeasible unit')
    for i in (0, 255, 256, 1023, 1024, N - 1):
        if i != k:
            total = add(p.iat[i, j] for j in range(p.shape[1]))
            ctx.check_eq(total, 1.0, 'the probabilities of the other units')
