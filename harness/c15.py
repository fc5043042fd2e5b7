"""C15: discrete results are labelled with the sampled choice."""
from .common import *

BOUNDS = {
    'quick': '2 units (labels of 4 kinds), flat models of 2..4 choices (one with numeric names, one not in sorted order) and nested '
             'ones of 2 and 3 levels; 1..2 draws, every result type (category, index, object, str, integer), squeeze, names; any draw '
             'of the random stream, any feasible set for 3 patterns; logsums for any real utilities; 140 and 290 alternatives',
    'thorough': 'as quick with 3 draws and 3 units'}
ASSUME = ['which alternative is sampled is decided by C03 and C04; here: that it is one and the same in every result type',
          'real arithmetic; exp as in C01']
TREES = {'flat2': None, 'flat3': None, 'flat4': None, 'numeric': None, 'nested': [-1, -1, 0, 0], 'nested order': [-1, 0, -1, 2, 0, 2],
         'deep': [-1, 0, 0, 1, 1, -1], 'inner': [-1, 0, 0, 1, 1, 2, 2, -1]}
FLAT = {'flat2': ['z', 'a'], 'flat3': ['m', 'z', 'a'], 'flat4': ['c', 'b', 'd', 'a'], 'numeric': ['30', '4', '200']}


def jobs(tier):
    out = []
    for t in TREES:
        for d in ((1, 2, 3) if tier == 'thorough' else (1, 2)):
            for a in ('category', 'object', 'str', 'int'):
                if a == 'int' and t != 'numeric' or a == 'str' and TREES[t]:
                    continue
                out.append(('h_types', dict(tree=t, draws=d, astype=a, all=tier == 'thorough', units=3 if tier == 'thorough' and d == 1 else 2)))
        out.append(('h_single', dict(tree=t)))
        if t != 'inner':
            out.append(('h_logsum', dict(tree=t)))
    for n in (140, 290) if tier == 'quick' else (140, 290, 700):
        out += [('h_many', dict(n=n, nested=d, astype=a)) for d in (False, True) for a in ('category', 'index', 'object')]
    return out


UNITS = [('strings', lambda n: pd.Index(['u%d' % i for i in range(n)][::-1])), ('integers', lambda n: pd.Index([5, 1, 3][:n], name='hh')),
         ('tuples', lambda n: pd.MultiIndex.from_tuples([(2, 'x'), (1, 'x'), (1, 'a')][:n], names=['h', 'p'])),
         ('repeated', lambda n: pd.Index([4, 4, 2][:n]))]


def build(tree, units):
    m = cheval().ChoiceModel()
    if TREES[tree]:
        build_tree(m, TREES[tree])
    else:
        m.add_choices(FLAT[tree])
    m.decision_units = units
    return m


def leaves(tree, n):
    return [k for k in range(n) if not TREES[tree] or k not in TREES[tree]]


def labels_of(m):
    return list(m.choices)


def check_frame(ctx, r, m, draws, squeeze, name, what):
    units = m.decision_units
    ctx.check(list(r.index) == list(units), '%s: rows %s' % (what, list(r.index)))
    if draws == 1 and squeeze:
        ctx.check(isinstance(r, pd.Series) and r.name == name, '%s: a squeezed draw is a %s called %r' % (what, type(r).__name__,
                                                                                                        getattr(r, 'name', None)))
        return [[x] for x in r]
    ctx.check(isinstance(r, pd.DataFrame) and r.shape == (len(units), draws), '%s: the result is a %s' % (what, type(r).__name__))
    ctx.check(list(r.columns) == list(range(draws)) and r.columns.name == name, '%s: columns %s' % (what, r.columns))
    cols = [list(r.iloc[:, d]) for d in range(draws)]
    return [[cols[d][i] for d in range(draws)] for i in range(len(units))]


def same_label(x, lab):
    if isinstance(lab, tuple):
        return isinstance(x, tuple) and x == lab
    return x == lab and isinstance(x, str)


def h_types(ctx):
    c = ctx.cfg
    n_units, draws, tree = c['units'], c['draws'], c['tree']
    few = draws > 1 and not c['all']
    kind, make = ctx.choose('units', [UNITS[2], UNITS[0]] if few else UNITS)
    m = build(tree, make(n_units))
    labels = labels_of(m)
    n = len(labels)
    low = leaves(tree, n)
    pattern = ctx.choose('feasible', ['not the first', 'not the last'] if few and n > 2 else ['all'] if few else
                         ['all', 'not the first', 'not the last'])
    shut = {'all': set(), 'not the first': {low[0]}, 'not the last': {low[-1]}}[pattern]
    u = [[NEG if k in shut else 0.0 for k in range(n)] for _ in range(n_units)]
    m.add_partial_utilities(frame(ctx, u, m.decision_units, m.choices))
    squeeze = draws == 1 and ctx.flag('squeeze') or draws > 1
    name = ctx.choose('name', ['mode'] if few else [None, 'mode'])
    astype = {'str': str, 'object': 'object', 'category': 'category', 'int': 'int64'}[c['astype']]
    seed = 3
    pos, _ = m.run_discrete(random_seed=seed, n_draws=draws, astype='index', squeeze=squeeze, result_name=name)
    pos = check_frame(ctx, pos, m, draws, squeeze, name, 'positions')
    r, _ = m.run_discrete(random_seed=seed, n_draws=draws, astype=astype, squeeze=squeeze, result_name=name)
    if c['astype'] == 'category':
        types = [r.dtype] if isinstance(r, pd.Series) else list(r.dtypes)
        ctx.check(all(str(t) == 'category' for t in types), 'the result is not categorical: %s' % types)
        for t in types:
            ctx.check(set(t.categories) == set(labels), 'categories are %s' % list(t.categories))
    got = check_frame(ctx, r, m, draws, squeeze, name, c['astype'])
    for i in range(n_units):
        for d in range(draws):
            k = int(pos[i][d])
            ctx.check(k in low and k not in shut, 'unit %d, draw %d: position %d was sampled' % (i, d, k))
            x = got[i][d]
            if c['astype'] == 'int':
                ctx.check(int(x) == int(labels[k]), 'unit %d, draw %d: %r instead of %r' % (i, d, x, labels[k]))
            else:
                ctx.check(same_label(x, labels[k]), 'unit %d, draw %d: %r instead of %r' % (i, d, x, labels[k]))
    if c['astype'] == 'category' and draws == 1 and squeeze:    # the documented default
        r, _ = m.run_discrete(random_seed=seed)
        ctx.check(isinstance(r, pd.Series) and list(r) == [g[0] for g in got], 'the default result differs')


def h_single(ctx):
    """Units with one feasible alternative get exactly that one, whatever is drawn."""
    tree = ctx.cfg['tree']
    m = build(tree, UNITS[ctx.choose('units', range(4))][1](2))
    labels = labels_of(m)
    n = len(labels)
    low = leaves(tree, n)
    only = [ctx.choose('unit%d' % i, low) for i in range(2)]
    x = [ctx.real('x%d' % i) for i in range(2)]
    u = [[NEG if k in low and k != only[i] else x[i] for k in range(n)] for i in range(2)]
    m.add_partial_utilities(frame(ctx, u, m.decision_units, m.choices))
    astype = ctx.choose('astype', ['category', 'index', 'object'] + (['int64'] if tree == 'numeric' else []))
    draws = ctx.choose('draws', [1, 2])
    squeeze = ctx.flag('squeeze')
    r, _ = m.run_discrete(random_seed=8, n_draws=draws, astype=astype, squeeze=squeeze, result_name='r')
    got = check_frame(ctx, r, m, draws, squeeze, 'r', astype)
    for i in range(2):
        want = {'index': only[i], 'int64': int(labels[only[i]]) if astype == 'int64' else None}.get(astype, labels[only[i]])
        for d in range(draws):
            ctx.check(got[i][d] == want, 'unit %d: %r instead of %r' % (i, got[i][d], want))


def h_logsum(ctx):
    tree = ctx.cfg['tree']
    n = len(build(tree, pd.Index([1])).choices)
    low = leaves(tree, n)
    # one free unit for trees (the other is fixed): sampling makes these queries hard
    u = [[ctx.util('u%d_%d' % (i, k), inf=(k == low[0])) if k in low or tree != 'deep' else 0.0 for k in range(n)] for i in range(2)]
    if TREES[tree]:
        i = ctx.choose('fixed unit', [0, 1])
        u[i] = [NEG if k in low[1:] else 0.0 for k in range(n)]
    scale = ctx.flag('scale utilities')
    draws = ctx.choose('draws', [1, 2])
    res = []
    units = UNITS[ctx.choose('units', range(4) if draws == 1 else [1])][1](2)
    for discrete in (True, False):
        m = build(tree, units)
        if TREES[tree]:
            m.decision_units = units
        m.add_partial_utilities(frame(ctx, u, m.decision_units, m.choices))
        if discrete:
            res.append(m.run_discrete(random_seed=1, n_draws=draws, scale_utilities=scale)[1])
        else:
            res.append(m.run_stochastic(scale_utilities=scale)[1])
    a, b = res
    ctx.check(isinstance(a, pd.Series) and list(a.index) == list(units) and list(b.index) == list(units), 'rows of the logsum')
    for i in range(2):
        ctx.check_eq(a.iat[i], b.iat[i], 'the logsum of a discrete run differs from that of a stochastic run')


def h_many(ctx):
    """Many alternatives, each the only feasible one of a unit: the names and positions far down the list."""
    c = ctx.cfg
    n = c['n']
    m = cheval().ChoiceModel()
    if c['nested']:
        for g in range(n // 10):
            node = m.add_choice('nest%d' % (n - g))
            for k in range(9):
                node.add_choice('alt%d' % k)
    else:
        m.add_choices(['alt%d' % (n - k) for k in range(n)])
    labels = list(m.choices)
    n = len(labels)
    low = [k for k in range(n) if not c['nested'] or k % 10]
    pick = [low[(i * 13) % len(low)] for i in range(12)] + [low[0], low[-1], 126, 127, 128, 129, n - 2, n - 1] + [k for k in (254, 255, 256, 257) if k < n]
    pick = [k for k in pick if k in low]
    m.decision_units = pd.Index(range(500, 500 + len(pick)))
    x = ctx.real('x')
    u = [[NEG] * n for _ in pick]
    for i, k in enumerate(pick):
        u[i][k] = x if i == 0 else 0.5
        if c['nested']:
            u[i][k - k % 10] = 0.0
    m.add_partial_utilities(frame(ctx, u, m.decision_units, m.choices))
    draws = ctx.choose('draws', [1, 2])
    r, ls = m.run_discrete(random_seed=8, n_draws=draws, astype=c['astype'], result_name='r')
    got = check_frame(ctx, r, m, draws, True, 'r', c['astype'])
    ctx.check(list(ls.index) == list(m.decision_units), 'rows of the logsum')
    for i, k in enumerate(pick):
        for d in range(draws):
            ctx.check(got[i][d] == (k if c['astype'] == 'index' else labels[k]), 'unit %d: %r instead of %r' % (i, got[i][d], labels[k]))
