"""C22: partial utilities are added to exactly the named cells."""
from .common import *
from .c11 import arrangements, build, TREE

BOUNDS = {
    'quick': 'models of 3 units and 3 choices (flat) or 4 nodes (nested); tables of 1..4 rows labelled with any distinct integers and '
             'any arrangement of up to all choices (or foreign names), all flags; up to 3 additions in a row with expressions and '
             'runs in between; single precision, Fortran order and strided tables; cells of -inf; 1100 units in 5 row orders; every value any real',
    'thorough': 'as quick with 4 units, every arrangement of every subset of the choices and 4 additions'}
ASSUME = ['labels of a table are unique', 'the terms of run_stochastic show the utilities (C01, C02)',
          'real arithmetic; numexpr is replaced by an element-wise evaluator while solving']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    n = 4 if thorough else 3
    for tree in (None, TREE):
        for r in range(1, n + 2):
            out.append(('h_rows', dict(n=n, r=r, tree=tree, thorough=thorough)))
        out.append(('h_columns', dict(n=2, tree=tree, thorough=thorough)))
        for first in range(len(SHAPES)):
            out.append(('h_repeated', dict(tree=tree, first=first, length=3 if thorough else 2)))
    for t in range(7):
        out.append(('h_types', dict(type=t)))
    out += [('h_long', dict(what='partial')), ('h_long', dict(what='partial', tree=[-1, -1, 0, 0]))]
    return out


def check_terms(ctx, m, want, tree, what):
    p, ls, t = m.run_stochastic(clear_scope=False, check_infeasible=False)
    n, c = t.shape
    ctx.check((n, c) == (len(want), len(want[0])), 'shape of the result')
    for i in range(n):
        ex = [ctx.exp(want[i][j]) for j in range(c)]
        for j in range(c):
            w = ex[j]
            if tree and j in tree:
                w = w * add(ex[q] for q in range(c) if tree[q] == j)
            ctx.check_eq(t.iat[i, j], w, what)


def columns_of(names, tree):
    return pd.MultiIndex.from_tuples(names) if tree else pd.Index(names)


def h_rows(ctx):
    c = ctx.cfg
    n, r, tree = c['n'], c['r'], c['tree']
    m = build(ctx, n, tree)
    names = list(m.choices)
    base = [[0.0] * len(names) for _ in range(n)]
    if ctx.flag('some before'):
        base = [[ctx.real('b%d_%d' % (i, j)) for j in range(len(names))] for i in range(n)]
        m.add_partial_utilities(frame(ctx, base, m.decision_units, m.choices))
    cols = ctx.choose('columns', arrangements(names, False))
    labels = [ctx.key('label%d' % i, 0, 100) for i in range(r)]
    ctx.distinct(labels)
    kw = ctx.choose('reindex', [{}, {'reindex_rows': True}, {'reindex_rows': True, 'reindex_columns': False},
                                {'reindex_rows': False, 'reindex_columns': True}])
    values = [[ctx.real('v%d_%d' % (i, j)) for j in range(len(cols))] for i in range(r)]
    where = []
    for lab in labels:
        hit = [i for i in range(n) if bool(lab == 10 * (i + 1))]
        where.append(hit[0] if hit else None)
    ok = None not in where and (kw.get('reindex_rows', False) or where == list(range(n)))
    ok = ok and (kw.get('reindex_columns', True) or cols == list(range(len(names))))
    df = frame(ctx, values, pd.Index(ctx.keys(labels)), columns_of([names[k] for k in cols], tree))
    kind, e = outcome(lambda: m.add_partial_utilities(df, **kw))
    want = [list(row) for row in base]
    if ok:
        ctx.check(kind == 'ok', 'a table was refused: %s' % (e,))
        for i in range(r):
            for q, j in enumerate(cols):
                want[where[i]][j] = want[where[i]][j] + values[i][q]
    else:
        ctx.check(kind == 'error', 'a table with foreign labels, or that needs an expansion that was not allowed, was accepted')
    check_terms(ctx, m, want, tree, 'utility after adding a table' if ok else 'utility after a refused table')


def h_columns(ctx):
    c = ctx.cfg
    n, tree = c['n'], c['tree']
    m = build(ctx, n, tree)
    names = list(m.choices)
    cols = ctx.choose('columns', arrangements(names, c['thorough']))
    labels = [names[k] for k in cols]
    foreign = ctx.flag('foreign')
    if foreign:
        labels[ctx.choose('which', range(len(labels)))] = ('zz', '.') if tree else 'zz'
    rows = ctx.choose('rows', [[10, 20], [20, 10], [10], [20], [10, 30]])
    values = [[ctx.real('v%d_%d' % (i, j)) for j in range(len(cols))] for i in range(len(rows))]
    if ctx.flag('shut'):
        values[-1][-1] = NEG
    df = frame(ctx, values, pd.Index(ctx.keys(rows)), columns_of(labels, tree))
    kind, e = outcome(lambda: m.add_partial_utilities(df, reindex_rows=True))
    want = [[0.0] * len(names) for _ in range(n)]
    if foreign or 30 in rows:
        ctx.check(kind == 'error', 'a table with foreign labels was accepted')
    else:
        ctx.check(kind == 'ok', 'a table was refused: %s' % (e,))
        for i, lab in enumerate(rows):
            for q, j in enumerate(cols):
                want[lab // 10 - 1][j] = values[i][q]
    check_terms(ctx, m, want, tree, 'utility after adding a table')


SHAPES = [('full', [0, 1], None), ('reversed rows', [1, 0], None), ('one row', [1], None), ('columns', [0, 1], 'some'),
          ('both', [1], 'some'), ('reversed', [1, 0], 'reversed'), ('foreign', [0, 7], None)]


def h_repeated(ctx):
    """Additions accumulate, also around expressions and runs."""
    c = ctx.cfg
    tree = c['tree']
    m = build(ctx, 2, tree)
    names = list(m.choices)
    nc = len(names)
    want = [[0.0] * nc for _ in range(2)]
    v = [ctx.real('x0'), ctx.real('x1')]
    m.declare_vector('x', 0)
    m['x'].assign(ctx.series(v, m.decision_units))
    used = 0
    for k in range(c['length']):
        _, rows, how = SHAPES[c['first'] if k == 0 else ctx.choose('shape%d' % k, range(len(SHAPES)))]
        cols = {None: list(range(nc)), 'some': [nc - 1, 0], 'reversed': list(range(nc))[::-1]}[how]
        values = [[ctx.real('v%d_%d_%d' % (k, i, j)) for j in range(len(cols))] for i in range(len(rows))]
        df = frame(ctx, values, pd.Index(ctx.keys([10 * (r + 1) for r in rows])), columns_of([names[j] for j in cols], tree))
        kind, e = outcome(lambda: m.add_partial_utilities(df, reindex_rows=True))
        ctx.check((kind == 'ok') == (7 not in rows), 'an addition was %s: %s' % (kind, e))
        if kind == 'ok':
            for i, r in enumerate(rows):
                for q, j in enumerate(cols):
                    want[r][j] = want[r][j] + values[i][q]
                    ctx.check_eq(df.iat[i, q], values[i][q], 'a table that was added is modified')
        between = ctx.choose('between%d' % k, ['nothing', 'run', 'expression', 'copy'])
        if between == 'expression':
            m.expressions.append('x')
            used += 1
        elif between == 'copy':
            m = m.copy()
        if between in ('run', 'expression'):
            check_terms(ctx, m, [[want[i][j] + v[i] * used for j in range(nc)] for i in range(2)], tree, 'utility after %d tables' % k)
    check_terms(ctx, m, [[want[i][j] + v[i] * used for j in range(nc)] for i in range(2)], tree, 'utility after all tables')


def h_types(ctx):
    """Tables of other types and memory layouts."""
    m = build(ctx, 2, None)
    k = ctx.real('k')
    m.declare_number('k')
    m['k'].assign(k)
    m.expressions.append('k')
    name = ['float32', 'float64', 'fortran', 'strided', 'mixed', 'int64', 'sliced'][ctx.cfg['type']]
    rows = ctx.choose('rows', [[10, 20], [20, 10], [20]])
    cols = ctx.choose('cols', [[0, 1, 2], [2, 1, 0], [1]])
    ident = {(r, c): float(2 ** (r * 3 + c)) / 8 for r in range(2) for c in range(3)}
    data = np.array([[ident[r // 10 - 1, c] for c in cols] for r in rows])
    names = ['c%d' % c for c in cols]
    if name in ('float32',):
        df = pd.DataFrame(data.astype('f4'), index=rows, columns=names)
    elif name == 'int64':
        data = data * 8
        df = pd.DataFrame(data.astype('i8'), index=rows, columns=names)
    elif name == 'fortran':
        df = pd.DataFrame(np.asfortranarray(data), index=rows, columns=names)
    elif name == 'strided':
        big = np.full((2 * len(rows), 2 * len(cols)), 99.0)
        big[::2, 1::2] = data
        df = pd.DataFrame(big[::2, 1::2], index=rows, columns=names)
    elif name == 'mixed':
        df = pd.DataFrame(data, index=rows, columns=names)
        df[names[0]] = df[names[0]].astype('f4')
    elif name == 'sliced':
        df = pd.DataFrame(np.vstack([data, data]), index=rows + [77] * len(rows), columns=names).iloc[:len(rows)]
    else:
        df = pd.DataFrame(data, index=rows, columns=names)
    df.index = pd.Index(ctx.keys(rows))
    kind, e = outcome(lambda: m.add_partial_utilities(df, reindex_rows=True))
    if name == 'int64' and kind == 'error':
        return check_terms(ctx, m, [[k] * 3 for _ in range(2)], None, 'utility after a refused table')
    ctx.check(kind == 'ok', 'a table was refused: %s' % (e,))
    want = [[k] * 3 for _ in range(2)]
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            want[r // 10 - 1][c] = k + float(data[i, j])
    check_terms(ctx, m, want, None, 'utility after adding a table of type %s' % name)


def h_long(ctx):
    """Many units."""
    from . import long
    long.tables(ctx)
