"""C11: matrix symbols place every cell by its labels and fill the rest."""
from .common import *

BOUNDS = {
    'quick': 'models of 3 units and 3 choices (flat) or 4 nodes (nested); matrices of 1..4 rows labelled with any distinct integers and '
             'any arrangement of up to all choices (or foreign names), of both orientations, all flags; integer, boolean, single '
             'precision and object matrices; two assignments in a row; 1100 units in 5 row orders; every value and fill value any real (or -inf)',
    'thorough': 'as quick with 4 units and every arrangement of every subset of the choices'}
ASSUME = ['labels of a matrix are unique', 'the terms of run_stochastic show the utilities (C01, C02)',
          'real arithmetic; numexpr is replaced by an element-wise evaluator while solving']
TREE = [-1, -1, 0, 0]


def arrangements(names, thorough):
    import itertools
    out = []
    n = len(names)
    if thorough:
        for k in range(1, n + 1):
            out += [list(p) for p in itertools.permutations(range(n), k)]
    else:
        out = [list(range(n)), list(range(n))[::-1], [1, 0] + list(range(2, n)), [n - 1] + list(range(n - 1)), list(range(1, n)),
               [n - 1, 0], [1], [0, n - 1]]
    return out


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    n = 4 if thorough else 3
    for tree in (None, TREE):
        for o in (0, 1):
            for r in range(1, n + 2):
                out.append(('h_rows', dict(n=n, r=r, tree=tree, orientation=o, thorough=thorough)))
            out.append(('h_columns', dict(n=2, tree=tree, orientation=o, thorough=thorough)))
    out += [('h_types', {}), ('h_twice', {}), ('h_not_a_frame', {}), ('h_identical', {})]
    out += [('h_long', dict(what='matrix')), ('h_long', dict(what='matrix', tree=[-1, -1, 0, 0]))]
    return out


def build(ctx, n, tree, cols=3):
    m = cheval().ChoiceModel()
    if tree:
        build_tree(m, tree)
    else:
        m.add_choices(['c%d' % j for j in range(cols)])
    m.decision_units = pd.Index(ctx.keys([10 * (i + 1) for i in range(n)]))
    return m


def check_terms(ctx, m, want, tree, what):
    p, ls, t = m.run_stochastic(check_infeasible=False)
    n, c = t.shape
    for i in range(n):
        ex = [ctx.exp(want[i][j]) if want[i][j] is not NEG else 0.0 for j in range(c)]
        for j in range(c):
            w = ex[j]
            if tree and j in tree:
                w = w * add(ex[q] for q in range(c) if tree[q] == j)
            ctx.check_eq(t.iat[i, j], w, what)



def matrix(ctx, values, index, columns, orientation):
    df = frame(ctx, values, index, columns)
    if orientation:
        rows = [[values[i][j] for i in range(len(values))] for j in range(len(values[0]))]
        df = frame(ctx, rows, columns, index)
    return df


def h_rows(ctx):
    """Rows with any labels."""
    c = ctx.cfg
    n, r = c['n'], c['r']
    m = build(ctx, n, c['tree'])
    names = list(m.choices)
    cols = ctx.choose('columns', arrangements(names, False))
    labels = [ctx.key('label%d' % i, 0, 100) for i in range(r)]
    ctx.distinct(labels)
    re_rows, re_cols = ctx.choose('reindex', [(True, True), (False, True), (True, False)])
    fill = ctx.choose('fill', ['default', 'real'])
    kw = {}
    fv = 0.0
    if fill == 'real':
        fv = kw['fill_value'] = ctx.real('fill')
    m.declare_matrix('x', orientation=c['orientation'], reindex_rows=re_rows, reindex_cols=re_cols, **kw)
    values = [[ctx.real('v%d_%d' % (i, j)) for j in range(len(cols))] for i in range(r)]
    index = pd.Index(ctx.keys(labels))
    columns = pd.MultiIndex.from_tuples([names[k] for k in cols]) if c['tree'] else pd.Index([names[k] for k in cols])
    where = []
    for lab in labels:
        hit = [i for i in range(n) if bool(lab == 10 * (i + 1))]
        where.append(hit[0] if hit else None)
    same_rows = where == list(range(n))
    same_cols = cols == list(range(len(names)))
    ok = None not in where and (re_rows or same_rows) and (re_cols or same_cols)
    kind, e = outcome(lambda: m['x'].assign(matrix(ctx, values, index, columns, c['orientation'])))
    if not ok:
        ctx.check(kind == 'error', 'a matrix with foreign labels, or that needs a reindexing that was switched off, was accepted')
        return
    ctx.check(kind == 'ok', 'a matrix was refused: %s' % (e,))
    m.expressions.append('x')
    want = [[fv] * len(names) for _ in range(n)]
    for i in range(r):
        for q, j in enumerate(cols):
            want[where[i]][j] = values[i][q]
    check_terms(ctx, m, want, c['tree'], 'utility from a matrix')


def h_columns(ctx):
    """Columns in any arrangement, some foreign."""
    c = ctx.cfg
    n = c['n']
    m = build(ctx, n, c['tree'])
    names = list(m.choices)
    cols = ctx.choose('columns', arrangements(names, c['thorough']))
    labels = [names[k] for k in cols]
    foreign = ctx.flag('foreign')
    if foreign:
        labels[ctx.choose('which', range(len(labels)))] = ('zz', '.') if c['tree'] else 'zz'
    rows = ctx.choose('rows', [[10, 20], [20, 10], [10], [20]])
    values = [[ctx.real('v%d_%d' % (i, j)) for j in range(len(cols))] for i in range(len(rows))]
    columns = pd.MultiIndex.from_tuples(labels) if c['tree'] else pd.Index(labels)
    m.declare_matrix('x', orientation=c['orientation'])
    kind, e = outcome(lambda: m['x'].assign(matrix(ctx, values, pd.Index(ctx.keys(rows)), columns, c['orientation'])))
    if foreign:
        return ctx.check(kind == 'error', 'a matrix with a foreign choice was accepted')
    ctx.check(kind == 'ok', 'a matrix was refused: %s' % (e,))
    m.expressions.append('x')
    want = [[0.0] * len(names) for _ in range(n)]
    for i, lab in enumerate(rows):
        for q, j in enumerate(cols):
            want[lab // 10 - 1][j] = values[i][q]
    check_terms(ctx, m, want, c['tree'], 'utility from a matrix')


def h_types(ctx):
    """Values and fills survive in matrices of every type."""
    m = build(ctx, 2, None)
    dt = ctx.choose('type', ['float64', 'float32', 'int64', 'int8', 'uint8', 'bool', 'F order'])
    fill = ctx.choose('fill', [0, 1, -3, 0.5, -2.25, NEG])
    o = ctx.choose('orientation', [0, 1])
    k = ctx.real('k')
    m.declare_number('k')
    m['k'].assign(k)
    values = [[1, 0], [0, 1]] if dt == 'bool' else [[3, 5], [2, 7]]
    shape = ctx.choose('shape', ['columns', 'rows', 'full', 'both'])
    rows, cols = {'columns': ([10, 20], ['c2', 'c0']), 'rows': ([20], ['c0', 'c1', 'c2']), 'full': ([10, 20], ['c0', 'c1', 'c2']),
                  'both': ([20], ['c1', 'c0'])}[shape]
    data = np.array([[values[i % 2][j % 2] for j in range(len(cols))] for i in range(len(rows))])
    data = np.asfortranarray(data.astype(float)) if dt == 'F order' else data.astype(dt)
    df = pd.DataFrame(data, index=ctx.keys(rows), columns=cols)
    m.declare_matrix('x', orientation=o, fill_value=fill)
    m['x'].assign(df.transpose() if o else df)
    m.expressions.append('x * 0.5')
    m.expressions.append('k')
    want = [[NEG if fill == NEG else fill * 0.5 + k for _ in range(3)] for _ in range(2)]
    for i, r in enumerate(rows):
        for j, name in enumerate(cols):
            want[r // 10 - 1][int(name[1])] = float(data[i, j]) * 0.5 + k
    check_terms(ctx, m, want, None, 'utility from a matrix of type %s with fill %s' % (dt, fill))


def h_twice(ctx):
    """The last accepted assignment counts as a whole; a refused one is not used."""
    m = build(ctx, 2, None)
    o = ctx.choose('orientation', [0, 1])
    m.declare_matrix('x', orientation=o)
    m.expressions.append('x')
    want = None
    for k in range(2):
        rows = ctx.choose('rows%d' % k, [[10, 20], [20], [20, 10], [20, 30]])
        cols = ctx.choose('columns%d' % k, [[0, 1, 2], [2, 0], [1]])
        values = [[ctx.real('v%d_%d_%d' % (k, i, j)) for j in range(len(cols))] for i in range(len(rows))]
        df = matrix(ctx, values, pd.Index(ctx.keys(rows)), pd.Index(['c%d' % j for j in cols]), o)
        kind, e = outcome(lambda: m['x'].assign(df))
        ctx.check((kind == 'ok') == (30 not in rows), 'an assignment was %s: %s' % (kind, e))
        if kind == 'ok':
            want = [[0.0] * 3 for _ in range(2)]
            for i, r in enumerate(rows):
                for q, j in enumerate(cols):
                    want[r // 10 - 1][j] = values[i][q]
    if want is None:
        kind, e = outcome(lambda: m.run_stochastic())
        return ctx.check(kind == 'error', 'a refused matrix was used')
    check_terms(ctx, m, want, None, 'utility after two assignments')


def h_not_a_frame(ctx):
    m = build(ctx, 2, None)
    o = ctx.choose('orientation', [0, 1])
    m.declare_matrix('x', orientation=o)
    what = ctx.choose('data', ['array', 'series', 'list', 'number'])
    data = {'array': np.zeros((2, 3)), 'series': pd.Series([1.0, 2.0], index=[10, 20]), 'list': [[1, 2, 3], [1, 2, 3]],
            'number': 1.0}[what]
    kind, e = outcome(lambda: m['x'].assign(data))
    ctx.check(kind == 'error', 'an object without labels was accepted as a matrix')


def h_identical(ctx):
    """The very index objects of the model, and equal ones, mean the same; extra names of the axes do not matter."""
    m = build(ctx, 2, None)
    values = [[ctx.real('v%d_%d' % (i, j)) for j in range(3)] for i in range(2)]
    o = ctx.choose('orientation', [0, 1])
    how = ctx.choose('index', ['same', 'equal', 'named', 'range'])
    rows, cols = {'same': (m.decision_units, m.choices), 'equal': (pd.Index(ctx.keys([10, 20])), pd.Index(['c0', 'c1', 'c2'])),
                  'named': (pd.Index(ctx.keys([10, 20]), name='u'), pd.Index(['c0', 'c1', 'c2'], name='c')),
                  'range': (pd.RangeIndex(10, 30, 10), m.choices)}[how]
    if how == 'range':
        m.decision_units = pd.Index([10, 20])
    m.declare_matrix('x', orientation=o, reindex_rows=False, reindex_cols=False)
    m['x'].assign(matrix(ctx, values, rows, cols, o))
    m.expressions.append('x')
    check_terms(ctx, m, values, None, 'utility from a full matrix')


def h_long(ctx):
    """Many units."""
    from . import long
    long.tables(ctx)
