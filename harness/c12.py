"""C12: copies behave like the original and are independent of it."""
from .common import *
from .world import World, ALL

BOUNDS = {
    'quick': 'models of 3 units and 2 choices or a nested tree of 4 nodes, 8 expressions in groups and with filters over every kind of '
             'symbol, a table with links, with and without partial utilities; full copies, copies of every subset of the units and '
             'copies of those; then every sequence of 2 operations out of 11 on either model; all 32 partial copies; every option of a declared matrix and table re-assigned on copies; subsets of 1100 units; all numbers any real',
    'thorough': 'as quick with sequences of 3 operations'}
ASSUME = ['the tree of choices is not changed after copying (documented as shared)', 'the terms show the utilities (C01, C02)',
          'real arithmetic; numexpr is replaced by an element-wise evaluator while solving']
TREE = [-1, -1, 0, 0]
MASKS = [None, 'copy', [True, True, True], [True, False, True], [False, True, False], [False, True, True], [False, False, True],
         [False, False, False]]


def jobs(tier):
    out = []
    n = 3 if tier == 'thorough' else 2
    for op in OPS:
        out.append(('h_independent', dict(first=op, length=n, tree=None)))
        out.append(('h_independent', dict(first=op, length=n - 1, tree=TREE)))
    out += [('h_same', dict(tree=None)), ('h_same', dict(tree=TREE)), ('h_partial_copies', {}), ('h_masks', {}), ('h_discrete', {}),
            ('h_symbols', {}), ('h_options', {})]
    out += [('h_long', {}), ('h_long', dict(tree=[-1, -1, 0, 0]))]
    return out


def start(ctx, tree=None, units=3):
    w = World(ctx, units=units, tree=tree, declare=ALL + ['lk'])
    w.add_expr('k')
    w.add_expr('lk', col=0)
    w.add_expr('tr', group='g')
    w.add_expr('mx+tr', group='h')
    w.add_expr('vc', group='h', col=1)
    w.add_expr('tc')
    return w


def duplicate(ctx, w, how):
    if how == 'copy':
        return w.fork(w.m.copy())
    mask = pd.Series(how, index=w.m.decision_units)
    return w.fork(w.m.copy_subset(mask), how)


def h_same(ctx):
    """A copy (of a copy) gives the same rows."""
    w = start(ctx, ctx.cfg['tree'])
    if ctx.flag('partial'):
        w.add_partial()
    if ctx.flag('run before'):
        w.check_run('before copying')
    a = duplicate(ctx, w, ctx.choose('first', MASKS[1:]))
    if len(a.units) == 3 and ctx.flag('again'):
        a = duplicate(ctx, a, ctx.choose('second', MASKS[1:-1]))
    if not a.units:
        return ctx.check(len(a.m.decision_units) == 0, 'units of an empty copy')
    ctx.check(list(a.m.decision_units) == a.units and list(a.m.choices) == a.choices and a.m.precision == w.m.precision,
              'units, choices or precision of a copy')
    a.check_run('copy', group=ctx.choose('group', [None, 'g', 'h']))
    w.check_run('original')


OPS = ['expression', 'group expression', 'new group', 'drop group', 'clear', 'partial', 'assign k', 'assign vector', 'run and clear',
       'preval', 'units']


def step(ctx, w, op, k):
    m = w.m
    if op == 'expression':
        w.add_expr('vr')
    elif op == 'group expression':
        w.add_expr('vr', group='g')
    elif op == 'new group':
        w.add_expr('vr', group='new')
    elif op == 'drop group':
        if any(g == 'h' for _, _, g in w.exprs):
            m.expressions.drop_group('h')
            w.exprs = [e for e in w.exprs if e[2] != 'h']
    elif op == 'clear':
        m.expressions.clear()
        w.exprs = []
        w.add_expr('k')
    elif op == 'partial':
        w.add_partial()
    elif op == 'assign k':
        w.assign('k')
    elif op == 'assign vector':
        for s in ('vr', 'mx', 'lk'):
            if s in w.symbols:
                w.assign(s)
    elif op == 'run and clear':
        w.run_and_clear('step %d' % k)
    elif op == 'preval':
        w.preval('g', cleanup_scope=ctx.flag('cleanup%d' % k))
    elif op == 'units':
        w.set_units(['other%d_%d' % (k, i) for i in range(2)])
        for s in w.symbols:
            if s != 'k':
                w.assign(s)


def h_independent(ctx):
    c = ctx.cfg
    w = start(ctx, c['tree'], units=2)
    if ctx.flag('partial'):
        w.add_partial()
    how = ctx.choose('copy', ['copy', [True, True], [False, True]])
    pair = [w, duplicate(ctx, w, how)]
    done = []
    for k in range(c['length']):
        op = c['first'] if k == 0 else ctx.choose('op%d' % k, OPS)
        side = ctx.choose('side%d' % k, [0, 1])
        done.append('%s on the %s' % (op, ['original', 'copy'][side]))
        step(ctx, pair[side], op, k)
    pair[0].check_run('original after %s' % ', '.join(done))
    pair[1].check_run('copy after %s' % ', '.join(done))
    w.check_given()


def h_partial_copies(ctx):
    """What was to be left out is absent, the rest is there."""
    w = start(ctx, units=2)
    w.add_partial()
    flags = {k: ctx.flag(k) for k in ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities')}
    m = w.m.copy(**flags)
    units = flags['decision_units'] or flags['scope_assigned']
    ctx.check(list(m.choices) == w.choices, 'choices of a partial copy')
    f = w.fork(m)
    n_expr = sum(1 for _ in m.expressions)
    ctx.check(n_expr == (len(w.exprs) if flags['expressions'] else 0), 'expressions of a partial copy: %d' % n_expr)
    if not flags['expressions']:
        f.exprs = []
        ctx.check(outcome(lambda: m.expressions.get_group('g'))[0] == 'error', 'groups of a partial copy')
    if not flags['utilities']:
        f.partial = None
    for s in w.symbols:
        declared = outcome(lambda: m[s])[0] == 'ok'
        ctx.check(declared == (flags['scope_declared'] or flags['scope_assigned']), 'symbols of a partial copy')
    if not units:
        kind, e = outcome(lambda: m.run_stochastic())
        ctx.check(kind == 'error' and e == 'ModelNotReadyError', 'a copy without units could be run: %s' % (e,))
    else:
        ctx.check(list(m.decision_units) == w.units, 'units of a partial copy')
        if not flags['scope_assigned']:
            f.data = {}
        f.check_run('partial copy')
        if flags['scope_declared'] and not flags['scope_assigned']:
            for s in f.symbols:
                f.assign(s)
            f.check_run('partial copy with new data')
        elif not flags['scope_declared'] and not flags['scope_assigned']:
            for s in f.symbols:
                f.declare(s)
                f.assign(s)
            f.check_run('partial copy with new symbols')
    w.check_run('original')


def h_masks(ctx):
    """Masks for other units are refused."""
    w = start(ctx, units=2)
    how = ctx.choose('mask', ['reversed', 'other', 'short', 'long'])
    index = {'reversed': w.units[::-1], 'other': ['row0', 'rowX'], 'short': w.units[:1], 'long': w.units + ['more']}[how]
    mask = pd.Series([True] + [False] * (len(index) - 1), index=index)
    kind, e = outcome(lambda: w.m.copy_subset(mask))
    ctx.check(kind == 'error', 'a mask for other units was accepted')
    w.check_run('original')


def h_discrete(ctx):
    """A copy draws the same choices for the same seed, and drawing from it does not disturb the original."""
    w = start(ctx, units=2)
    w.add_partial()
    c = w.fork(w.m.copy())
    seed = ctx.choose('seed', [1, 7])
    order = ctx.flag('copy first')
    res = {}
    for m in ([c, w] if order else [w, c]):
        res[m is c] = m.m.run_discrete(random_seed=seed, astype='index', clear_scope=False, n_draws=2)
    for i in range(2):
        for d in range(2):
            ctx.check(int(res[True][0].iat[i, d]) == int(res[False][0].iat[i, d]), 'a copy draws another choice')
        ctx.check_eq(res[True][1].iat[i], res[False][1].iat[i], 'the logsum of a copy differs')


def h_symbols(ctx):
    """Declaring or clearing symbols on one side does not show on the other."""
    w = start(ctx, units=2)
    f = duplicate(ctx, w, ctx.choose('how', ['copy', [False, True]]))
    pair = [w, f]
    side = ctx.choose('side', [0, 1])
    a, b = pair[side], pair[1 - side]
    op = ctx.choose('op', ['declare', 'clear', 'empty', 'redeclare'])
    if op == 'declare':
        a.m.declare_number('fresh_symbol')
        ctx.check(outcome(lambda: b.m['fresh_symbol'])[0] == 'error', 'a symbol declared on one model appears on the other')
        b.check_run('other model')
        a.check_run('changed model')
    elif op == 'clear':
        a.m.clear_scope()
        a.data, a.declared = {}, set()
        b.check_run('other model')
        a.check_run('cleared model')
    elif op == 'empty':
        for s in ('k', 'vr', 'tr', 'mx', 'vc', 'tc'):
            a.m[s].empty()
        b.check_run('other model')
    else:
        a.declare('k')
        a.m['k'].assign(7.0)
        a.data['k'] = 7.0
        b.check_run('other model')
        a.check_run('changed model')


def h_options(ctx):
    """Symbols of a copy are declared with the same options."""
    m = cheval().ChoiceModel()
    m.add_choices(['a', 'b'])
    m.decision_units = pd.Index(['u0', 'u1'])
    fill = ctx.choose('fill', [-2.0, 3, NEG])
    turned = ctx.flag('turned')
    strict = ctx.choose('strict', ['', 'rows', 'cols'])
    m.declare_matrix('mf', orientation=int(turned), reindex_rows=strict != 'rows', reindex_cols=strict != 'cols', fill_value=fill)
    m.declare_table('t', 0, {'x'}, False)
    m.declare_table('w', 1)
    m.declare_vector('v', 1)
    m.expressions.append('mf')
    m.expressions.append('t.x')
    m.expressions.append('w.y * 2')
    m.expressions.append('v')
    x0 = [ctx.real('x0'), ctx.real('x1')]
    y0 = [ctx.real('y0'), ctx.real('y1')]
    m['t'].assign(pd.DataFrame({'x': ctx.column(x0)}, index=m.decision_units))
    m['w'].assign(pd.DataFrame({'y': ctx.column(y0)}, index=m.choices))
    m['v'].assign(ctx.arr(y0))
    first = frame(ctx, [[0.0, 0.0], [0.0, 0.0]], *([m.decision_units, m.choices][::-1 if turned else 1]))
    m['mf'].assign(first)
    how = ctx.choose('how', ['copy', 'empty', 'subset', 'twice'])
    c = {'copy': lambda: m.copy(), 'empty': lambda: m.copy(decision_units=True, scope_assigned=False),
         'subset': lambda: m.copy_subset(pd.Series([False, True], index=m.decision_units)),
         'twice': lambda: m.copy().copy()}[how]()
    units = list(c.decision_units)
    for sym in ('t', 'w', 'v'):
        if how == 'empty':
            c[sym].assign({'t': pd.DataFrame({'x': ctx.column(x0)}, index=c.decision_units),
                           'w': pd.DataFrame({'y': ctx.column(y0)}, index=c.choices), 'v': ctx.arr(y0)}[sym])
    part = ctx.choose('part', ['one choice', 'one unit'])
    z = [ctx.real('z0'), ctx.real('z1')]
    rows, cols = (units, ['b']) if part == 'one choice' else ([units[-1]], ['a', 'b'])
    cells = {(r, q): z[(k + n) % 2] for k, r in enumerate(rows) for n, q in enumerate(cols)}
    data = frame(ctx, [[cells[r, q] for q in cols] for r in rows], rows, cols)
    if turned:
        data = data.transpose()
    kind, e = outcome(lambda: c['mf'].assign(data))
    partly = part == 'one choice' or len(units) > 1
    banned = strict == ('cols' if part == 'one choice' else 'rows') and partly
    ctx.check((kind == 'error') == banned, 'a copy %s a matrix with %s' % ('refuses' if kind == 'error' else 'accepts', part))
    for t, why in [(pd.DataFrame({'y': [1.0] * len(units)}, index=c.decision_units), 'without a mandatory attribute'),
                   (cheval().LinkedDataFrame({'x': [1.0] * len(units)}, index=c.decision_units), 'with links')]:
        ctx.check(outcome(lambda: c['t'].assign(t))[0] == 'error', 'a copy accepts a table %s' % why)
    if banned:
        return
    p, ls, terms = c.run_stochastic(check_infeasible=False)
    for i, r in enumerate(units):
        for j, q in enumerate(['a', 'b']):
            xi = x0[['u0', 'u1'].index(r)]
            want = cells.get((r, q), fill) + xi + y0[j] * 2 + y0[j]
            ctx.check_eq(terms.iat[i, j], ctx.exp(want), 'copy: utility of %s, %s' % (r, q))


def h_long(ctx):
    """Many units."""
    from . import long
    long.subsets(ctx)
