"""C13: pre-evaluating a group and running the rest equals running everything."""
from .common import *
from .world import World, ALL
from .c12 import TREE, duplicate

BOUNDS = {
    'quick': 'models of 2 units and 2 choices or a nested tree of 4 nodes with 3 groups and ungrouped expressions over every kind of '
             'symbol, shared and unshared; every sequence of 3 operations out of 13 (pre-evaluations of any group with and without '
             'clean-up, copies, subset copies, partial utilities, runs, group runs, new expressions, new data); all numbers any real',
    'thorough': 'as quick with sequences of 4 operations (nested: 3)'}
ASSUME = ['groups are dropped when they are pre-evaluated (drop_group=True)', 'the terms show the utilities (C01, C02)',
          'real arithmetic; numexpr is replaced by an element-wise evaluator while solving']

OPS = ['preval g', 'preval h', 'preval i', 'preval g keep', 'preval h keep', 'copy', 'subset', 'partial', 'run', 'run group', 'extend',
       'assign', 'failed preval']


def jobs(tier):
    out = []
    n = 4 if tier == 'thorough' else 3
    for op in OPS:
        out.append(('h_sequence', dict(first=op, length=n, tree=None)))
        out.append(('h_sequence', dict(first=op, length=n - 1, tree=TREE)))
    out += [('h_all_orders', {}), ('h_text', {}), ('h_literals', {}), ('h_infeasible', {}), ('h_shared', {})]
    return out


def start(ctx, tree):
    w = World(ctx, units=2, tree=tree, declare=ALL + ['lk'])
    w.add_expr('k*vr')
    w.add_expr('tr', group='g')
    w.add_expr('lk', group='g', col=1)
    w.add_expr('mx+tr', group='h')       # shares tr with g
    w.add_expr('vc', group='h', col=0)
    w.add_expr('k', group='i')           # shares k with the ungrouped ones
    w.add_expr('tc', group='i')
    return w


def step(ctx, w, op, k):
    if op.startswith('preval'):
        kw = {'cleanup_scope': False} if op.endswith('keep') else {}
        before = set(w.symbols)
        w.preval(op.split()[1], **kw)
        if op.endswith('keep'):
            for s in before:
                ctx.check(outcome(lambda: w.m[s])[0] == 'ok', 'a symbol was removed without clean-up')
        else:
            for s in before - set(w.symbols):
                ctx.check(outcome(lambda: w.m[s])[0] == 'error', 'the symbol %s of %s is still there' % (s, op))
        for s in w.symbols:
            ctx.check(outcome(lambda: w.m[s])[0] == 'ok', '%s removed the symbol %s' % (op, s))
    elif op == 'copy':
        return duplicate(ctx, w, 'copy')
    elif op == 'subset':
        mask = ctx.choose('mask%d' % k, [[True, False], [False, True]])[:len(w.units)]
        if any(mask):
            return duplicate(ctx, w, mask)
    elif op == 'partial':
        w.add_partial()
    elif op == 'run':
        w.check_run('step %d' % k)
    elif op == 'run group':
        if any(g == 'h' for _, _, g in w.exprs):
            w.check_run('step %d' % k, group='h')
    elif op == 'extend':
        w.add_expr('k2', group=ctx.choose('where%d' % k, [None, 'h']))
    elif op == 'assign':
        for s in w.symbols:
            w.assign(s)
    elif op == 'failed preval':
        kind, e = outcome(lambda: w.m.preval('no such group'))
        ctx.check(kind == 'error', 'a group that does not exist was evaluated')
        if 'vc' in w.needed('h'):
            w.m['vc'].empty()
            kind, e = outcome(lambda: w.m.preval('h'))
            ctx.check(kind == 'error' and e == 'ModelNotReadyError', 'a group was evaluated without its data: %s' % (e,))
            w.assign('vc', w.data['vc'])
    return w


def h_sequence(ctx):
    c = ctx.cfg
    w = start(ctx, c['tree'])
    done = []
    worlds = [w]
    for k in range(c['length']):
        op = c['first'] if k == 0 else ctx.choose('op%d' % k, OPS)
        done.append(op)
        w = step(ctx, w, op, k)
        if w is not worlds[-1]:
            worlds.append(w)
    for w in worlds:
        w.check_run('after %s' % ', '.join(done))
    worlds[0].check_given()


def h_all_orders(ctx):
    """All groups in any order, through a copy after any of them."""
    w = start(ctx, None)
    at = ctx.choose('copy after', range(4))
    how = ctx.choose('copy', ['copy', [False, True]])
    for n, g in enumerate(ctx.perm('order', ['g', 'h', 'i'])):
        if n == at:
            w = duplicate(ctx, w, how)
        w.preval(g, cleanup_scope=ctx.flag('cleanup%d' % n))
    w.check_run('after all groups')


def h_text(ctx):
    """Groups with functions, comparisons, chains and aggregations."""
    ch = cheval()
    m = ch.ChoiceModel()
    m.add_choices(['c0', 'c1'])
    m.decision_units = pd.Index([1, 2])
    x = [ctx.real('x0'), ctx.real('x1')]
    k = ctx.real('k')
    t = ch.LinkedDataFrame({'zone': [7, 8]}, index=[1, 2])
    t['x'] = ctx.column(x)
    stops = pd.DataFrame({'zone': [8, 7, 8], 'n': [1.0, 2.0, 4.0]})
    t.link_to(stops, 'stops', on_self='zone', on_other='zone')
    m.declare_table('t', 0)
    m.declare_number('k')
    m['t'].assign(t)
    m['k'].assign(k)
    m.expressions.append('where(t.x > k, t.x, k)', group='a')
    m.expressions.append('t.stops.sum(n) * 0.5', group='b')
    m.expressions.append('{c1: 2.5}', group='b')
    m.expressions.append('k @ c0')
    want = [[(xi if bool(xi > k) else k) + s + (k if j == 0 else 2.5) for j in range(2)] for xi, s in zip(x, (1.0, 2.5))]
    for g in ctx.perm('order', ['a', 'b']):
        if ctx.flag('do ' + g):
            m.preval(g, cleanup_scope=ctx.flag('cleanup ' + g))
            if ctx.flag('copy after ' + g):
                m = m.copy()
    p, ls, tt = m.run_stochastic()
    for i in range(2):
        for j in range(2):
            ctx.check_eq(tt.iat[i, j], ctx.exp(want[i][j]), 'utility')


def h_literals(ctx):
    """Groups whose expressions use reserved names or no symbols at all can be pre-evaluated and cleaned up."""
    w = World(ctx, units=2, declare=['k', 'vr'])
    w.add_expr('k')
    m = w.m
    text, f = ctx.choose('expression', [('1.5', lambda v: 1.5), ('{c0: 1, c1: 1}', lambda v: 1.0),
                                        ('where(vr > 0, 2, 1)', lambda v: 2.0 if bool(v > 0) else 1.0),
                                        ('where(vr == NAN, 1, vr)', lambda v: v), ('where(vr > 0, 1, -1)', lambda v: 1.0 if bool(v > 0) else -1.0)])
    m.expressions.append(text, group='g')
    m.preval('g', cleanup_scope=ctx.flag('cleanup'))
    p, ls, t = m.run_stochastic(clear_scope=False)
    for i in range(2):
        for j in range(2):
            ctx.check_eq(t.iat[i, j], ctx.exp(w.data['k'] + f(w.data['vr'][i])), 'utility after pre-evaluating %s' % text)


def h_infeasible(ctx):
    """Filters by NEG_INF survive the pre-evaluation."""
    w = World(ctx, units=2, declare=['k', 'vr', 'vc'])
    w.add_expr('vc')
    m = w.m
    m.expressions.append('where(vr > k, vr, NEG_INF) @ c0', group='g')
    before = ctx.flag('before')
    if ctx.flag('preval'):
        m.preval('g')
        if ctx.flag('copied'):
            m = m.copy()
    p, ls, t = m.run_stochastic(clear_scope=False)
    for i in range(2):
        v = w.data['vr'][i]
        open_ = bool(v > w.data['k'])
        ctx.check_eq(t.iat[i, 0], ctx.exp(w.data['vc'][0] + v) if open_ else 0.0, 'filtered utility')
        ctx.check_eq(t.iat[i, 1], ctx.exp(w.data['vc'][1]), 'other utility')


def h_shared(ctx):
    """A symbol used anywhere else survives the clean-up, wherever that is."""
    other = ctx.choose('other use', ['ungrouped', 'other group', 'both', 'none'])
    form = ctx.choose('form', ['k', 'vr', 'vc', 'tr', 'tc', 'mx', 'lk'])
    w = World(ctx, units=2, declare=ALL + ['lk'])
    w.add_expr(form, group='g')
    w.add_expr('k*vr', group='g')
    if other in ('ungrouped', 'both'):
        w.add_expr(form)
    if other in ('other group', 'both'):
        w.add_expr(form, group='h')
    how = ctx.choose('copied', [None, 'copy', [False, True]])
    if how:
        w = duplicate(ctx, w, how)
    w.preval('g')
    if ctx.flag('then h') and other in ('other group', 'both'):
        w.preval('h')
    w.check_run('after pre-evaluating')
    w.m.copy()
    w.check_run('again')
