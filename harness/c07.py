"""C07: running a model does not change it."""
from .common import *
from .world import World, ALL

BOUNDS = {
    'quick': 'every sequence of 3 operations out of 14 (runs of all kinds, failing runs, re-assignment, partial utilities, new units, '
             'new expressions, other choices, clearing runs) on a model with 2 units, 2 choices, a group and a filter; sequences of 2 on a nested '
             'model, and on one unit; discrete runs repeated after 2 operations; all numbers any real',
    'thorough': 'as quick with sequences of 4 operations (nested: 3)'}
ASSUME = ['real arithmetic (no rounding or overflow)', 'numexpr itself is replaced by an element-wise evaluator while solving']

OPS = ['run', 'run group', 'discrete', 'run and clear', 'fail nan', 'fail key', 'fail infeasible', 'reassign k', 'reassign vr',
       'reassign mx', 'partial', 'units', 'expression']
TREE = [-1, -1, 0, 0]


def jobs(tier):
    n = 3 if tier == 'quick' else 4
    out = [('h_sequence', dict(first=o, length=n)) for o in OPS]
    out += [('h_sequence', dict(first=o, length=n - 1, tree=TREE)) for o in OPS]
    out += [('h_sequence', dict(first=o, length=n - 1, units=1)) for o in OPS]
    for how in ('replace', 'add'):
        out += [('h_sequence', dict(first=o, second='choices ' + how, length=n, tree=t, constants=True))
                for o in ('run', 'run group', 'discrete', 'units', 'partial', 'fail nan') for t in (None, TREE)
                if t is None or o not in ('discrete', 'units')]
    out += [('h_discrete', dict(first=o)) for o in OPS if o not in ('discrete',)]
    return out


def step(ctx, w, op, k):
    m = w.m
    what = 'after step %d (%s)' % (k, op)
    if op == 'run':
        w.check_run(what)
    elif op == 'run group':
        w.check_run(what, group='g')
    elif op == 'discrete':
        if w.ready():
            m.run_discrete(random_seed=5, clear_scope=False)
    elif op == 'run and clear':
        w.run_and_clear(what)
    elif op == 'fail nan':
        if w.ready():
            m['k'].assign(float('nan'))
            kind, r = outcome(lambda: m.run_stochastic(clear_scope=False))
            ctx.check(kind == 'error', 'a utility of NaN was accepted')
            w.assign('k', w.data['k'])
    elif op == 'fail key':
        if w.ready():
            m['tr'].assign(pd.DataFrame({'z': np.ones(len(w.units))}, index=m.decision_units))
            kind, r = outcome(lambda: m.run_stochastic(clear_scope=False))
            ctx.check(kind == 'error', 'a table without the needed column was accepted')
            w.assign('tr', w.data['tr'])
    elif op == 'fail infeasible':
        if w.ready():
            m['mx'].assign(pd.DataFrame(np.full((len(w.units), len(w.choices)), NEG), index=m.decision_units, columns=m.choices))
            kind, r = outcome(lambda: m.run_stochastic(clear_scope=False))
            ctx.check(kind == 'error', 'infeasible units were accepted')
            kind, r = outcome(lambda: m.run_discrete(clear_scope=False))
            ctx.check(kind == 'error', 'infeasible units were accepted')
            w.assign('mx', w.data['mx'])
    elif op.startswith('reassign'):
        w.assign(op.split()[1])
    elif op == 'partial':
        w.add_partial()
    elif op == 'units':
        same = ctx.flag('same number of units %d' % k)
        w.set_units(['new%d_%d' % (k, i) for i in range(len(w.units) if same else len(w.units) + 1)])
        w.check_run('after changing the units')
        given = [s for s in ALL if s != 'k']
        last = ctx.choose('last %d' % k, given) if k == 0 else given[k % len(given)]
        for s in given:
            if s != last:
                w.assign(s)
        w.check_run('after changing the units, %s not given' % last)
        w.assign(last)
    elif op.startswith('choices'):
        w.set_choices(op.split()[1])
    elif op == 'expression':
        w.add_expr('vr', group='g')


def start(ctx):
    w = World(ctx, units=ctx.cfg.get('units', 2), cols=ctx.cfg.get('cols', 2), tree=ctx.cfg.get('tree'))
    w.add_expr('k*vr')
    w.add_expr('tr', group='g')
    w.add_expr('mx+tr', group='h')
    w.add_expr('vc', col=len(w.choices) - 1)
    if ctx.cfg.get('constants'):
        w.add_expr('dict')
        w.add_expr('vc', col=0)
    return w


def h_sequence(ctx):
    c = ctx.cfg
    w = start(ctx)
    done = []
    for k in range(c['length']):
        op = c['first'] if k == 0 else c['second'] if k == 1 and 'second' in c else ctx.choose('op%d' % k, OPS)
        done.append(op)
        step(ctx, w, op, k)
    exprs, choices, units = list(w.m.expressions.tolist()), list(w.m.choices), list(w.m.decision_units)
    w.check_run('at the end (%s)' % ', '.join(done))
    w.check_run('at the end, again')
    ctx.check(exprs == list(w.m.expressions.tolist()) and choices == list(w.m.choices) and units == list(w.m.decision_units)
              and units == w.units and choices == w.choices, 'a run changed expressions, choices or units')
    w.check_given()


def h_discrete(ctx):
    """Discrete runs repeat, and equal those of a fresh model with the same data."""
    c = ctx.cfg
    w = World(ctx)
    w.add_expr('k*vr', col=0)
    w.add_expr('tr', group='g')
    w.add_expr('mx', group='h')
    step(ctx, w, c['first'], 0)
    seed = ctx.choose('seed', [1, 99])
    a, la = w.m.run_discrete(random_seed=seed, astype='index', clear_scope=False)
    b, lb = w.m.run_discrete(random_seed=seed, astype='index', clear_scope=False)
    f = cheval().ChoiceModel()
    f.add_choices(w.choices)
    f.decision_units = pd.Index(w.units)
    f.add_partial_utilities(frame(ctx, w.wanted(), f.decision_units, f.choices))
    x, lx = f.run_discrete(random_seed=seed, astype='index')
    for i in range(len(w.units)):
        ctx.check(int(a.iat[i]) == int(b.iat[i]), 'a repeated discrete run gives another choice')
        ctx.check(int(a.iat[i]) == int(x.iat[i]), 'a discrete run differs from the run of a fresh model')
        ctx.check_eq(la.iat[i], lb.iat[i], 'a repeated discrete run gives another logsum')
        ctx.check_eq(la.iat[i], lx.iat[i], 'the logsum of a discrete run differs from that of a fresh model')
    w.check_given()
