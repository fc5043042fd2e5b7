"""C16: ill-formed models are refused and failed operations change nothing."""
from .common import *

BOUNDS = {
    'quick': 'every tree built by up to 4 additions, every shape of tree of up to 6 nodes; every state (undeclared, declared, assigned, assigned and dropped) of 3 symbols of '
             'any kind in models with 3 groups; every sequence of 3 steps of declaring, assigning, clearing and changing units; about '
             '40 rejected expressions at any place of sequences of accepted ones, in old and new groups; the unused numbers any real',
    'thorough': 'as quick with trees of up to 5 additions, shapes of up to 7 nodes, and sequences of 4 steps'}
ASSUME = ['real arithmetic; numexpr is replaced by an element-wise evaluator while solving']


def outcome(f):
    from . import common
    kind, r = common.outcome(f)
    return kind, (r if kind == 'error' else 'accepted')


def jobs(tier):
    big = tier == 'thorough'
    out = []
    for n in range(0, 6 if big else 5):
        if n < 4:
            out.append(('h_tree', dict(n=n, first=None)))
        else:
            out += [('h_tree', dict(n=n, first=f)) for f in ((-1, 0), (-1, 1), (0, 0), (0, 1))]
    for n in (5, 6) + ((7,) if big else ()):
        out += [('h_shape', dict(n=n, second=k)) for k in (-1, 0)]
    for run in RUNS:
        out.append(('h_symbols', dict(run=run)))
    for f in STEPS:
        out.append(('h_steps', dict(first=f, n=4 if big else 3)))
    for part in range(8):
        out.append(('h_rejected', dict(part=part)))
    out += [('h_units', {}), ('h_reserved', {}), ('h_reserved_use', {}), ('h_inconsistent', {}), ('h_setter', {}), ('h_refused_choice', {}),
            ('h_draws', {})]
    return out


def h_tree(ctx):
    m = cheval().ChoiceModel()
    m.decision_units = pd.Index([1, 2])
    nodes = {}
    for k in range(ctx.cfg['n']):
        paths = list(nodes)
        if k == 0:
            i, name = -1, 0
        elif k == 1 and ctx.cfg['first'] is not None:
            i, name = ctx.cfg['first']
        else:
            i = ctx.choose('parent%d' % k, [-1] + list(range(len(paths))))
            name = ctx.choose('name%d' % k, [0, 1])
        parent = () if i < 0 else paths[min(i, len(paths) - 1)]
        path = parent + (['a', 'b'][name],)
        for p in [p for p in nodes if p[:len(path)] == path]:
            del nodes[p]
        nodes[path] = (m if not parent else nodes[parent]).add_choice(path[-1])
    kids = {p: sum(1 for q in nodes if q[:-1] == p) for p in list(nodes) + [()]}
    good = kids[()] >= 2 and all(v != 1 for p, v in kids.items() if p != ())
    m.declare_number('k')
    m['k'].assign(ctx.real('k'))
    m.expressions.append('k', group='g')
    what = ctx.choose('do', ['discrete', 'stochastic', 'group', 'preval', 'partial', 'validate'])
    kind, r = outcome({'discrete': lambda: m.run_discrete(random_seed=1), 'stochastic': lambda: m.run_stochastic(),
                       'group': lambda: m.run_stochastic(group='g'), 'preval': lambda: m.preval('g'),
                       'partial': lambda: m.add_partial_utilities(pd.DataFrame(np.zeros((2, len(nodes))), index=[1, 2],
                                                                               columns=m.choices)),
                       'validate': lambda: m.validate()}[what])
    tree = ['.'.join(p) for p in nodes]
    if good:
        ctx.check(kind == 'ok', '%s of a model with the tree %s raised %s' % (what, tree, r))
    else:
        ctx.check(kind == 'error' and r == 'ModelNotReadyError', '%s of a model with the tree %s: %s' % (what, tree, r if kind == 'error'
                                                                                                         else 'accepted'))


def h_shape(ctx):
    """Every shape of a tree."""
    m = cheval().ChoiceModel()
    m.decision_units = pd.Index([1, 2])
    nodes, parents = [], []
    n = ctx.cfg['n']
    for k in range(n):
        i = -1 if k == 0 else ctx.cfg['second'] if k == 1 else ctx.choose('parent%d' % k, [-1] + list(range(k)))
        parents.append(i)
        nodes.append((m if i < 0 else nodes[i]).add_choice('q%d' % (n - k)))
    kids = [parents.count(k) for k in range(n)]
    good = parents.count(-1) >= 2 and 1 not in kids
    m.declare_number('k')
    m['k'].assign(ctx.real('k'))
    m.expressions.append('k', group='g')
    kind, r = outcome({'stochastic': lambda: m.run_stochastic(), 'preval': lambda: m.preval('g'), 'validate': lambda: m.validate()}[
        ctx.choose('do', ['stochastic', 'preval', 'validate'] if n < 6 else ['validate'])])
    ctx.check(kind == 'ok' if good else r == 'ModelNotReadyError', 'a tree with the parents %s: %s' % (parents, r if kind == 'error' else
                                                                                                       'accepted'))


def model(units=True):
    m = cheval().ChoiceModel()
    m.add_choices(['c0', 'c1'])
    if units:
        m.decision_units = pd.Index([1, 2])
    return m


KINDS = {'number': ('{s}', lambda m, s: m.declare_number(s), lambda m, v: v),
         'vector': ('{s}', lambda m, s: m.declare_vector(s, 0), lambda m, v: np.array([1.0, 2.0])),
         'choice vector': ('{s}', lambda m, s: m.declare_vector(s, 1), lambda m, v: np.array([1.0, 2.0])),
         'table': ('{s}.a', lambda m, s: m.declare_table(s, 0), lambda m, v: pd.DataFrame({'a': [1.0, 2.0]}, index=m.decision_units)),
         'matrix': ('{s}', lambda m, s: m.declare_matrix(s), lambda m, v: pd.DataFrame(np.ones((2, 2)), index=m.decision_units,
                                                                                      columns=m.choices))}
RUNS = ['discrete', 'stochastic', 'group g', 'group h', 'preval g', 'preval h', 'validate']


def run(m, what):
    group = what.split()[1] if ' ' in what else None
    if what == 'discrete':
        return lambda: m.run_discrete(random_seed=1)
    if what == 'validate':
        return lambda: m.validate()
    if what.startswith('preval'):
        return lambda: m.preval(group)
    return lambda: m.run_stochastic(group=group)


def h_symbols(ctx):
    """Runs are refused exactly if an expression to be evaluated lacks a symbol."""
    m = model()
    what = ctx.cfg['run']
    states, where = {}, {}
    v = ctx.real('v')
    for s in ('x', 'y', 'z'):
        kind = ctx.choose('kind of ' + s, sorted(KINDS)) if s == 'x' else {'y': 'table', 'z': 'number'}[s]
        states[s] = ctx.choose('state of ' + s, ['undeclared', 'declared', 'assigned', 'dropped'])
        text, declare, data = KINDS[kind]
        if states[s] != 'undeclared':
            declare(m, s)
        if states[s] in ('assigned', 'dropped'):
            m[s].assign(data(m, v))
        if states[s] == 'dropped':
            m[s].empty()
        where[s] = ctx.choose('use of ' + s, [None, 'g', 'h', 'nowhere'] if s != 'y' else ['g', 'h'])
        if where[s] != 'nowhere':
            m.expressions.append('1 + ' + text.format(s=s), group=where[s])
    m.expressions.append('1', group='g')
    m.expressions.append('2', group='h')
    group = what.split()[1] if ' ' in what else None
    needed = [s for s in states if where[s] != 'nowhere' and (group is None or where[s] == group)]
    good = all(states[s] == 'assigned' for s in needed)
    kind, r = outcome(run(m, what))
    ctx.check(kind == 'ok' if good else r == 'ModelNotReadyError', '%s with symbols %s used in %s: %s' % (
        what, states, where, 'accepted' if kind == 'ok' else r))


STEPS = ['declare x', 'assign x', 'assign n', 'declare n', 'units', 'clear', 'expression x', 'run', 'copy', 'empty']


def h_steps(ctx):
    """The same after any history."""
    m = model()
    x = n = 'undeclared'
    uses = False
    m.declare_number('n')
    n = 'declared'
    m.expressions.append('n', group='g')
    v = ctx.real('v')
    done = []
    for k in range(ctx.cfg['n']):
        op = ctx.cfg['first'] if k == 0 else ctx.choose('op%d' % k, STEPS)
        done.append(op)
        if op == 'declare x':
            m.declare_vector('x', 0)
            x = 'declared'
        elif op == 'declare n':
            m.declare_number('n')
            n = 'declared'
        elif op == 'assign x':
            kind, r = outcome(lambda: m['x'].assign(np.array([1.0, 2.0])))
            ctx.check((kind == 'ok') == (x != 'undeclared'), 'assigning to a symbol that is %s: %s' % (x, r))
            x = 'assigned' if kind == 'ok' else x
        elif op == 'assign n':
            kind, r = outcome(lambda: m['n'].assign(v))
            ctx.check((kind == 'ok') == (n != 'undeclared'), 'assigning to a symbol that is %s: %s' % (n, r))
            n = 'assigned' if kind == 'ok' else n
        elif op == 'units':
            m.decision_units = pd.Index([3, 4])
            x = 'declared' if x == 'assigned' else x
        elif op == 'clear':
            m.clear_scope()
            x = n = 'undeclared'
        elif op == 'expression x':
            m.expressions.append('x')
            uses = True
        elif op == 'empty' and x != 'undeclared':
            m['x'].empty()
            x = 'declared'
        elif op == 'copy':
            m = m.copy()
        elif op == 'run':
            kind, r = outcome(lambda: m.run_stochastic())
            good = n == 'assigned' and (not uses or x == 'assigned')
            ctx.check(kind == 'ok' if good else r == 'ModelNotReadyError', 'run after %s: %s' % (done, r))
            if good:
                x = n = 'undeclared'
    good = n == 'assigned' and (not uses or x == 'assigned')
    kind, r = outcome(lambda: m.run_discrete(random_seed=1))
    ctx.check(kind == 'ok' if good else r == 'ModelNotReadyError', 'run after %s: %s' % (done, 'accepted' if kind == 'ok' else r))


REJECTED = ['x if y else z', '[x]', 'x[0]', '(lambda: x)', '~x', '(x in y)', 'foo(x)', 'x.foo(y)', 'x.sum(q=1)', '(x + y).a',
            '[i for i in x]', '{c0: x}', "{c0: 's'}", '{1 + 2: 3}', 'x +', '(x', '', 'x y', 'x @ c0 @ c1', '1x', 'x = 1',
            'x + x.a', 'x.a + x', 'n.a', 't', 't + n', 'n + n.a', 't.a + t', 'x.sum()', 'new + new.a', 'new.a * new', 'x + fresh + t',
            't.sum(a) + fresh + n.q', 'fresh.a + n.a', 'fresh + foo(x)', 'fresh.b + [1]', '{c0: 1, c1: fresh}', 'where(fresh, x[0], 1)']


def h_rejected(ctx):
    """A rejected expression leaves no trace: not in the results, and not in which names may be used how."""
    rej = ctx.choose('expression', [r for k, r in enumerate(REJECTED) if k % 8 == ctx.cfg['part']])
    group = ctx.choose('group', [None, 'g', 'new'])
    v, a = ctx.real('v'), [ctx.real('a0'), ctx.real('a1')]
    m = model()
    m.declare_number('n')
    m.declare_table('t', 0)
    m['n'].assign(v)
    m['t'].assign(pd.DataFrame({'a': ctx.column(a)}, index=m.decision_units))
    place = ctx.choose('place', [0, 1, 2])
    twice = ctx.flag('twice')
    if place == 0:     # before the names are used: some would not be inconsistent then
        ctx.assume(rej not in ('n.a', 't', 't.sum(a) + fresh + n.q', 'fresh.a + n.a', 'x + fresh + t', 't + n'))
    if place == 1:
        ctx.assume(rej not in ('t', 'x + fresh + t', 't + n'))

    def bad():
        for _ in range(2 if twice else 1):
            kind, e = outcome(lambda: m.expressions.append(rej, group=group))
            ctx.check(kind == 'error', 'the expression %r was accepted' % rej)
    if place == 0:
        bad()
    m.expressions.append('n')
    if place == 1:
        bad()
    m.expressions.append('t.a', group='g')
    if place == 2:
        bad()
    ctx.check(m.expressions.tolist() == ['n'], 'expressions after a rejected one: %s' % m.expressions.tolist())
    ctx.check(len(list(m.expressions)) == 2 and len(list(m.expressions.get_group('g'))) == 1, 'groups after a rejected expression')
    ctx.check(outcome(lambda: m.expressions.get_group('new'))[0] == 'error', 'a rejected expression made a group')
    ctx.check(set(m.expressions.itersimple()) == {'n'} and set(m.expressions.iterchained()) == {'t'}, 'symbols after a rejected expression')
    # names the rejected expression mentioned are still free for any use
    for text, g in [('fresh' if ctx.flag('plain') else 'fresh.b', ctx.choose('later group', [None, 'g', 'later']))]:
        c = m.copy()
        kind, e = outcome(lambda: c.expressions.append(text, group=g))
        ctx.check(kind == 'ok', 'the name of a rejected expression cannot be used: %s' % (e,))
        kind, e = outcome(lambda: m.copy().expressions.append('x.a' if ctx.flag('dotted') else 'x'))
        ctx.check(kind == 'ok', 'the name of a rejected expression cannot be used: %s' % (e,))
    p, ls, t = m.run_stochastic()
    for i in range(2):
        for j in range(2):
            ctx.check_eq(t.iat[i, j], ctx.exp(v + a[i]), 'utility after a rejected expression')


def h_inconsistent(ctx):
    """A name is used plainly or dotted throughout the model."""
    m = model()
    first, second = ctx.choose('forms', [('q', 'q.a'), ('q.a', 'q'), ('q.sum(a)', 'q'), ('q', 'q.sum(a)'), ('q', 'q'), ('q.a', 'q.b'),
                                         ('q.L.a', 'q.a'), ('q.a', 'q.L.sum(a)')])
    g1, g2 = ctx.choose('group1', [None, 'g']), ctx.choose('group2', [None, 'g', 'h'])
    ok = ('.' in first) == ('.' in second)
    m.expressions.append('1 + ' + first, group=g1)
    if ctx.flag('copied'):
        m = m.copy()
    kind, e = outcome(lambda: m.expressions.append('2 * ' + second, group=g2))
    ctx.check((kind == 'ok') == ok, '%s after %s was %s' % (second, first, 'accepted' if kind == 'ok' else 'refused'))
    ctx.check(ok or e == 'UnsupportedSyntaxError', '%s after %s raised %s' % (second, first, e))


def h_units(ctx):
    m = model(units=False)
    m.declare_number('k')
    m['k'].assign(ctx.real('k'))
    m.expressions.append('k', group='g')
    what = ctx.choose('do', RUNS[:3] + ['preval g', 'validate', 'units'])
    kind, r = outcome(run(m, what) if what != 'units' else (lambda: m.decision_units))
    ctx.check(kind == 'error' and r == 'ModelNotReadyError', '%s without units: %s' % (what, r))
    m.decision_units = ctx.choose('units', [[1], [2, 1], pd.Index(['a'])])
    kind, r = outcome(lambda: m.run_stochastic())
    ctx.check(kind == 'ok', 'a run after setting units: %s' % (r,))


def h_reserved(ctx):
    m = model()
    m.declare_number('k')
    m['k'].assign(ctx.real('k'))
    m.expressions.append('where(k > 1, k, NEG_INF)')
    name = ctx.choose('name', ['NAN', 'NEG_INF', 'OUT'])
    how = ctx.choose('as', ['number', 'vector', 'table', 'matrix'])
    kind, r = outcome({'number': lambda: m.declare_number(name), 'vector': lambda: m.declare_vector(name, 0),
                       'table': lambda: m.declare_table(name, 1), 'matrix': lambda: m.declare_matrix(name)}[how])
    ctx.check(kind == 'error', 'the reserved name %s was declared' % name)
    ctx.check(outcome(lambda: m[name])[0] == 'error', 'a refused name is in the scope')
    kind, r = outcome(lambda: m.run_stochastic(check_infeasible=False))
    ctx.check(kind == 'ok', 'a run after a refused declaration: %s' % (r,))


def h_reserved_use(ctx):
    """Reserved constants need no declaration."""
    m = model()
    m.declare_vector('x', 0)
    x = [ctx.real('x0'), ctx.real('x1')]
    m['x'].assign(ctx.series(x, m.decision_units))
    m.expressions.append('where(x > 0, x, NEG_INF) @ c0', group=ctx.choose('group', [None, 'g']))
    p, ls, t = m.run_stochastic()
    for i in range(2):
        ctx.check_eq(t.iat[i, 0], ctx.exp(x[i]) if bool(x[i] > 0) else 0.0, 'utility with NEG_INF')
        ctx.check_eq(t.iat[i, 1], 1.0, 'utility')


def h_setter(ctx):
    """Assigning a list of expressions adds those before the rejected one, and nothing of the rejected one."""
    m = model()
    m.declare_number('n')
    v = ctx.real('v')
    m['n'].assign(v)
    k = ctx.choose('rejected at', [0, 1, 2, None])
    texts = ['n', 'n * 2']
    if k is not None:
        texts = texts[:k] + ['n + foo(fresh)'] + texts[k:]

    def f():
        m.expressions = texts
    kind, e = outcome(f)
    ctx.check((kind == 'error') == (k is not None), 'assigning expressions %s: %s' % (texts, e))
    ctx.check(m.expressions.tolist() == texts[:k], 'expressions are %s' % m.expressions.tolist())
    p, ls, t = m.run_stochastic()
    ctx.check_eq(t.iat[1, 1], ctx.exp(v * {0: 0, 1: 1, 2: 3, None: 3}[k]), 'utility')


def h_refused_choice(ctx):
    m = model()
    nest = m.add_choice('n')
    nest.add_choice('x')
    y = nest.add_choice('y')
    pu = [[ctx.real('u%d_%d' % (i, j)) for j in range(5)] for i in range(2)]
    m.add_partial_utilities(frame(ctx, pu, m.decision_units, m.choices))
    before = list(m.choices)
    owner, names = ctx.choose('owner', [(m, ['c0', 'n', 'q']), (nest, ['x', 'y', 'q']), (y, ['x', 'q'])])
    name = ctx.choose('name', names + ['.', '_', 'a.b'])
    scale = 1.0 if name in ('.', '_', 'a.b') else ctx.choose('scale', [0, 1.01, -1, float('nan')])
    how = ctx.choose('how', ['one', 'batch']) if owner is m else 'one'
    kind, e = outcome(lambda: owner.add_choice(name, scale) if how == 'one' else m.add_choices([name], [scale]))
    ctx.check(kind == 'error', 'the choice %s with scale %s was accepted' % (name, scale))
    ctx.check(list(m.choices) == before, 'choices after a refused one: %s' % list(m.choices))
    p, ls, t = m.run_stochastic()
    for i in range(2):
        ex = [ctx.exp(x) for x in pu[i]]
        ex[2] = ex[2] * (ex[3] + ex[4])
        for j in range(5):
            ctx.check_eq(t.iat[i, j], ex[j], 'utility after a refused choice')


def h_draws(ctx):
    """Impossible numbers of draws are refused and change nothing."""
    m = model()
    m.declare_number('n')
    v = ctx.real('v')
    m['n'].assign(v)
    m.expressions.append('n')
    d = ctx.choose('draws', [0, -1])
    kind, e = outcome(lambda: m.run_discrete(random_seed=1, n_draws=d))
    ctx.check(kind == 'error', '%d draws were accepted' % d)
    p, ls, t = m.run_stochastic()
    ctx.check_eq(t.iat[1, 1], ctx.exp(v), 'utility')
