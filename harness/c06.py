"""C06: the utility table is the sum of all expressions, masked by choice filters."""
from .common import *

BOUNDS = {
    'quick': 'models of 1..3 units and 2..3 choices, or a nested model of 5 nodes; one expression out of 26 forms (numbers, row and '
             'choice vectors as Series/array, table columns of several types, matrices, dict literals, where, NEG_INF), with any '
             'or no choice filter; up to 3 expressions from a pool of 5 spread over up to 3 groups (named by any kind of value), evaluated together or '
             'per group, with and without partial utilities; sums of the expressions of two models; debug output for labels of several kinds; models of 1100 units (5 of them symbolic); every number any real',
    'thorough': 'as quick, with 3x3 and 2x4 models and pairs of any two forms'}
ASSUME = ['real arithmetic (no rounding or overflow)', 'numexpr itself is replaced by an element-wise evaluator while solving, and '
          'used as it is when witnesses are replayed', 'the terms of run_stochastic show the utilities (C01, C02)']

TREE = [-1, -1, 0, 0, 0]
IN_QUICK = [(1, 2), (2, 2), (2, 3), (3, 2)]


class Env:
    def __init__(self, ctx, units, choices):
        n, m = len(units), len(choices)
        self.n, self.m, self.units, self.choices = n, m, units, choices
        r = lambda s: ctx.real(s)
        self.k = r('k')
        self.vr = [r('vr%d' % i) for i in range(n)]
        self.vc = [r('vc%d' % j) for j in range(m)]
        self.ta = [r('ta%d' % i) for i in range(n)]
        self.tb = [r('tb%d' % i) for i in range(n)]
        self.tw = [r('tw%d' % j) for j in range(m)]
        self.tv = [r('tv%d' % j) for j in range(m)]
        self.mx = [[r('mx%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
        self.pu = [[r('pu%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
        self.tn = [3 + 2 * i for i in range(n)]
        self.tf = [i % 2 == 1 for i in range(n)]
        self.tc = ['xy'[i % 2] * (1 + i // 2) for i in range(n)]
        self.wn = [2 ** j for j in range(m)]
        self.ws = ['pqp'[j % 3] for j in range(m)]

    def declare(self, m, only=None):
        add_ = {
            'k': lambda: m.declare_number('k'),
            'vr': lambda: m.declare_vector('vr', 0), 'va': lambda: m.declare_vector('va', 0),
            'vc': lambda: m.declare_vector('vc', 1), 'vd': lambda: m.declare_vector('vd', 1),
            'tr': lambda: m.declare_table('tr', 0), 'tc': lambda: m.declare_table('tc', 1),
            'mx': lambda: m.declare_matrix('mx')}
        for name in add_ if only is None else only:
            add_[name]()

    def assign(self, ctx, m, only=None):
        u, c = m.decision_units, m.choices
        tr = pd.DataFrame({'n': self.tn, 'f': self.tf, 'c': pd.Categorical(self.tc), 's': self.tc}, index=u)
        tr['a'] = ctx.column(self.ta)
        tr['b'] = ctx.column(self.tb)
        tc = pd.DataFrame({'n': self.wn, 's': self.ws}, index=c)
        tc['w'] = ctx.column(self.tw)
        tc['v'] = ctx.column(self.tv)
        data = {'k': self.k, 'vr': ctx.series(self.vr, u), 'va': ctx.arr(self.vr), 'vc': ctx.series(self.vc, c),
                'vd': ctx.arr(self.vc), 'tr': tr, 'tc': tc, 'mx': frame(ctx, self.mx, u, c)}
        for name in data if only is None else only:
            m[name].assign(data[name])
        return data


def short(choices):
    """A dict key for the first and the last choice"""
    a, b = choices[0], choices[-1]
    if isinstance(a, tuple):
        a, b = ['.'.join(p for p in x if p != '.') for x in (a, b)]
    return a, b


# text (with %(a)s, %(b)s: the first and the last choice), value of cell i,j
POOL = {
    'number': ('k', lambda e, i, j: e.k),
    'constant': ('1.5', lambda e, i, j: 1.5),
    'rows': ('vr', lambda e, i, j: e.vr[i]),
    'rows array': ('va * 2', lambda e, i, j: e.vr[i] * 2),
    'cols': ('vc', lambda e, i, j: e.vc[j]),
    'cols array': ('vd + 1', lambda e, i, j: e.vc[j] + 1),
    'outer': ('k * vr * vc', lambda e, i, j: e.k * e.vr[i] * e.vc[j]),
    'minus': ('-vr - vc', lambda e, i, j: -e.vr[i] - e.vc[j]),
    'table': ('tr.a', lambda e, i, j: e.ta[i]),
    'table 2': ('tr.a - tr.b', lambda e, i, j: e.ta[i] - e.tb[i]),
    'table cols': ('tc.w', lambda e, i, j: e.tw[j]),
    'table cols 2': ('tc.w * 2 - tc.v', lambda e, i, j: e.tw[j] * 2 - e.tv[j]),
    'table both': ('tc.w * tr.b', lambda e, i, j: e.tw[j] * e.tb[i]),
    'int col': ('tr.n * k', lambda e, i, j: e.tn[i] * e.k),
    'bool col': ('k * tr.f', lambda e, i, j: e.k if e.tf[i] else 0.0),
    'category': ("k * (tr.c == 'x')", lambda e, i, j: e.k if e.tc[i] == 'x' else 0.0),
    'text': ("vr * (tr.s != 'x')", lambda e, i, j: e.vr[i] if e.tc[i] != 'x' else 0.0),
    'choice int': ('tc.n * vr', lambda e, i, j: e.wn[j] * e.vr[i]),
    'choice text': ("k * (tc.s == 'p')", lambda e, i, j: e.k if e.ws[j] == 'p' else 0.0),
    'matrix': ('mx', lambda e, i, j: e.mx[i][j]),
    'matrix 2': ('mx * k + vr', lambda e, i, j: e.mx[i][j] * e.k + e.vr[i]),
    'dict': ('{%(a)s: 2, %(b)s: -3}', lambda e, i, j: {0: 2.0, e.m - 1: -3.0}.get(j, 0.0)),
    'dict outer': ('{%(b)s: 0.5} * vr', lambda e, i, j: 0.5 * e.vr[i] if j == e.m - 1 else 0.0),
    'where': ('where(vr > 0, vc, mx)', lambda e, i, j: e.vc[j] if e.vr[i] > 0 else e.mx[i][j]),
    'neg inf': ('where(vr > 0, 0.0, NEG_INF)', lambda e, i, j: 0.0 if e.vr[i] > 0 else NEG),
    'logical': ('where((vc > 0) and (vr < 1), k, 0)', lambda e, i, j: e.k if e.vc[j] > 0 and e.vr[i] < 1 else 0.0),
}
MANY = ['number', 'rows', 'table cols 2', 'matrix', 'dict']
NEST_FILTER = {'number', 'rows', 'cols', 'table 2', 'table cols', 'matrix', 'dict', 'outer'}


def jobs(tier):
    out = []
    sizes = IN_QUICK + ([(3, 3), (2, 4)] if tier == 'thorough' else [])
    for rows, cols in sizes:
        out.append(('h_one', dict(rows=rows, cols=cols, partial=False)))
    out.append(('h_one', dict(rows=2, cols=2, partial=True)))
    out.append(('h_one', dict(rows=2, tree=TREE, partial=False)))
    out.append(('h_one', dict(rows=3, cols=3, partial=False, precision=4, tol=1e4, filters=False)))
    groups = [[None, None, None], [None, 'g', None], ['g', None, 'h'], ['g', 'g', 'h'], ['h', 'g', None], [None, 'g', 'g'],
              [None, 0, ''], ['', 0, 'g']]    # any hashable name will do
    for gs in groups:
        for run in [None, 'g', 'h', 0, '']:
            if run is None or run in gs:
                for partial in (True, False):
                    out.append(('h_many', dict(rows=2, cols=2, groups=gs, run=run, partial=partial)))
    out.append(('h_many', dict(rows=2, tree=TREE, groups=[None, 'g', None], run=None, partial=True)))
    out.append(('h_many', dict(rows=2, tree=TREE, groups=['g', None, 'g'], run='g', partial=False)))
    out.append(('h_debug', dict(rows=2, cols=2)))
    out.append(('h_added', {}))
    if tier == 'thorough':
        for first in POOL:
            out.append(('h_pair', dict(rows=2, cols=2, first=first)))
    out += [('h_long', {}), ('h_long', dict(tree=[-1, -1, 0, 0]))]
    return out


def _model(ctx):
    c = ctx.cfg
    m = cheval().ChoiceModel(precision=c.get('precision', 8))
    if c.get('tree'):
        build_tree(m, c['tree'])
    else:
        m.add_choices(['c%d' % j for j in range(c['cols'])])
    m.decision_units = pd.Index(['row%d' % i for i in range(c['rows'])])
    return m


def observe(ctx, m, env, want, group=None):
    """The terms of a run are the exponentials of the wanted utilities."""
    p, ls, t = m.run_stochastic(group=group, check_infeasible=False)
    tree = ctx.cfg.get('tree')
    for i in range(env.n):
        ex = [ctx.exp(x) for x in want[i]]
        for j in range(env.m):
            w = ex[j]
            if tree and j in tree:
                w = w * add(ex[q] for q in range(env.m) if tree[q] == j)
            ctx.check_eq(t.iat[i, j], w, 'utility of unit %d, choice %d' % (i, j))


def total(env, parts, partial):
    """parts: [(f, column or None)]"""
    out = []
    for i in range(env.n):
        row = []
        for j in range(env.m):
            x = env.pu[i][j] if partial else 0.0
            for f, col in parts:
                if col is None or col == j:
                    x = x + f(env, i, j)
            row.append(x)
        out.append(row)
    return out


def path_of(label):
    return label if not isinstance(label, tuple) else '.'.join(p for p in label if p != '.')


def text_of(env, name):
    a, b = short(env.choices)
    t = POOL[name][0]
    return t % dict(a=a, b=b) if '%(' in t else t


def h_one(ctx):
    c = ctx.cfg
    m = _model(ctx)
    env = Env(ctx, list(m.decision_units), list(m.choices))
    name = ctx.choose('expression', sorted(POOL) if not c.get('tree') else sorted(NEST_FILTER))
    text, f = text_of(env, name), POOL[name][1]
    col = ctx.choose('filter', [None] + list(range(env.m))) if c.get('filters', True) else None
    if col is not None:
        text = '%s @ %s' % (text, path_of(env.choices[col]))
    env.declare(m)
    env.assign(ctx, m)
    if c['partial']:
        m.add_partial_utilities(frame(ctx, env.pu, m.decision_units, m.choices))
    m.expressions.append(text)
    observe(ctx, m, env, total(env, [(f, col)], c['partial']))


def h_many(ctx):
    c = ctx.cfg
    m = _model(ctx)
    env = Env(ctx, list(m.decision_units), list(m.choices))
    parts = []
    env.declare(m)
    used = set()
    for k, g in enumerate(c['groups']):
        name = ctx.choose('expression%d' % k, MANY)
        text, f = text_of(env, name), POOL[name][1]
        col = 1 if k == 1 else None
        if col is not None:
            text = '%s @ %s' % (text, path_of(env.choices[col]))
        m.expressions.append(text, group=g)
        if c['run'] is None or g == c['run']:
            parts.append((f, col))
            used |= {s for s in ('k', 'vr', 'tc', 'mx') if s in text}
    env.assign(ctx, m, only=sorted(used))   # symbols of other groups need no data
    if c['partial']:
        m.add_partial_utilities(frame(ctx, env.pu, m.decision_units, m.choices))
    observe(ctx, m, env, total(env, parts, c['partial']), group=c['run'])


def h_pair(ctx):
    c = ctx.cfg
    m = _model(ctx)
    env = Env(ctx, list(m.decision_units), list(m.choices))
    env.declare(m)
    env.assign(ctx, m)
    second = ctx.choose('second', sorted(POOL))
    col = ctx.choose('filter', [None, 0, 1])
    m.expressions.append(text_of(env, c['first']))
    m.expressions.append(text_of(env, second) + ('' if col is None else ' @ ' + path_of(env.choices[col])))
    observe(ctx, m, env, total(env, [(POOL[c['first']][1], None), (POOL[second][1], col)], False))


def h_debug(ctx):
    """Asking for debugging output changes nothing, and shows the utilities of the unit after each expression."""
    m = _model(ctx)
    labels = ctx.choose('units', [['row0', 'row1'], [0, 1], [1, 0], ['', 'x'], [(0, 0), (0, 1)], [(1, 0), (0, 1)]])
    m.decision_units = pd.Index(labels)
    env = Env(ctx, list(m.decision_units), list(m.choices))
    env.declare(m)
    env.assign(ctx, m)
    names = ['table 2', 'matrix', 'dict']
    for k, name in enumerate(names):
        m.expressions.append(text_of(env, name), group='g' if k == 1 else None)
    i = ctx.choose('debug', [None, 0, 1])
    if i is not None:
        m.debug_id = labels[i]
    if ctx.flag('copied'):
        m = m.copy()
    elif ctx.flag('debugged before'):
        m.debug_id = labels[1]
        m.run_stochastic(clear_scope=False, check_infeasible=False)
        m.debug_id = None if i is None else labels[i]
    if ctx.flag('partial'):
        m.add_partial_utilities(frame(ctx, env.pu, m.decision_units, m.choices))
        start = env.pu
    else:
        start = [[0.0] * len(env.choices) for _ in env.units]
    want = [[start[i][j] + sum(POOL[n][1](env, i, j) for n in names) for j in range(len(env.choices))] for i in range(len(env.units))]
    observe(ctx, m, env, want)
    if i is not None:
        order = [names[0], names[2], names[1]]
        t = m.debug_results
        ctx.check(list(t.index) == [text_of(env, n) for n in order] and list(t.columns) == env.choices, 'the labels of the debugging table: %s' % t)
        for j in range(len(env.choices)):
            u = start[i][j]
            for k, n in enumerate(order):
                u = u + POOL[n][1](env, i, j)
                ctx.check_eq(t.iat[k, j], u, 'the utility after %s in the debugging table' % n)


def h_added(ctx):
    """The sum of two models' expressions has the expressions, groups and symbols of both, and both stay as they are."""
    ch = cheval()
    texts = ['k', 'vr * 2', 'tr.a', '{c0: 1}']
    uses = [({'k'}, set()), ({'vr'}, set()), (set(), {'tr'}), (set(), set())]
    if not hasattr(type(ch.ChoiceModel().expressions), '__add__'):
        ctx.skip()
    sides, models = [], []
    for s in range(2):
        m, side = ch.ChoiceModel(), []
        for k in range(2):
            e = ctx.choose('e%d%d' % (s, k), [[0, 1, 2, 3], [0, 2], [1, 3], [0]][2 * s + k])
            g = ctx.choose('g%d%d' % (s, k), [None, 'g', 0] if s else [None, 'g'])
            m.expressions.append(texts[e], group=g)
            side.append((e, g))
        sides.append(side)
        models.append(m)

    def look(x, want, what):
        every = [(e, g) for side in want for e, g in side]
        ctx.check(x.tolist() == [texts[e] for e, g in every if g is None], '%s: the ungrouped expressions are %s' % (what, x.tolist()))
        for g in {g for _, g in every if g is not None}:
            got = [e.raw for e in x.get_group(g)]
            ctx.check(got == [texts[e] for e, h in every if h == g], '%s: group %s has %s' % (what, g, got))
        ctx.check(sorted(e.raw for e in x) == sorted(texts[e] for e, _ in every), '%s has %s' % (what, [e.raw for e in x]))
        ctx.check(set(x.itersimple()) == {n for e, _ in every for n in uses[e][0]}, '%s uses %s' % (what, set(x.itersimple())))
        ctx.check(set(x.iterchained()) == {n for e, _ in every for n in uses[e][1]}, '%s uses %s' % (what, set(x.iterchained())))
    a, b = models[0].expressions, models[1].expressions
    both = a + b
    look(both, sides, 'the sum')
    look(a, sides[:1], 'the first')
    look(b, sides[1:], 'the second')
    if ctx.flag('extended'):
        both.append('x9', group=ctx.choose('where', [None, 'g']))
        look(a, sides[:1], 'the first, after extending the sum')
        look(b, sides[1:], 'the second, after extending the sum')


def h_long(ctx):
    """Many units."""
    from . import long
    long.expressions(ctx)
