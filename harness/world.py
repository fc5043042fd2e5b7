"""A model together with a plain description of what it should compute; operations are applied to both."""
import copy

from .common import *

# expression texts over the symbols below, and the value of cell (i, j)
FORMS = {
    'k': ('k', lambda e, i, j: e['k']),
    'k*vr': ('k * vr', lambda e, i, j: e['k'] * e['vr'][i]),
    'vr': ('vr', lambda e, i, j: e['vr'][i]),
    'vc': ('vc', lambda e, i, j: e['vc'][j]),
    'tr': ('tr.a', lambda e, i, j: e['tr'][i]),
    'tc': ('tc.w', lambda e, i, j: e['tc'][j]),
    'mx': ('mx', lambda e, i, j: e['mx'][i][j]),
    'mx+tr': ('mx + tr.a * 2', lambda e, i, j: e['mx'][i][j] + e['tr'][i] * 2),
    'lk': ('lk.z.b', lambda e, i, j: e['lk'][i]),
    'k2': ('k * 0.5', lambda e, i, j: e['k'] * 0.5),
}
SYMBOLS = {'lk': ['lk'], 'k2': ['k'], 'k': ['k'], 'k*vr': ['k', 'vr'], 'vr': ['vr'], 'vc': ['vc'], 'tr': ['tr'], 'tc': ['tc'], 'mx': ['mx'],
           'mx+tr': ['mx', 'tr']}
ALL = ['k', 'vr', 'vc', 'tr', 'tc', 'mx']


class World:
    def __init__(self, ctx, units=2, cols=2, tree=None, declare=ALL, assign=True, precision=8):
        self.ctx, self.tree = ctx, tree
        self.m = cheval().ChoiceModel(precision=precision)
        if tree:
            build_tree(self.m, tree)
        else:
            self.m.add_choices(['c%d' % j for j in range(cols)])
        self.choices = list(self.m.choices)
        self.data = {}       # symbol -> values
        self.declared = set()
        self.exprs = []      # (form, column or None, group)
        self.partial = None  # matrix
        self.units = None
        self.symbols = list(declare)
        self.given = []      # objects handed to the model, with what they held
        self.names = {}
        self.set_units(['row%d' % i for i in range(units)])
        for s in declare:
            self.declare(s)
            if assign:
                self.assign(s)

    # -- description ------------------------------------------------------------------------------------------------
    def fork(self, model, mask=None):
        """The description of a copy (of the units in mask)."""
        w = copy.copy(self)
        w.m = model
        w.exprs = list(self.exprs)
        w.declared = set(self.declared)
        keep = [i for i in range(len(self.units)) if mask is None or mask[i]]
        w.units = [self.units[i] for i in keep]
        w.data = {s: [v[i] for i in keep] if s in ('vr', 'tr', 'mx', 'lk') else v for s, v in self.data.items()}
        w.partial = None if self.partial is None else [self.partial[i] for i in keep]
        return w

    def needed(self, group=None):
        return {s for f, _, g in self.exprs for s in SYMBOLS.get(f, []) if group is None or g == group}

    def ready(self, group=None):
        return all(s in self.data for s in self.needed(group))

    def cell(self, f, col, i, j):
        if f == 'dict':
            return self.consts.get(self.choices[j], 0.0)
        return FORMS[f][1](self.data, i, j) if col is None or col == j else 0.0

    def wanted(self, group=None):
        out = []
        for i in range(len(self.units)):
            out.append([])
            for j in range(len(self.choices)):
                x = 0.0 if self.partial is None else self.partial[i][j]
                for f, col, g in self.exprs:
                    if group is None or g == group:
                        x = x + self.cell(f, col, i, j)
                out[-1].append(x)
        return out

    # -- operations -------------------------------------------------------------------------------------------------
    def fresh(self, base):
        """A name not used before on this path (shared between forks)."""
        n = self.names[base] = self.names.get(base, 0) + 1
        return '%s~%d' % (base, n)

    def declare(self, s):
        self.declared.add(s)
        m = self.m
        {'k': lambda: m.declare_number('k'), 'vr': lambda: m.declare_vector('vr', 0), 'vc': lambda: m.declare_vector('vc', 1),
         'tr': lambda: m.declare_table('tr', 0), 'tc': lambda: m.declare_table('tc', 1),
         'mx': lambda: m.declare_matrix('mx'), 'lk': lambda: m.declare_table('lk', 0)}[s]()

    def new_values(self, s):
        n, c, b = len(self.units), len(self.choices), self.fresh(s)
        r = self.ctx.real
        if s == 'k':
            return r(b)
        if s in ('vr', 'tr', 'lk'):
            return [r('%s_%d' % (b, i)) for i in range(n)]
        if s in ('vc', 'tc'):
            return [r('%s_%d' % (b, j)) for j in range(c)]
        return [[r('%s_%d_%d' % (b, i, j)) for j in range(c)] for i in range(n)]

    def as_object(self, s, v):
        ctx, u, c = self.ctx, self.m.decision_units, self.m.choices
        if s == 'k':
            return v
        if s == 'vr':
            return ctx.series(v, u)
        if s == 'vc':
            return ctx.arr(v)
        if s == 'tr':
            return pd.DataFrame({'a': ctx.column(v)}, index=u)
        if s == 'lk':     # row i is linked to the target row that holds its value; the order of the target is another one
            n = len(v)
            zones = pd.DataFrame({'b': ctx.column(v[::-1])}, index=[100 + i for i in range(n)][::-1])
            t = cheval().LinkedDataFrame({'zone': [100 + i for i in range(n)]}, index=u)
            t.link_to(zones, 'z', on_self='zone')
            return t
        if s == 'tc':
            return pd.DataFrame({'w': ctx.column(v)}, index=c)
        return frame(ctx, v, u, c)

    def assign(self, s, values=None):
        v = self.new_values(s) if values is None else values
        obj = self.as_object(s, v)
        self.m[s].assign(obj)
        self.data[s] = v
        if s not in ('k', 'lk'):
            self.given.append((s, obj, v))

    def set_units(self, labels):
        self.units = list(labels)
        self.m.decision_units = pd.Index(labels)
        self.data = {s: v for s, v in self.data.items() if s == 'k'}
        self.partial = None

    def set_choices(self, how):
        """Replace a choice by a new one of the same name, or add one: the others keep their order."""
        m, old, tree = self.m, self.choices, self.tree
        n = len(old)
        moved = None
        if how == 'add':
            m.add_choice(self.fresh('z').replace('~', ''))
            order = list(range(n))
        elif not tree:
            moved = 0
            m.add_choice(old[0])
        else:
            moved = [j for j in range(n) if tree[j] < 0 and j not in tree][0]
            m.add_choice(old[moved][0])
        if moved is not None:
            order = [j for j in range(n) if j != moved] + [moved]
        new = [old[j] for j in order]
        got = list(m.choices)
        self.ctx.check(got[:n] == new, 'the choices are %s, should be %s' % (got[:n], new))
        if tree:
            self.tree = [-1 if tree[j] < 0 else order.index(tree[j]) for j in order] + [-1] * (len(got) - n)
        self.choices = got
        self.exprs = [(f, None if col is None else order.index(col), g) for f, col, g in self.exprs]
        self.partial = None
        for s in ('vc', 'tc', 'mx'):
            if s in self.declared and s in self.data:
                self.assign(s)

    def add_expr(self, f, group=None, col=None):
        if f == 'dict':
            short = ['.'.join(p for p in c if p != '.') if isinstance(c, tuple) else c for c in self.choices]
            pick = {0: 2, len(short) - 1: -1}
            self.consts = {self.choices[j]: x for j, x in pick.items()}
            self.m.expressions.append('{%s}' % ', '.join('%s: %s' % (short[j], x) for j, x in pick.items()), group=group)
            self.exprs.append((f, None, group))
            return
        text = FORMS[f][0]
        if col is not None:
            lab = self.choices[col]
            text += ' @ ' + (lab if not isinstance(lab, tuple) else '.'.join(p for p in lab if p != '.'))
        self.m.expressions.append(text, group=group)
        self.exprs.append((f, col, group))

    def add_partial(self):
        n, c, b = len(self.units), len(self.choices), self.fresh('pu')
        v = [[self.ctx.real('%s_%d_%d' % (b, i, j)) for j in range(c)] for i in range(n)]
        obj = frame(self.ctx, v, self.m.decision_units, self.m.choices)
        self.m.add_partial_utilities(obj)
        self.given.append(('pu', obj, v))
        old = self.partial or [[0.0] * c for _ in range(n)]
        self.partial = [[old[i][j] + v[i][j] for j in range(c)] for i in range(n)]

    def preval(self, group, **kw):
        ctx, m = self.ctx, self.m
        have = any(g == group for _, _, g in self.exprs)
        if not have or not self.ready(group):
            kind, e = outcome(lambda: m.preval(group, **kw))
            ctx.check(kind == 'error', 'a group that is missing or lacks data was evaluated')
            return
        want = self.wanted(group)
        m.preval(group, **kw)
        self.partial = want
        mine = self.needed(group)
        self.exprs = [e for e in self.exprs if e[2] != group]
        if kw.get('cleanup_scope', True):
            for s in mine - self.needed():
                self.data.pop(s, None)
                self.declared.discard(s)
                if s in self.symbols:
                    self.symbols = [x for x in self.symbols if x != s]

    # -- observations -----------------------------------------------------------------------------------------------
    def check_run(self, what, group=None, clear=False):
        """The terms and the labels of a stochastic run are as described."""
        ctx, m = self.ctx, self.m
        if not self.ready(group):
            kind, r = outcome(lambda: m.run_stochastic(group=group, clear_scope=False))
            ctx.check(kind == 'error' and r == 'ModelNotReadyError', '%s: a run without the needed data gave %s' % (what, r if
                      kind == 'error' else 'a result'))
            return
        p, ls, t = m.run_stochastic(group=group, clear_scope=clear)
        if clear:
            self.data, self.declared = {}, set()
        self.check_terms(what, t, self.wanted(group) if not clear else self._last)

    def run_and_clear(self, what):
        if not self.ready():
            return self.check_run(what)
        self._last = self.wanted()
        self.check_run(what, clear=True)
        for s in self.symbols:
            self.declare(s)
            self.assign(s)

    def check_terms(self, what, t, want):
        ctx = self.ctx
        ctx.check(list(t.index) == self.units and list(t.columns) == self.choices, '%s: labels of the result: %s' % (
            what, list(t.index)))
        for i in range(len(self.units)):
            ex = [ctx.exp(x) for x in want[i]]
            for j in range(len(self.choices)):
                w = ex[j]
                if self.tree and j in self.tree:
                    w = w * add(ex[q] for q in range(len(ex)) if self.tree[q] == j)
                ctx.check_eq(t.iat[i, j], w, '%s: utility of unit %d, choice %d' % (what, i, j))

    def check_given(self):
        """Objects handed over are as they were."""
        ctx = self.ctx
        for s, obj, v in self.given:
            if s == 'vr':
                got = list(obj.array) if ctx.symbolic else list(obj)
                ctx.check(obj.shape == (len(v),) and obj.to_numpy().shape == (len(v),), 'the shape of an assigned Series changed')
            elif s == 'vc':
                ctx.check(obj.shape == (len(v),), 'the shape of an assigned array changed')
                got = list(obj)
            elif s in ('tr', 'tc'):
                col = obj[obj.columns[0]]
                ctx.check(obj.shape == (len(v), 1) and col.to_numpy().shape == (len(v),) and col.values.shape == (len(v),),
                          'the shape of an assigned table changed')
                got = list(col.array) if ctx.symbolic else list(col)
            else:
                ctx.check(obj.shape == (len(v), len(v[0])), 'the shape of an assigned matrix changed')
                got, v = [obj.iat[i, j] for i in range(len(v)) for j in range(len(v[0]))], [x for r in v for x in r]
            for a, b in zip(got, v):
                ctx.check_eq(a, b, 'data assigned to %s was modified' % s)
