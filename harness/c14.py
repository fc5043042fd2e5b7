"""C14: the choice tree maps nodes to unique labels and correct parents."""
from .common import *

BOUNDS = {
    'quick': 'every tree of up to 4 levels that is built by up to 5 additions (below any existing node, new or existing names, one a '
             'prefix of another), completed so that no nest has a single child, with runs, copies, partial utilities and refused '
             'additions in between; wide and deep fixed trees; all utilities any real',
    'thorough': 'as quick with up to 6 additions'}
ASSUME = ['handles of replaced nodes are not used any more', 'logsum scales are 1 here (scales: C02)', 'real arithmetic']
NAMES = ['a', 'ab']


def jobs(tier):
    out = []
    n = 6 if tier == 'thorough' else 5
    for k in range(1, 4):
        out.append(('h_build', dict(n=k, prefix=[])))
    # first additions: (parent index, name index)
    for second in ((-1, 0), (-1, 1), (0, 0), (0, 1)):
        for third in range(-1, 2):
            out.append(('h_build', dict(n=n - 1, prefix=[(-1, 0), second, (third, 0)])))
            out.append(('h_build', dict(n=n - 1, prefix=[(-1, 0), second, (third, 1)])))
            if tier == 'thorough' or third != -1:
                out.append(('h_build', dict(n=n, prefix=[(-1, 0), second, (third, 1), (third, 0)])))
    out += [('h_between', dict(op=o)) for o in ('look', 'run', 'partial', 'copy', 'refused', 'discrete')]
    out += [('h_fixed', dict(tree=t)) for t in range(len(FIXED))]
    out += [('h_names', {}), ('h_add_choices', {}), ('h_scales', {})]
    return out


class Spec:
    """The nodes in order of insertion: path -> handle"""

    def __init__(self, m):
        self.m, self.nodes = m, {}

    def add(self, parent, name, call=None):
        path = parent + (name,)
        for p in [p for p in self.nodes if p[:len(path)] == path]:
            del self.nodes[p]
        owner = self.m if not parent else self.nodes[parent]
        self.nodes[path] = owner.add_choice(name) if call is None else call(owner)
        return path

    def children(self, path):
        return [p for p in self.nodes if p[:-1] == path]

    def complete(self):
        """No nest has one child, and there are two choices at the top."""
        for p in list(self.nodes) + [()]:
            k = self.children(p)
            if len(k) == 1 or p == () and not k:
                for name in ('x', 'y', 'z'):
                    if len(self.children(p)) < 2 and p + (name,) not in self.nodes:
                        self.add(p, name)

    def labels(self):
        d = max(len(p) for p in self.nodes)
        if d == 1:
            return [p[0] for p in self.nodes]
        return [p + ('.',) * (d - len(p)) for p in self.nodes]

    def elemental(self):
        return [lab for p, lab in zip(self.nodes, self.labels()) if not self.children(p)]


def check_labels(ctx, s, what=''):
    m = s.m
    ctx.check(list(m.choices) == s.labels(), '%s choices are %s instead of %s' % (what, list(m.choices), s.labels()))
    ctx.check(list(m.elemental_choices) == s.elemental(), '%s elemental choices are %s' % (what, list(m.elemental_choices)))
    ctx.check(m.depth == max(len(p) for p in s.nodes), '%s depth' % what)
    for p, h in s.nodes.items():
        ctx.check(h.name == p[-1] and h.full_name == '.'.join(p) and h.level == len(p) and h.is_parent == bool(s.children(p))
                  and h.n_children == len(s.children(p)), '%s node %s' % (what, p))
        ctx.check((h.parent is None) == (len(p) == 1) and (len(p) == 1 or h.parent is s.nodes[p[:-1]]), '%s parent of %s' % (what, p))


def check_run(ctx, s, what='', m=None):
    m = s.m if m is None else m
    m.decision_units = pd.Index([5])
    labels = s.labels()
    paths = list(s.nodes)
    u = {p: ctx.real('u%s_%d' % (what, k)) for k, p in enumerate(paths)}
    df = frame(ctx, [[u[p] for p in paths]], m.decision_units, m.choices)
    m.add_partial_utilities(df)
    p, ls, t = m.run_stochastic()
    ctx.check(list(t.columns) == labels, 'labels of the terms')
    ctx.check(list(p.columns) == s.elemental(), 'labels of the probabilities: %s' % list(p.columns))
    w = {}
    for path in sorted(paths, key=len, reverse=True):
        kids = s.children(path)
        w[path] = ctx.exp(u[path]) * (add(w[q] for q in kids) if kids else 1.0)
    total = add(w[q] for q in s.children(()))
    for k, path in enumerate(paths):
        ctx.check_eq(t.iat[0, k], w[path], 'term of %s' % (path,))
    ctx.check_eq(ls.iat[0], total, 'top-level term')
    leaves = [q for q in paths if not s.children(q)]
    for k, path in enumerate(leaves):
        x = 0.0
        for d in range(1, len(path) + 1):
            x = x + u[path[:d]]
        ctx.check_eq(p.iat[0, k] * total, ctx.exp(x), 'probability of %s' % (path,))


def additions(ctx, s, n, prefix=()):
    for k in range(n):
        if k < len(prefix):
            i, name = prefix[k]
            name = NAMES[name]
        else:
            paths = list(s.nodes)
            i = ctx.choose('parent%d' % k, [-1] + [q for q in range(len(paths)) if len(paths[q]) < 4])
            name = NAMES[ctx.choose('name%d' % k, [0, 1])]
        paths = list(s.nodes)
        s.add(() if i < 0 else paths[min(i, len(paths) - 1)], name)


def h_build(ctx):
    c = ctx.cfg
    s = Spec(cheval().ChoiceModel())
    additions(ctx, s, c['n'], c['prefix'])
    s.complete()
    check_labels(ctx, s)
    check_run(ctx, s)


def h_between(ctx):
    """Looking at the tree, running and copying between additions does not matter."""
    op = ctx.cfg['op']
    s = Spec(cheval().ChoiceModel())
    additions(ctx, s, 3, [(-1, 0), (0, 1)])
    s.complete()
    m = s.m
    if op == 'look':
        check_labels(ctx, s, 'before')
    elif op == 'run':
        check_run(ctx, s, 'before')
    elif op == 'partial':
        m.decision_units = pd.Index([5])
        n = len(s.nodes)
        m.add_partial_utilities(frame(ctx, [[1.0] * n], m.decision_units, m.choices))
    elif op == 'copy':
        m.copy()
    elif op == 'refused':
        paths = list(s.nodes)
        path = paths[ctx.choose('which', range(len(paths)))]
        owner = m if len(path) == 1 else s.nodes[path[:-1]]
        m.decision_units = pd.Index([5])
        pu = [[ctx.real('pu%d' % i) for i in range(len(paths))]]
        m.add_partial_utilities(frame(ctx, pu, m.decision_units, m.choices))
        for name, scale in ((path[-1], 0.0), (path[-1], 1.5), ('q.r', 1.0), ('_', 1.0)):
            kind, e = outcome(lambda: owner.add_choice(name, logsum_scale=scale))
            ctx.check(kind == 'error', 'the choice %s with logsum scale %s was accepted' % (name, scale))
            check_labels(ctx, s, 'after a refused choice')
        w = {}
        for path in sorted(paths, key=len, reverse=True):
            kids = s.children(path)
            w[path] = ctx.exp(pu[0][paths.index(path)]) * (add(w[q] for q in kids) if kids else 1.0)
        t = m.run_stochastic()[2]
        for k, path in enumerate(paths):
            ctx.check_eq(t.iat[0, k], w[path], 'term of %s after a refused choice' % (path,))
    else:
        m.decision_units = pd.Index([5, 6])
        n = len(s.nodes)
        m.add_partial_utilities(frame(ctx, [[1.0] * n] * 2, m.decision_units, m.choices))
        m.run_discrete(random_seed=1)
    paths = list(s.nodes)
    i = ctx.choose('parent', [-1] + [q for q in range(len(paths)) if len(paths[q]) < 4])
    s.add(() if i < 0 else paths[i], ctx.choose('name', ['a', 'ab', 'w']))
    s.complete()
    check_labels(ctx, s, 'after')
    check_run(ctx, s, 'after')


FIXED = [['A', 'B', 'C', 'D', 'E', 'F'], ['A', 'A.x', 'B', 'A.y', 'B.x', 'C', 'B.y', 'A.z'],
         ['A', 'A.A', 'A.A.A', 'A.A.B', 'A.B', 'B'], ['A', 'B', 'B.C', 'B.C.D', 'B.C.E', 'B.F', 'A.C', 'A.F', 'A.C.G', 'A.C.H'],
         ['n', 'nn', 'n.n', 'n.nn', 'nn.n', 'nn.nn', 'n.n.n', 'n.n.nn', 'nn.n.n', 'nn.n.nn'],
         ['A', 'B', 'A.x', 'A.y', 'A.x.p', 'A.x.q', 'A.x.p.1', 'A.x.p.2', 'B.x', 'B.y'],
         ['z', 'a', 'm', 'a.z', 'a.b', 'z.b', 'z.a', 'z.c']]


def h_fixed(ctx):
    s = Spec(cheval().ChoiceModel())
    for name in FIXED[ctx.cfg['tree']]:
        p = tuple(name.split('.'))
        s.add(p[:-1], p[-1])
    check_labels(ctx, s)
    check_run(ctx, s)
    if ctx.flag('copy'):
        c = s.m.copy()
        ctx.check(list(c.choices) == s.labels() and list(c.elemental_choices) == s.elemental(), 'labels of a copy')


def h_names(ctx):
    """Names that would make labels ambiguous are refused."""
    m = cheval().ChoiceModel()
    m.add_choice('a')
    nest = m.add_choice('b')
    nest.add_choice('c')
    nest.add_choice('d')
    owner = nest if ctx.flag('nested') else m
    bad = ctx.choose('name', ['x.y', '.', '_', 'a.', '.a'])
    before = list(m.choices)
    kind, e = outcome(lambda: owner.add_choice(bad))
    ctx.check(kind == 'error', 'the name %r was accepted' % bad)
    ctx.check(list(m.choices) == before, 'a refused name changed the choices')
    good = ctx.choose('good', ['x_y', '_a', 'a b', '1'])
    owner.add_choice(good)
    lab = ('b', good) if owner is nest else (good, '.')
    ctx.check(list(m.choices) == before + [lab], 'choices after adding %r' % good)


def h_add_choices(ctx):
    """Adding several at once is like adding one after the other."""
    names = ctx.choose('names', [['a', 'b', 'c'], ['b', 'a'], ['a', 'b', 'a'], ['c', 'b', 'b', 'd']])
    kind = ctx.choose('as', ['list', 'tuple', 'iterator', 'index', 'dict'])
    arg = {'list': lambda: names, 'tuple': lambda: tuple(names), 'iterator': lambda: iter(names), 'index': lambda: pd.Index(names),
           'dict': lambda: names}[kind]()
    scales = None if ctx.flag('no scales') else [0.25 * (k + 1) for k in range(len(names))]
    how = 'list' if scales is None else ctx.choose('scales', ['list', 'tuple', 'iterator', 'generator', 'array', 'series'])
    given = {'list': lambda: scales, 'tuple': lambda: tuple(scales), 'iterator': lambda: iter(scales), 'generator': lambda: (x for x in scales),
             'array': lambda: np.array(scales), 'series': lambda: pd.Series(scales)}[how]()
    s = Spec(cheval().ChoiceModel())
    if ctx.flag('some before'):
        s.add((), 'b')
        s.add(('b',), 'x')
        s.add(('b',), 'y')
    r = s.m.add_choices(arg, given)
    for k, n in enumerate(names):
        s.add((), n, lambda owner: r[n])
    check_labels(ctx, s)
    last = {n: k for k, n in enumerate(names)}
    for n, k in last.items():
        ctx.check(r[n].logsum_scale == (1.0 if scales is None else scales[k]), 'logsum scale of %s' % n)
    check_run(ctx, s)


def h_scales(ctx):
    """Logsum scales outside (0, 1] are refused; accepted ones belong to their node."""
    m = cheval().ChoiceModel()
    a = m.add_choice('a')
    v = ctx.choose('scale', [0.0, -0.5, 1.0000001, 1.0, 0.5, 1e-9, float('nan'), 2])
    ok = 0 < v <= 1
    how = ctx.choose('how', ['add', 'nested', 'set', 'batch'])

    def f():
        if how == 'add':
            return m.add_choice('b', logsum_scale=v)
        if how == 'nested':
            return a.add_choice('b', logsum_scale=v)
        if how == 'set':
            a.logsum_scale = v
            return a
        return m.add_choices(['b'], [v])['b']
    kind, r = outcome(f)
    ctx.check((kind == 'ok') == ok, 'the logsum scale %s was %s' % (v, 'accepted' if kind == 'ok' else 'refused'))
    if ok:
        ctx.check(r.logsum_scale == v, 'the logsum scale is %s instead of %s' % (r.logsum_scale, v))
    else:
        ctx.check(a.logsum_scale == 1.0, 'a refused logsum scale was kept')
