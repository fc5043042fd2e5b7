"""C10: vectors and tables are aligned by label or refused."""
from .common import *

BOUNDS = {
    'quick': 'models of 2..3 units and 2..3 choices and a nested model; vectors and tables of either orientation whose labels are any '
             'integers (units) or any arrangement, subset or renaming of the choices, arrays of any near length and shape; 10 column '
             'types; attributes over links and aggregations from tables of both orientations; 1100 units with 6 kinds of faulty labels; every value any real',
    'thorough': 'as quick with 4 units'}
ASSUME = ['unit labels are unique', 'the terms of run_stochastic show the utilities (C01, C02)']
TREE = [-1, -1, 0, 0]


def jobs(tier):
    out = []
    for n in (2, 3) + ((4,) if tier == 'thorough' else ()):
        for kind in ('series', 'table', 'linked'):
            for d in (-1, 0, 1):
                out.append(('h_units', dict(n=n, kind=kind, length=n + d)))
    for tree in (None, TREE):
        for kind in ('series', 'table', 'linked'):
            out.append(('h_choices', dict(kind=kind, tree=tree)))
    out += [('h_arrays', {}), ('h_mandatory', {}), ('h_links', {}), ('h_types', {}), ('h_through_links', dict(tree=None)),
            ('h_through_links', dict(tree=TREE)), ('h_later', {})]
    out += [('h_long', {})]
    return out


def model(ctx, n, tree=None, cols=2):
    m = cheval().ChoiceModel()
    if tree:
        build_tree(m, tree)
    else:
        m.add_choices(['c%d' % j for j in range(cols)])
    m.decision_units = pd.Index([10 * (i + 1) for i in range(n)])
    return m


def terms_equal(ctx, m, want, what, tree=None):
    p, ls, t = m.run_stochastic()
    n, c = t.shape
    for i in range(n):
        ex = [ctx.exp(want(i, j)) for j in range(c)]
        for j in range(c):
            w = ex[j]
            if tree and j in tree:
                w = w * add(ex[q] for q in range(c) if tree[q] == j)
            ctx.check_eq(t.iat[i, j], w, what)


def assign(ctx, m, kind, orientation, values, index):
    """Declares d, assigns; returns the outcome."""
    if kind == 'series':
        m.declare_vector('d', orientation)
        m.expressions.append('d')
        return outcome(lambda: m['d'].assign(ctx.series(values, index)))
    m.declare_table('d', orientation)
    m.expressions.append('d.q')
    cls = pd.DataFrame if kind == 'table' else cheval().LinkedDataFrame
    df = cls({'p': np.zeros(len(values))}, index=index)
    df['q'] = ctx.column(values)
    return outcome(lambda: m['d'].assign(df))


def h_units(ctx):
    c = ctx.cfg
    m = model(ctx, c['n'])
    labels = [ctx.key('label%d' % i, 0, 100) for i in range(c['length'])]
    values = [ctx.real('v%d' % i) for i in range(c['length'])]
    index = pd.Index(ctx.keys(labels))
    same = c['length'] == c['n'] and all(bool(labels[i] == 10 * (i + 1)) for i in range(c['n']))
    kind, r = assign(ctx, m, c['kind'], 0, values, index)
    if not same:
        ctx.check(kind == 'error', 'data with other labels than the units was accepted')
        return
    ctx.check(kind == 'ok', 'data with the labels of the units was refused: %s' % (r,))
    terms_equal(ctx, m, lambda i, j: values[i], 'utility of a unit')


def h_choices(ctx):
    c = ctx.cfg
    m = model(ctx, 2, c['tree'], 3)
    n = len(m.choices)
    how = ctx.choose('labels', ['order', 'subset', 'more', 'renamed', 'repeated', 'units'])
    labels = list(m.choices)
    if how == 'order':
        labels = ctx.perm('order', labels)
    elif how == 'subset':
        labels = labels[:-1]
    elif how == 'more':
        labels = labels + [labels[0]]
    elif how == 'renamed':
        k = ctx.choose('which', range(n))
        labels[k] = ('z', '.') if c['tree'] else 'z'
    elif how == 'repeated':
        k = ctx.choose('which', range(1, n))
        labels[k] = labels[0]
    elif how == 'units':
        labels = list(m.decision_units)
    values = [ctx.real('v%d' % i) for i in range(len(labels))]
    index = pd.MultiIndex.from_tuples(labels) if c['tree'] and how != 'units' else pd.Index(labels)
    kind, r = assign(ctx, m, c['kind'], 1, values, index)
    if labels != list(m.choices):
        ctx.check(kind == 'error', 'data labelled %s was accepted' % labels)
        return
    ctx.check(kind == 'ok', 'data with the labels of the choices was refused: %s' % (r,))
    terms_equal(ctx, m, lambda i, j: values[j], 'utility of a choice', c['tree'])


def h_arrays(ctx):
    n, cols = ctx.choose('size', [(2, 3), (3, 2), (3, 3), (2, 2)])
    m = model(ctx, n, None, cols)
    o = ctx.choose('orientation', [0, 1])
    right = (n, cols)[o]
    shape = ctx.choose('shape', ['right', 'short', 'long', 'other', 'column', 'row', 'table', 'list', 'scalar', 'empty'])
    size = {'short': right - 1, 'long': right + 1, 'other': (n, cols)[1 - o], 'empty': 0}.get(shape, right)
    values = [ctx.real('v%d' % i) for i in range(size)]
    a = ctx.arr(values)
    if shape == 'column':
        a = a.reshape(-1, 1)
    elif shape == 'row':
        a = a.reshape(1, -1)
    elif shape == 'table':
        a = ctx.mat([values, values])
    elif shape == 'list':
        a = list(values)
    elif shape == 'scalar':
        a = 1.0
    m.declare_vector('d', o)
    m.expressions.append('d')
    kind, r = outcome(lambda: m['d'].assign(a))
    ok = shape in ('right',) or shape in ('short', 'long', 'other', 'empty') and size == right
    if not ok:
        ctx.check(kind == 'error', 'an array of the wrong form (%s) was accepted' % shape)
        return
    ctx.check(kind == 'ok', 'an array of the right length was refused: %s' % (r,))
    terms_equal(ctx, m, lambda i, j: values[(i, j)[o]], 'utility')


def h_mandatory(ctx):
    m = model(ctx, 2)
    o = ctx.choose('orientation', [0, 1])
    need = set(ctx.choose('mandatory', [(), ('a',), ('a', 'b'), ('b', 'c'), ('size',), ('mean', 'a'), ('index',), ('A',), ('a b',), (0,)]))
    have = ctx.choose('columns', [('a',), ('b', 'a'), ('a', 'b', 'c'), ('c', 'b'), ('c', 'a'), ('a', 'size'), ('ab', 'mean'),
                                  ('mean', 'a'), ('A', 'index'), ('a b', 0)])
    cls = pd.DataFrame if ctx.flag('plain') else cheval().LinkedDataFrame
    df = cls({k: [1.0, 2.0] for k in have}, index=m.choices if o else m.decision_units)
    m.declare_table('d', o, mandatory_attributes=need)
    kind, r = outcome(lambda: m['d'].assign(df))
    if need <= set(have):
        ctx.check(kind == 'ok', 'columns %s were refused, mandatory: %s' % (have, need))
    else:
        ctx.check(kind == 'error', 'columns %s were accepted, mandatory: %s' % (have, need))
    other, _ = outcome(lambda: m['d'].assign([1, 2]))
    ctx.check(other == 'error', 'a list was accepted as a table')


def h_links(ctx):
    m = model(ctx, 2)
    o = ctx.choose('orientation', [0, 1])
    allow = ctx.choose('allow_links', [True, False])
    linked = ctx.choose('linked', [True, False])
    cls = cheval().LinkedDataFrame if linked else pd.DataFrame
    v = [ctx.real('v0'), ctx.real('v1')]
    index = m.choices if o else m.decision_units
    df = cls({'z': [1.0, 2.0]}, index=index)
    df['q'] = ctx.column(v)
    m.declare_table('d', o, allow_links=allow)
    if ctx.flag('mandatory'):
        m.declare_table('d', o, {'q'}, allow)
    kind, r = outcome(lambda: m['d'].assign(df))
    if linked and not allow:
        ctx.check(kind == 'error', 'a linked frame was accepted by a table declared without links')
        return
    ctx.check(kind == 'ok', 'a frame was refused: %s' % (r,))
    m.expressions.append('d.q')
    terms_equal(ctx, m, lambda i, j: v[(i, j)[o]], 'utility')


TYPES = {   # values of three rows, wanted numbers
    'int': (lambda: pd.Series([3, -1, 2]), [3, -1, 2]),
    'int8': (lambda: pd.Series([3, -1, 2], dtype='int8'), [3, -1, 2]),
    'uint': (lambda: pd.Series([3, 200, 2], dtype='uint8') , [3, 200, 2]),
    'float32': (lambda: pd.Series([0.5, -1.25, 2], dtype='float32'), [0.5, -1.25, 2]),
    'bool': (lambda: pd.Series([True, False, True]), [1, 0, 1]),
    'Int64': (lambda: pd.Series([3, -1, 2], dtype='Int64'), [3, -1, 2]),
    'category': (lambda: pd.Series(pd.Categorical([3, -1, 3])), [3, -1, 3]),
    'category unsorted': (lambda: pd.Series(pd.Categorical([0.5, 2.0, 0.5], categories=[2.0, 7.0, 0.5])), [0.5, 2.0, 0.5]),
    'sliced': (lambda: pd.Series([9, 3, 9, -1, 9, 2])[1::2], [3, -1, 2]),
    'reversed': (lambda: pd.Series([2.0, -1.0, 3.0])[::-1], [3, -1, 2]),
}


def h_types(ctx):
    """Values of any column type are the ones used, from Series and from tables."""
    o = ctx.choose('orientation', [0, 1])
    m = model(ctx, 3, None, 3)
    name = ctx.choose('type', sorted(TYPES))
    make, want = TYPES[name]
    s = make()
    s.index = m.choices if o else m.decision_units
    k = ctx.real('k')
    m.declare_number('k')
    m['k'].assign(k)
    how = ctx.choose('as', ['vector', 'table', 'array'])
    if how == 'vector':
        m.declare_vector('d', o)
        m['d'].assign(s)
        m.expressions.append('k * d * 0.125')
    elif how == 'array':
        m.declare_vector('d', o)
        m['d'].assign(np.asarray(s.astype(float)))
        m.expressions.append('k * d * 0.125')
    else:
        m.declare_table('d', o)
        m['d'].assign(pd.DataFrame({'z': np.zeros(3), 'q': s}, index=s.index))
        m.expressions.append('k * d.q * 0.125')
    terms_equal(ctx, m, lambda i, j: k * want[(i, j)[o]] * 0.125, 'utility from values of type %s' % name)


def h_through_links(ctx):
    """Attributes reached through links and aggregations belong to the unit or choice of the row."""
    c = ctx.cfg
    ch = cheval()
    o = ctx.choose('orientation', [0, 1])
    m = model(ctx, 3, c['tree'], 3)
    index = m.choices if o else m.decision_units
    n = len(index)
    key = ctx.perm('zones', [1, 2, 3, 4][:n])
    b = [ctx.real('b%d' % i) for i in range(4)]
    zones = ch.LinkedDataFrame({'district': [7, 8, 7, 8]}, index=[1, 2, 3, 4])
    zones['b'] = ctx.column(b)
    dist = ch.LinkedDataFrame({'d': [0.5, -1.0]}, index=[8, 7])
    zones.link_to(dist, 'dist', on_self='district')
    stops = ch.LinkedDataFrame({'zone': [2, 4, 2, 1, 4, 4], 'n': [1.0, 2.0, 4.0, 8.0, 16.0, 32.0]})
    t = ch.LinkedDataFrame({'zone': key}, index=index)
    t.link_to(zones, 'z', on_self='zone')
    if ctx.flag('agg on table'):
        t.link_to(stops, 'stops', on_self='zone', on_other='zone')
        agg = 'd.stops.sum(n * 2)'
    else:
        zones.link_to(stops, 'stops', on_other='zone')
        agg = 'd.z.stops.sum(n * 2)'
    m.declare_table('d', o)
    m['d'].assign(t)
    text, f = ctx.choose('expression', [
        ('d.z.b', lambda z: b[z - 1]), ('d.z.dist.d + d.z.b', lambda z: (-1.0, 0.5)[(z - 1) % 2] + b[z - 1]),
        (agg + ' * 0.0625', lambda z: {1: 16.0, 2: 10.0, 3: None, 4: 100.0}[z]),
        ('d.zone * 0.25 + d.z.b', lambda z: z * 0.25 + b[z - 1])])
    want = [f(z) for z in key]
    m.expressions.append(text)
    if any(w is None for w in want):      # no stops: the fill is C18's business
        fill = outcome(lambda: m.run_stochastic())
        return ctx.check(fill[0] == 'ok' or fill[1] == 'UtilityBoundsError', 'a run raised %s' % (fill[1],))
    if 'sum' in text:
        want = [w * 0.0625 for w in want]
    terms_equal(ctx, m, lambda i, j: want[(i, j)[o]], 'utility from %s' % text, c['tree'])


def h_later(ctx):
    """Data is checked against the units in force when it is assigned."""
    m = model(ctx, 2)
    o = ctx.choose('kind', ['vector', 'table'])
    v = [ctx.real('v0'), ctx.real('v1')]
    old = m.decision_units
    if o == 'vector':
        m.declare_vector('d', 0)
        m.expressions.append('d')
        obj = ctx.series(v, old)
    else:
        m.declare_table('d', 0)
        m.expressions.append('d.q')
        obj = pd.DataFrame({'q': ctx.column(v)}, index=old)
    if ctx.flag('assigned before'):
        m['d'].assign(obj)
    how = ctx.choose('new units', ['same', 'reversed', 'other', 'more'])
    new = {'same': [10, 20], 'reversed': [20, 10], 'other': [10, 30], 'more': [10, 20, 30]}[how]
    m.decision_units = new
    kind, r = outcome(lambda: m['d'].assign(obj))
    ctx.check((kind == 'ok') == (how == 'same'), 'data for other units: %s' % how)
    if kind == 'ok':
        terms_equal(ctx, m, lambda i, j: v[i], 'utility')
    else:
        kind, r = outcome(lambda: m.run_stochastic())
        ctx.check(kind == 'error' and r == 'ModelNotReadyError', 'data of the old units was used')


def h_long(ctx):
    """Many units."""
    from . import long
    long.vectors(ctx)
