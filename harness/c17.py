"""C17: link lookups return, for each row, the matching row or the fill value."""
from decimal import Decimal

from .common import *
from .links import *

NUMBA = False
BOUNDS = {
    'quick': 'links between frames of 0..3 rows whose keys are any integers or null, held in the index, a column or a level of a larger '
             'index, by name or by number, on either side; keys of two levels (2 rows); chains of up to 3 links; 9 column types; class, '
             'frame and column fills; index pre-computed or not; attribute values any real; two changes of columns or keys after linking; copies whose keys change; 300 rows of which a few are symbolic',
    'thorough': 'as quick with 4 rows, and two-level keys with 3 rows'}
ASSUME = ['hash tables of pandas treat the symbolic keys as they treat numbers (replayed with integer keys on the real package)']


def jobs(tier):
    big = tier == 'thorough'
    out = []
    n = 4 if big else 3
    for f in FORMS:
        for g in FORMS:
            both = f.startswith('level') and g.startswith('level')
            if big or not both or f == g:
                out.append(('h_keys', dict(self=f, other=g, rows=2, targets=n - 1 if g.startswith('level') else n, nulls=1)))
    out.append(('h_keys', dict(self='column', other='index', rows=n, targets=n, nulls=2)))
    out.append(('h_keys', dict(self='index', other='index', rows=n, targets=n, nulls=2)))
    out.append(('h_keys', dict(self='column', other='column', rows=n, targets=n, nulls=1)))
    for f in ('columns', 'index', 'levels', 'mixed'):
        out.append(('h_two_levels', dict(form=f, rows=2, targets=3 if big else 2, full=big)))
    out += [('h_chain', dict(length=2, kind=k, full=True)) for k in ('all linked', 'plain end')]
    out += [('h_chain', dict(length=3, kind=k, full=big)) for k in ('all linked', 'plain end')]
    out += [('h_types', dict(type=t)) for t in sorted(TYPES)]
    out += [('h_empty', {}), ('h_names', {}), ('h_self', {}), ('h_text_keys', {}), ('h_links_coexist', {}), ('h_repeated', {}), ('h_nodes', {})]
    out += [('h_changes', dict(first=k)) for k in range(len(CHANGES))]
    out += [('h_copies', dict(precompute=p, by=k)) for p in (True, False) for k in ('column', 'index')]
    out += [('h_long', dict(order=o, kind=k, n=n)) for o in ('shuffled', 'sorted', 'reversed') for k in LONG
            for n in ((300,) if not big else (300, 5000))]
    return out


def h_keys(ctx):
    c = ctx.cfg
    keys = some_keys(ctx, 'k', c['rows'], c['nulls'])
    others = some_keys(ctx, 'o', c['targets'], 1)
    ctx.distinct([o for o in others if o is not None])
    v = [ctx.real('v%d' % i) for i in range(c['targets'])]
    linked = ctx.flag('linked target')
    a, ka = key_side(ctx, c['self'], keys, extra={'z': np.zeros(len(keys))})
    b, kb = key_side(ctx, c['other'], others, cls=ldf() if linked else pd.DataFrame)
    b['v'] = ctx.column(v)
    pre = ctx.choose('precompute', ['now', 'first use', 'compute_indexers'])
    need = connect(a, b, 'ln', ka, kb, pre == 'now')
    ctx.check(not bool(need.value if hasattr(need, 'value') else need), 'a link to distinct keys is said to need aggregation')
    if pre == 'compute_indexers':
        a.compute_indexers()
    fill = float('nan')
    if linked and ctx.flag('column fill'):
        fill = ctx.real('fill')
        b.set_column_fill('v', fill)
    s = a.ln.v if ctx.flag('attributes') else a['ln']['v']
    want = [v[h[0]] if h else fill for h in match(keys, others)]
    check_series(ctx, s, a.index, want, 'lookup')
    check_series(ctx, a.ln.v, a.index, want, 'second lookup')
    check_series(ctx, pd.Series(b['v']), b.index, v, 'the target after lookups')


def h_two_levels(ctx):
    c = ctx.cfg

    def pairs(p, n, nulls):
        out = []
        for i in range(n):
            x = None if nulls and i == 0 and ctx.flag('%s null' % p) else ctx.key('%s%da' % (p, i), 0, 50)
            out.append((x, ctx.key('%s%db' % (p, i), 0, 50)))
        return out
    keys, others = pairs('k', c['rows'], True), pairs('o', c['targets'], c['form'] != 'index')
    for i in range(len(others)):
        for j in range(i):
            if others[i][0] is not None and others[j][0] is not None:
                ctx.assume((others[i][0] != others[j][0]) | (others[i][1] != others[j][1]))
    v = [ctx.real('v%d' % i) for i in range(len(others))]
    L = ldf()

    def columns(ks):
        df = L({'z': np.zeros(len(ks))})
        df['p'] = ctx.keys([k[0] for k in ks])
        df['q'] = ctx.keys([k[1] for k in ks])
        return df

    def index(ks, more=False):
        arrays, names = [ctx.keys([k[0] for k in ks]), ctx.keys([k[1] for k in ks])], ['p', 'q']
        if more:
            arrays, names = [list(range(len(ks))), arrays[1], arrays[0]], ['n', 'q', 'p']
        return L({'z': np.zeros(len(ks))}, index=pd.MultiIndex.from_arrays(arrays, names=names))
    swap = ctx.flag('names swapped')
    pre = ctx.flag('precompute') if c['full'] else not swap
    order = ['q', 'p'] if swap else ['p', 'q']
    if c['form'] == 'columns':
        a, b, ka, kb = columns(keys), columns(others), {'on': order}, {'on': order}
    elif c['form'] == 'index':
        a, b, ka, kb = index(keys), index(others), {}, {}
    elif c['form'] == 'levels':
        a, b, ka, kb = index(keys, True), index(others), {'levels': order}, {'levels': order}
    else:
        a, b, ka, kb = columns(keys), index(others), {'on': ['p', 'q']}, {}
    b['v'] = ctx.column(v)
    connect(a, b, 'ln', ka, kb, pre)
    want = [v[h[0]] if h else float('nan') for h in match(keys, others)]
    check_series(ctx, a.ln.v, a.index, want, 'lookup by two levels')


def h_chain(ctx):
    c = ctx.cfg
    n = c['length']
    L = ldf()
    sizes = [2, 2, 2, 2][:n + 1] if n == 2 or c['full'] else [2, 2, 1, 2]
    rows = [some_keys(ctx, 'k%d_' % d, sizes[d], 1 if d == 0 else 0) for d in range(n)]       # keys towards the next frame
    ids = [None] + [some_keys(ctx, 'id%d_' % d, sizes[d]) for d in range(1, n + 1)]
    for d in range(1, n + 1):
        ctx.distinct(ids[d])
    v = [[ctx.real('v%d_%d' % (d, i)) for i in range(sizes[d])] for d in range(n + 1)]
    frames = []
    for d in range(n + 1):
        cls = pd.DataFrame if d == n and c['kind'] == 'plain end' else L
        df = cls({'z': np.zeros(sizes[d])}, index=pd.Index(ctx.keys(ids[d]) if d else ['x', 'y']))
        df['v'] = ctx.column(v[d])
        if d < n:
            df['to'] = ctx.keys(rows[d])
        frames.append(df)
    order = range(n) if ctx.flag('links from the left') else range(n)[::-1]
    for d in order:
        frames[d].link_to(frames[d + 1], 'ln%d' % d, on_self='to', precompute=ctx.choose('precompute', [True, False]) if d == 0 else True)
    fill = [float('nan')] * (n + 1)
    if c['kind'] != 'plain end' and ctx.flag('fill at the end'):
        fill[n] = ctx.real('fill')
        frames[n].set_column_fill('v', fill[n])
    at = [[i] for i in range(sizes[0])]
    for d in range(n):
        hits = match(rows[d], ids[d + 1])
        at = [hits[i[0]] if i else [] for i in at]
        node = frames[0]
        for q in range(d + 1):
            node = getattr(node, 'ln%d' % q)
        want = [v[d + 1][i[0]] if i else fill[d + 1] for i in at]
        check_series(ctx, node.v, frames[0].index, want, 'lookup over %d links' % (d + 1))


NAT = np.datetime64('nat')
TYPES = {   # values, default fill, another fill
    'int': (lambda: np.array([5, 6, 7]), 0, -3), 'int8': (lambda: np.array([5, 6, 7], 'int8'), 0, 300),
    'uint': (lambda: np.array([5, 6, 7], 'uint8'), 0, -1), 'int fraction': (lambda: np.array([5, 6, 7]), 0, 0.5),
    'float': (lambda: np.array([.5, .6, .7]), float('nan'), 0.25), 'float32': (lambda: np.array([.5, .25, .75], 'f4'), float('nan'), 2.5),
    'bool': (lambda: np.array([True, False, True]), False, True), 'text': (lambda: np.array(['a', 'bb', 'ccc'], object), '', 'missing'),
    'category': (lambda: pd.Categorical(['x', 'y', 'x']), float('nan'), 'y'),
    'time': (lambda: np.array(['2020-01-01', '2021-01-01', '2022-01-01'], 'M8[ns]'), NAT, np.datetime64('2030-01-01')),
    'mixed': (lambda: np.array([1.5, 'a', True], object), '', None), 'object': (lambda: np.array([Decimal(2), Decimal(3), Decimal(0)], object), None, 'nothing'),
}


def h_types(ctx):
    """Values and fills of every type; all patterns of matches."""
    make, default, other_fill = TYPES[ctx.cfg['type']]
    col = make()
    vals = [pd.Series(col).iat[i] for i in range(3)]
    keys = some_keys(ctx, 'k', 2, 1, hi=6)
    linked = ctx.flag('linked target')
    L = ldf()
    b = (L if linked else pd.DataFrame)({'v': pd.Series(col), 'key': ctx.keys([4, 2, 3])})
    a = L({'z': [1.0, 2.0]}, index=['x', 'y'])
    a['key'] = ctx.keys(keys)
    a.link_to(b, 'ln', on='key', precompute=ctx.flag('precompute'))
    fill = default
    if linked and ctx.flag('column fill'):
        fill = other_fill
        b.set_column_fill('v', fill)
    want = [vals[h[0]] if h else fill for h in match(keys, [4, 2, 3])]
    s = a.ln.v
    check_series(ctx, s, a.index, want, 'lookup of %s' % ctx.cfg['type'])
    check_series(ctx, pd.Series(b['v']), b.index, vals, 'the target')


def h_empty(ctx):
    """Frames without rows, on either side and in the middle of a chain."""
    L = ldf()
    where = ctx.choose('empty', ['target', 'self', 'middle', 'end'])
    pre = ctx.flag('precompute')
    n = {'self': 0}.get(where, 2)
    a = L({'z': np.zeros(n)}, index=['x', 'y'][:n])
    a['key'] = ctx.keys(some_keys(ctx, 'k', n))
    m = 0 if where in ('target', 'middle') else 2
    b = (L if where in ('middle', 'end') or ctx.flag('linked') else pd.DataFrame)({'w': np.zeros(m)},
                                                                              index=pd.Index(ctx.keys([1, 2][:m])))
    v = [ctx.real('v%d' % i) for i in range(m)]
    b['v'] = ctx.column(v) if m else np.zeros(0)
    b['i'] = np.array([5, 6][:m], dtype='int64')
    nan = float('nan')
    need = a.link_to(b, 'ln', on_self='key', precompute=pre)
    keys = list(a['key'])
    if where in ('middle', 'end'):
        e = 0 if where == 'end' else 2
        b['to'] = ctx.keys(some_keys(ctx, 't', m))
        cc = pd.DataFrame({'q': np.arange(e) + 0.5, 'i': np.arange(e) + 7}, index=pd.Index(ctx.keys([1, 2][:e])))
        b.link_to(cc, 'on', on_self='to', precompute=pre)
        check_series(ctx, a.ln.on.q, a.index, [nan] * n, 'lookup over an empty frame')
        check_series(ctx, a.ln.on.i, a.index, [0] * n, 'lookup over an empty frame')
    hits = match(keys, [1, 2][:m])
    check_series(ctx, a.ln.v, a.index, [v[h[0]] if h else nan for h in hits], 'lookup')
    check_series(ctx, a.ln.i, a.index, [5 + h[0] if h else 0 for h in hits], 'lookup of integers')
    ctx.check(not need.value, 'no aggregation is needed')


def h_names(ctx):
    """Names of links and columns: not identifiers, equal to columns elsewhere, links before columns."""
    L = ldf()
    keys = some_keys(ctx, 'k', 2)
    v, w = [ctx.real('v0'), ctx.real('v1')], [ctx.real('w0'), ctx.real('w1')]
    a = L({'key': ctx.keys(keys), 'v': [9.0, 9.0]})
    b = L({'other': [0, 0]}, index=pd.Index(ctx.keys([1, 2])))
    b['v'] = ctx.column(v)
    b['two words'] = ctx.column(w)
    name = ctx.choose('name', ['ln', 'two words', 'v1', 'key2', 'class'])
    a.link_to(b, name, on_self='key')
    hits = match(keys, [1, 2])
    nan = float('nan')
    check_series(ctx, a[name]['v'], a.index, [v[h[0]] if h else nan for h in hits], 'lookup')
    check_series(ctx, a[name]['two words'], a.index, [w[h[0]] if h else nan for h in hits], 'lookup')
    if name.isidentifier() and name != 'class':
        check_series(ctx, getattr(a, name).v, a.index, [v[h[0]] if h else nan for h in hits], 'lookup')
    check_series(ctx, pd.Series(a['v']), a.index, [9.0, 9.0], 'the column of the same name')
    kind, e = outcome(lambda: a[name]['nope'])
    ctx.check(kind == 'error' and e == 'KeyError', 'a missing attribute gave %s' % (e,))
    kind, e = outcome(lambda: getattr(a[name], 'nope'))
    ctx.check(kind == 'error' and e == 'AttributeError', 'a missing attribute gave %s' % (e,))


def h_self(ctx):
    """A frame linked to itself and back."""
    L = ldf()
    parent = [ctx.choose('parent%d' % i, [10, 20, 30, 99, None]) for i in range(3)]
    v = [ctx.real('v%d' % i) for i in range(3)]
    a = L({'parent': ctx.keys(parent)}, index=pd.Index(ctx.keys([10, 20, 30])))
    a['v'] = ctx.column(v)
    a.link_to(a, 'up', on_self='parent')
    nan = float('nan')
    up = [{10: 0, 20: 1, 30: 2}.get(p) for p in parent]
    check_series(ctx, a.up.v, a.index, [nan if u is None else v[u] for u in up], 'lookup in the same frame')
    two = [None if u is None else up[u] for u in up]
    check_series(ctx, a.up.up.v, a.index, [nan if u is None else v[u] for u in two], 'lookup over two links')


def h_text_keys(ctx):
    """Keys of other types."""
    L = ldf()
    kind = ctx.choose('keys', ['text', 'float', 'category', 'time', 'mixed ints', 'bool'])
    pool = {'text': ['a', 'A', 'ab', ''], 'float': [0.5, 1.0, -0.0, 2.0], 'category': ['u', 'v', 'w', 'x'],
            'time': list(pd.to_datetime(['2020-01-01', '2020-01-02', '2021-01-01', '2022-01-01'])), 'mixed ints': [1, 2, 3, 4],
            'bool': [True, False, True, False]}[kind]
    targets = ctx.perm('targets', range(3)) if kind != 'bool' else ctx.perm('targets', range(2))
    rows = [ctx.choose('row%d' % i, [0, 1, 2, 3, None]) for i in range(2)]
    v = [ctx.real('v%d' % i) for i in range(len(targets))]
    b = L({'key': [pool[t] for t in targets]})
    b['v'] = ctx.column(v)
    ks = [None if r is None else pool[r] for r in rows]
    a = L({'key': pd.Series(ks, dtype='object' if kind in ('text', 'bool') else None)})
    if kind == 'category':
        a['key'] = pd.Categorical(ks, categories=['x', 'w', 'v', 'u'])
        if ctx.flag('both categories'):
            b['key'] = pd.Categorical(list(b['key']))
    if kind == 'mixed ints':
        a['key'] = a['key'].astype('Int64') if ctx.flag('nullable') else a['key'].astype('float32')
    a.link_to(b, 'ln', on='key', precompute=ctx.flag('precompute'))
    tk = [pool[t] for t in targets]
    want = [next((v[j] for j in range(len(tk)) if k is not None and tk[j] == k), float('nan')) for k in ks]
    check_series(ctx, a.ln.v, a.index, want, 'lookup by %s keys' % kind)


def h_links_coexist(ctx):
    """Several links of one frame do not disturb each other; a link made again under the same name replaces the old one."""
    L = ldf()
    k1, k2 = some_keys(ctx, 'k', 2), some_keys(ctx, 'q', 2)
    v, w = [ctx.real('v0'), ctx.real('v1')], [ctx.real('w0'), ctx.real('w1')]
    a = L({'one': ctx.keys(k1), 'two': ctx.keys(k2)})
    b, c = L({'x': [0, 0]}, index=pd.Index(ctx.keys([1, 2]))), pd.DataFrame({'x': [0, 0]}, index=pd.Index(ctx.keys([2, 3])))
    b['v'], c['v'] = ctx.column(v), ctx.column(w)
    nan = float('nan')
    first = [v[h[0]] if h else nan for h in match(k1, [1, 2])]
    second = [w[h[0]] if h else nan for h in match(k2, [2, 3])]
    a.link_to(b, 'p', on_self='one', precompute=ctx.flag('precompute'))
    if ctx.flag('look between'):
        check_series(ctx, a.p.v, a.index, first, 'first link')
    name = ctx.choose('name', ['q', 'p'])
    a.link_to(c, name, on_self='two', precompute=ctx.flag('precompute 2'))
    check_series(ctx, a[name].v, a.index, second, 'second link')
    if name != 'p':
        check_series(ctx, a.p.v, a.index, first, 'first link')


def h_repeated(ctx):
    """Repeated row labels of the left-most frame."""
    L = ldf()
    labels = ['x', 'x', 'y'] if ctx.flag('some') else ['x', 'x', 'x']
    keys = some_keys(ctx, 'k', 3)
    v = [ctx.real('v0'), ctx.real('v1')]
    a = L({'key': ctx.keys(keys)}, index=labels)
    b = pd.DataFrame({'key': ctx.keys([5, 4])})
    b['v'] = ctx.column(v)
    a.link_to(b, 'ln', on='key')
    check_series(ctx, a.ln.v, labels, [v[h[0]] if h else float('nan') for h in match(keys, [5, 4])], 'lookup')


def h_nodes(ctx):
    """A node is a value: it can be kept and read as often as one likes, in any order."""
    L = ldf()
    ka, kb = [ctx.key('ka0', 0, 9), ctx.key('ka1', 0, 9)], [ctx.key('kb0', 0, 9), 3]
    ib, ic = [1, 2], [3, 4]
    ctx.distinct(kb)
    vb, vc, vd = [[ctx.real('%s%d' % (s, i)) for i in range(2)] for s in ('vb', 'vc', 'vd')]
    a = L({'z': [0, 0]})
    a['to'] = ctx.keys(ka)
    b = L({'z': [0, 0]}, index=pd.Index(ctx.keys(ib)))
    b['v'], b['to'] = ctx.column(vb), ctx.keys(kb)
    c = L({'z': [0, 0]}, index=pd.Index(ctx.keys(ic)))
    c['v'] = ctx.column(vc)
    d = pd.DataFrame({'k': ctx.keys([3, 3])})
    d['v'] = ctx.column(vd)
    a.link_to(b, 'b', on_self='to')
    b.link_to(c, 'c', on_self='to')
    b.link_to(d, 'd', on_self='to', on_other='k', precompute=False)
    nan = float('nan')
    hb, hc, hd = match(ka, ib), match(kb, ic), match(kb, [3, 3])
    deep = [hc[h[0]] if h else [] for h in hb]
    want = {'b.v': [vb[h[0]] if h else nan for h in hb], 'c.v': [vc[h[0]] if h else nan for h in deep],
            'd.sum': [add(vd[j] for j in hd[h[0]]) if h and hd[h[0]] else nan for h in hb],
            'of b': [vc[h[0]] if h else nan for h in hc]}
    node = a.b
    inner = node.c
    read = {'b.v': lambda: node.v, 'c.v': lambda: node.c.v, 'd.sum': lambda: node.d.sum('v'),
            'of b': lambda: b.c.v}
    kept = {'c.v': lambda: inner.v}
    done = []
    for k in range(3):
        what = ctx.choose('read%d' % k, sorted(read))
        get = read[what]
        if what == 'c.v' and ctx.flag('kept%d' % k):
            get = kept[what]
        done.append(what)
        check_series(ctx, get(), (b if what == 'of b' else a).index, want[what], 'reads %s: the last' % done)


CHANGES = ['replace', 'cell', 'add', 'keys of self', 'keys of target', 'other column']


def h_changes(ctx):
    """Reads show the target as it is: its columns may be changed, added or replaced after the link was made and read; after
    compute_indexers() the keys of both frames are the current ones."""
    L = ldf()
    k = [ctx.key('k0', 0, 6), None if ctx.flag('k1 is null') else ctx.key('k1', 0, 6)]
    o = [ctx.key('o0', 0, 6), ctx.key('o1', 0, 6)]
    ctx.distinct(o)
    v, w, x = [[ctx.real('%s%d' % (s, i)) for i in range(2)] for s in 'vwx']
    linked = ctx.flag('linked target')
    a = L({'z': [0.0, 0.0]}, index=['p', 'q'])
    a['key'] = ctx.keys(k)
    b = (L if linked else pd.DataFrame)({'z': [1, 2]})
    b['key'], b['v'] = ctx.keys(o), ctx.column(v)
    top = L({'to': ['q', 'p', 'q']})
    top.link_to(a, 'a', on_self='to', precompute=ctx.flag('precompute top'))
    a.link_to(b, 'b', on='key', precompute=ctx.flag('precompute'))
    nan = float('nan')

    def wanted(keys, others, vals):
        return [vals[h[0]] if h else nan for h in match(keys, others)]

    def both(name, keys, others, vals, what):
        r = wanted(keys, others, vals)
        check_series(ctx, a.b[name], a.index, r, what)
        check_series(ctx, top.a.b[name], top.index, [r[1], r[0], r[1]], what + ', through a chain')
    node = a.b
    if ctx.flag('read before'):
        both('v', k, o, v, 'before')
    for n, what in enumerate(('first', 'second')):
        c = CHANGES[ctx.cfg['first']] if n == 0 else ctx.choose('change', CHANGES)
        now = 'after %s' % c
        if c == 'replace':
            b['v'] = ctx.column(w if n == 0 else x)
            v = w if n == 0 else x
        elif c == 'cell':
            v = [x[n], v[1]]
            b.loc[0, 'v'] = x[n]
        elif c == 'add':
            b['n%d' % n] = ctx.column(x)
            both('n%d' % n, k, o, x, now)
        elif c == 'other column':
            b['z'] = [5, 6]
            a['z'] = [7.0, 8.0]
        elif c == 'keys of self':
            k = k[::-1]
            a['key'] = ctx.keys(k)
            a.compute_indexers()
        else:
            o = o[::-1]
            b['key'] = ctx.keys(o)
            a.compute_indexers(refresh=True)
        both('v', k, o, v, now)
        check_series(ctx, node['v'], a.index, wanted(k, o, v), now + ', from a kept node')


# key columns of the two sides (some of the left ones are missing from the right)
LONG = ['int', 'float', 'null', 'text', 'int8', 'negative', 'dates', 'category', 'two', 'level']


def h_long(ctx):
    """Many target rows: keys in any order, within, between and beyond those of the target."""
    c = ctx.cfg
    n, kind, L = c['n'], c['kind'], ldf()
    size = 100 if kind == 'int8' else n
    rng = np.random.RandomState(3)
    targets = [int(x) for x in rng.permutation(3 * size if kind != 'int8' else 127)[:size]]     # with gaps
    if c['order'] != 'shuffled':
        targets = sorted(targets, reverse=c['order'] == 'reversed')
    keys = [int(x) for x in rng.randint(1, 3 * size - 1 if kind != 'int8' else 126, 60)] + [targets[0], targets[-1], targets[size // 2]]
    span = ctx.choose('the outermost keys', ['within', 'below', 'above', 'both', 'exactly'])
    lo, hi = min(targets), max(targets)
    keys = [min(max(k, lo), hi) for k in keys] + {'within': [], 'below': [-1], 'above': [hi + 1], 'both': [hi + 1, -1], 'exactly': [lo, hi]}[span]
    free = {0, size // 2, size - 1, 7}
    v = [ctx.real('v%d' % i) if i in free else float(i) for i in range(size)]

    def side(ks, left):
        a = np.array(ks)
        if kind == 'float':
            a = a + 0.25
        elif kind == 'null' and left:
            a = np.array([nan if i % 10 == 3 else k for i, k in enumerate(ks)])
        elif kind == 'text':
            a = np.array(['k%05d' % (k + 10) for k in ks], dtype=object)
        elif kind == 'int8':
            a = a.astype('i1')
        elif kind == 'negative':
            a = a - n
        elif kind == 'dates':
            a = np.array(ks).astype('M8[D]')
        elif kind == 'category':
            a = pd.Categorical(['k%05d' % (k + 10) for k in ks])
        return a
    if kind in ('two', 'level'):
        def cols(ks):
            return {'p': [k // 7 for k in ks], 'q': [k % 7 for k in ks]}
        a, b = L(cols(keys)), pd.DataFrame(cols(targets))
        if kind == 'level':
            b['v'] = ctx.column(v)
            b = b.set_index(['p', 'q'])
            a.link_to(b, 'ln', on_self=['p', 'q'])
        else:
            b['v'] = ctx.column(v)
            a.link_to(b, 'ln', on=['p', 'q'], precompute=False)
    else:
        a, b = L({'key': side(keys, True)}), pd.DataFrame({'key': side(targets, False)})
        b['v'] = ctx.column(v)
        if ctx.flag('by index'):
            b = b.set_index('key')
            a.link_to(b, 'ln', on_self='key')
        else:
            a.link_to(b, 'ln', on='key')
    where = {k: j for j, k in enumerate(targets)}
    want = [v[where[k]] if k in where and not (kind == 'null' and i % 10 == 3) else nan for i, k in enumerate(keys)]
    check_series(ctx, a.ln.v, a.index, want, 'a lookup among %d rows' % size)
    check_series(ctx, a['ln']['v'], a.index, want, 'again')


nan = float('nan')


def h_copies(ctx):
    """The keys of a copy are its own, and those of the first frame too."""
    L, by = ldf(), ctx.cfg['by']
    k = [ctx.key('k0', 0, 6), None if ctx.flag('k1 is null') else ctx.key('k1', 0, 6)]
    new = [ctx.key('n0', 0, 6), 3]
    v = [ctx.real('v0'), ctx.real('v1')]
    o = [3, 4]
    b = pd.DataFrame({'key': ctx.keys(o)})
    b['v'] = ctx.column(v)
    a = L({'z': [0.0, 1.0], 'key': ctx.keys(k)}, index=pd.Index(ctx.keys(k)) if by == 'index' else ['p', 'q'])
    if by == 'index':
        a.link_to(b, 'b', on_other='key', precompute=ctx.cfg['precompute'])
    else:
        a.link_to(b, 'b', on='key', precompute=ctx.cfg['precompute'])
    how = ctx.choose('copied by', ['copy', 'deep copy', 'slice', 'mask', 'slice, copy', 'assign', 'twice'])
    every = np.array([True, True])
    c = {'copy': lambda: a.copy(), 'deep copy': lambda: a.copy(deep=True), 'slice': lambda: a.iloc[:], 'mask': lambda: a[every],
         'slice, copy': lambda: a.iloc[:].copy(), 'assign': lambda: a.assign(y=1), 'twice': lambda: a.copy().copy()}[how]()
    wanted = lambda keys: [v[h[0]] if h else nan for h in match(keys, o)]
    changed = ctx.choose('changed', ['the copy', 'the first frame'])
    f, other = (c, a) if changed == 'the copy' else (a, c)
    if ctx.flag('read before'):
        check_series(ctx, a.b.v, a.index, wanted(k), 'the first frame')
        check_series(ctx, c.b.v, c.index, wanted(k), 'the copy')
    if by == 'index':
        f.index = pd.Index(ctx.keys(new))
    else:
        f['key'] = ctx.keys(new)
    first = ctx.choose('first', ['other', 'this'])
    if first == 'other':
        check_series(ctx, other.b.v, other.index, wanted(k), 'the frame that is as before, when %s has new keys' % changed)
    f.compute_indexers(refresh=True)
    check_series(ctx, f.b.v, f.index, wanted(new), '%s after new keys' % changed)
    check_series(ctx, other.b.v, other.index, wanted(k), 'the frame that is as before, when %s has new keys and was computed' % changed)
    if ctx.flag('the other too'):
        other.compute_indexers()
        check_series(ctx, other.b.v, other.index, wanted(k), 'the frame that is as before, computed again')
        check_series(ctx, f.b.v, f.index, wanted(new), '%s at last' % changed)
