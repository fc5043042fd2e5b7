"""C18: aggregations over links reduce exactly the matching rows."""
import statistics

from .common import *
from .links import *

NUMBA = False
FUNCS = ['sum', 'mean', 'max', 'min', 'prod', 'median', 'var', 'first', 'last', 'nth', 'count']
BOUNDS = {
    'quick': 'links from frames of 1..2 rows to 0..4 target rows, keys any integers or null, held in the index, a column or a level, or in '
             'two levels; aggregated values any real or missing; sum, mean, max, min, prod, median, var, first, last, nth and count over '
             'symbolic values, std and quantile over fixed values; column names, expressions, constants; all numeric types; int_fill given '
             'or not; chains of up to 3 links ending in an aggregation; index pre-computed or not; two changes of columns or keys '
             'after linking; 300 target rows of which a few are symbolic',
    'thorough': 'as quick with 3 rows and 4 targets in every form'}
ASSUME = ['group-wise reductions of float columns are computed over exact reals (the reduction of one group is arithmetic of pandas)',
          'bool results of max/first/... with an integer fill are outside the claim']
nan = float('nan')
ORDER = object()


def jobs(tier):
    big = tier == 'thorough'
    out = []
    for f in FUNCS:
        out.append(('h_agg', dict(func=f, self='index', other='column', rows=2, targets=4 if big else 3)))
    for f in FORMS:
        for g in FORMS[1:]:
            if big or f != 'level number' or g == f:
                out.append(('h_agg', dict(func='sum', self=f, other=g, rows=3 if big else 2, targets=3)))
    out.append(('h_agg', dict(func='sum', self='index', other='index', rows=2, targets=4)))
    for f in ('columns', 'index', 'mixed', 'levels'):
        out.append(('h_two_levels', dict(form=f, rows=2 if big else 1, targets=3 if big else 2)))
    out += [('h_fixed', dict(type=t)) for t in sorted(TYPES)]
    out += [('h_chain', dict(length=n)) for n in (2, 3)]
    out += [('h_expr', dict(linked=k)) for k in (True, False)]
    out += [('h_empty', {}), ('h_refused', {}), ('h_beyond', {})]
    out += [('h_changes', dict(first=k)) for k in range(len(CHANGES))]
    out += [('h_long', dict(n=n, keys=k)) for n in ((300,) if not big else (300, 4000)) for k in ('int', 'text', 'null', 'two', 'sorted')]
    return out


def reduce(ctx, func, x, **kw):
    """func over the values of one group; missing values are left out (except by nth)."""
    if func == 'nth':
        n = kw.get('n', 1)
        return x[n] if -len(x) <= n < len(x) else nan
    x = [v for v in x if not (isinstance(v, float) and v != v)]
    if func == 'count':
        return len(x)
    if func == 'sum':
        return sum(x, 0.0)
    if func == 'prod':
        r = 1.0
        for v in x:
            r = r * v
        return r
    if not x:
        return nan
    if func == 'mean':
        return sum(x, 0.0) / len(x)
    if func in ('first', 'last'):
        return x[0 if func == 'first' else -1]
    if func in ('var', 'std'):
        if len(x) < 2:
            return nan
        sq = sum((v * v for v in x), 0.0)
        s = sum(x, 0.0)
        v = (sq - s * s / len(x)) / (len(x) - 1)
        return v if func == 'var' else max(v, 0.0) ** 0.5
    if func == 'quantile':
        return float(np.quantile(np.array(x, dtype=float), kw.get('q', 0.5)))
    return ORDER


def agrees(ctx, func, got, x):
    """max, min and median by their definition"""
    x = [v for v in x if not (isinstance(v, float) and v != v)]
    if func in ('max', 'min'):
        member, bound = False, True
        for v in x:
            member = ctx.eq(got, v) | member
            bound = ((v <= got) if func == 'max' else (v >= got)) & bound
        return member & bound
    out = []
    for v in x:
        k = 0
        while k < len(out) and out[k] < v:
            k += 1
        out.insert(k, v)
    n = len(out)
    return ctx.eq(got, out[n // 2] if n % 2 else (out[n // 2 - 1] + out[n // 2]) / 2)


def check_groups(ctx, s, index, groups, func, what, fill=nan, **kw):
    ctx.check(isinstance(s, pd.Series) and len(s) == len(groups), '%s: the result has %s rows' % (what, len(s)))
    ctx.check(all(same(ctx, a, b) for a, b in zip(s.index, index)), '%s: the rows of the result are %s' % (what, list(s.index)))
    for got, x in zip(values(s), groups):
        if not x:
            ctx.check(same(ctx, got, fill), '%s: a row without matches has %r instead of %r' % (what, got, fill))
            continue
        want = reduce(ctx, func, x, **kw)
        if want is ORDER:
            ctx.check(agrees(ctx, func, got, x), '%s: %r is not the %s of %r' % (what, got, func, x))
        else:
            ctx.check(same(ctx, got, want), '%s: %r is not the %s of %r' % (what, got, func, x))


def targets(ctx, n, missing=1):
    return [nan if i < missing and ctx.flag('v%d missing' % i) else ctx.real('v%d' % i) for i in range(n)]


def h_agg(ctx):
    c = ctx.cfg
    keys = some_keys(ctx, 'k', c['rows'], 1)
    others = some_keys(ctx, 'o', c['targets'], 1)
    ctx.distinct([k for k in keys if k is not None])
    v = targets(ctx, c['targets'])
    linked = ctx.flag('linked target')
    a, ka = key_side(ctx, c['self'], keys, extra={'z': np.zeros(len(keys))})
    b, kb = key_side(ctx, c['other'], others, cls=ldf() if linked else pd.DataFrame)
    b['v'] = ctx.column(v)
    need = connect(a, b, 'ln', ka, kb, ctx.flag('precompute'))
    hits = match(keys, others)
    if not need.value:          # the target keys do not repeat
        return ctx.skip()
    groups = [[v[j] for j in h] for h in hits]
    func, kw = c['func'], {}
    if func == 'nth' and ctx.flag('n given'):
        kw['n'] = ctx.choose('n', [0, 2, -1])
    s = getattr(a.ln, func)('v', **kw)
    check_groups(ctx, s, a.index, groups, func, func, -1 if func == 'count' else nan, **kw)
    if func == 'sum':
        check_groups(ctx, a['ln'].count('v', int_fill=5), a.index, groups, 'count', 'count after sum', 5)
        check_groups(ctx, a.ln.sum('v'), a.index, groups, 'sum', 'second sum')


def h_two_levels(ctx):
    c = ctx.cfg
    L = ldf()

    def pairs(p, n):
        out = []
        for i in range(n):
            x = None if i == 0 and ctx.flag('%s null' % p) else ctx.key('%s%da' % (p, i), 0, 50)
            out.append((x, ctx.key('%s%db' % (p, i), 0, 50)))
        return out
    keys, others = pairs('k', c['rows']), pairs('o', c['targets'])
    if len(keys) == 2:
        ctx.assume((keys[0][1] != keys[1][1]) if None in (keys[0][0], keys[1][0]) else
                   (keys[0][0] != keys[1][0]) | (keys[0][1] != keys[1][1]))
    others.append((others[-1][0], others[-1][1]))      # at least one key repeats
    v = [ctx.real('v%d' % i) for i in range(len(others))]
    swap = ctx.flag('names swapped')
    order = ['q', 'p'] if swap else ['p', 'q']

    def columns(ks):
        df = L({'z': np.zeros(len(ks))})
        df['p'], df['q'] = ctx.keys([k[0] for k in ks]), ctx.keys([k[1] for k in ks])
        return df

    def index(ks, more=False):
        arrays, names = [ctx.keys([k[0] for k in ks]), ctx.keys([k[1] for k in ks])], ['p', 'q']
        if more:
            arrays, names = [list(range(len(ks))), arrays[1], arrays[0]], ['n', 'q', 'p']
        return L({'z': np.zeros(len(ks))}, index=pd.MultiIndex.from_arrays(arrays, names=names))
    if c['form'] == 'columns':
        a, b, ka, kb = columns(keys), columns(others), {'on': order}, {'on': order}
    elif c['form'] == 'index':
        a, b, ka, kb = index(keys), index(others), {}, {}
    elif c['form'] == 'levels':
        a, b, ka, kb = index(keys, True), index(others, True), {'levels': order}, {'levels': order}
    else:
        a, b, ka, kb = index(keys), columns(others), {}, {'on': ['p', 'q']}
    b['v'] = ctx.column(v)
    need = connect(a, b, 'ln', ka, kb, not swap)
    ctx.check(bool(need.value), 'a link to repeated keys needs aggregation')
    groups = [[v[j] for j in h] for h in match(keys, others)]
    check_groups(ctx, a.ln.sum('v'), a.index, groups, 'sum', 'sum by two levels')
    check_groups(ctx, a.ln.last('v'), a.index, groups, 'last', 'last by two levels')


TYPES = {   # values, is the expression integer-valued
    'int': (lambda: np.array([3, -5, 8, 2]), True), 'int8': (lambda: np.array([3, -5, 8, 2], 'int8'), True),
    'uint': (lambda: np.array([3, 5, 8, 2], 'uint8'), True), 'float': (lambda: np.array([.5, -1.25, 8., 2.]), False),
    'float32': (lambda: np.array([.5, -1.25, 8., 2.], 'f4'), False), 'bool': (lambda: np.array([True, False, True, True]), True),
    'missing': (lambda: np.array([.5, nan, 8., 2.]), False), 'text': (lambda: np.array(['b', 'a', 'd', 'c'], object), False),
    'category': (lambda: pd.Categorical(['b', 'a', 'd', 'b']), False),
}
ALL = FUNCS + ['std', 'quantile']


def h_fixed(ctx):
    """Fixed values of every type, every function, fills, symbolic keys."""
    make, integer = TYPES[ctx.cfg['type']]
    t = ctx.cfg['type']
    col = make()
    x = [pd.Series(col).iat[i] for i in range(4)]
    keys = [ctx.key('k0', 0, 6), None if ctx.flag('k1 is null') else ctx.key('k1', 0, 6)]
    ctx.distinct([k for k in keys if k is not None])
    others = [4, 2, 2, None] if ctx.flag('null target') else [4, 2, 2, 4]
    linked = ctx.flag('linked target')
    b = (ldf() if linked else pd.DataFrame)({'v': pd.Series(col), 'key': ctx.keys(others)})
    a = ldf()({'z': [1.0, 2.0]}, index=['x', 'y'])
    a['key'] = ctx.keys(keys)
    a.link_to(b, 'ln', on='key', precompute=ctx.flag('precompute'))
    func = ctx.choose('function', ALL)
    kw = {}
    if func == 'quantile' and ctx.flag('q given'):
        kw['q'] = 0.25
    if func == 'nth':
        kw['n'] = ctx.choose('n', [0, 1])
    fill = nan
    if integer or func == 'count':
        fill = -1
    more = {}
    if ctx.flag('int_fill'):
        more['int_fill'] = ctx.choose('fill', [7, 0])
        fill = more['int_fill'] if fill == -1 else fill
    numeric = t not in ('text', 'category')
    kind, s = outcome(lambda: getattr(a.ln, func)('v', **kw, **more))
    if not numeric and func not in ('first', 'last', 'nth', 'count'):
        return ctx.check(kind == 'error' and s == 'RuntimeError', '%s of %s gave %s' % (func, t, s))
    if t == 'bool' and func in ('first', 'last', 'nth', 'max', 'min', 'quantile', 'median', 'prod'):
        return                                                                # see ASSUME
    if kind == 'error':
        return ctx.fail('%s of %s raised %s' % (func, t, s))
    groups = [[x[j] for j in h] for h in match(keys, others)]
    ctx.check(list(s.index) == ['x', 'y'], 'rows %s' % list(s.index))
    for got, g in zip(values(s), groups):
        if not g:
            ctx.check(same(ctx, got, fill), '%s of %s: a row without matches has %r instead of %r' % (func, t, got, fill))
            continue
        if numeric:
            g = [float(q) for q in g]
        want = reduce(ctx, func, g, **kw)
        if want is ORDER:
            h = [q for q in g if q == q]
            want = {'max': max, 'min': min, 'median': statistics.median}[func](h)
        if func == 'nth' and isinstance(want, float) and want != want:
            want = fill if len(g) <= kw['n'] else nan
        if func in ('median', 'var', 'std', 'quantile', 'mean') and isinstance(want, float) and want != want:
            ok = not (got == got)
        else:
            ok = same(ctx, got, want) if not isinstance(want, float) or want != want else abs(float(got) - want) < 1e-6
        ctx.check(ok, '%s of %s: %r is not the value of %r' % (func, t, got, g))


def h_chain(ctx):
    """Links followed by an aggregation."""
    n = ctx.cfg['length']
    L = ldf()
    a = L({'z': [0.0, 0.0]}, index=['x', 'x'] if ctx.flag('repeated labels') else ['x', 'y'])
    k0 = some_keys(ctx, 'k', 2, 1)
    a['to'] = ctx.keys(k0)
    mids = [ctx.key('m0', 0, 50), ctx.key('m1', 0, 50)]
    ctx.distinct(mids)
    b = L({'w': [1.0, 2.0]}, index=pd.Index(ctx.keys(mids)))
    a.link_to(b, 'b', on_self='to')
    last, at, node = b, [h[0] if h else None for h in match(k0, mids)], (lambda: a.b)
    size = 2
    if n == 3:
        k1 = [ctx.key('q0', 0, 50), ctx.key('q1', 0, 50)]
        b['to'] = ctx.keys(k1)
        c = L({'w': [1.0]}, index=pd.Index(ctx.keys([7])))
        b.link_to(c, 'c', on_self='to', precompute=ctx.flag('precompute'))
        h1 = match(k1, [7])
        at = [None if p is None or not h1[p] else h1[p][0] for p in at]
        last, node, size = c, (lambda: a.b.c), 1
    if ctx.flag('by column'):
        own = [ctx.key('s%d' % i, 0, 50) for i in range(size)]
        ctx.distinct(own)
        last['own'] = ctx.keys(own)
        kw = dict(on_self='own', on_other='key')
    else:
        own = mids if n == 2 else [7]
        kw = dict(on_other='key')
    others = some_keys(ctx, 'o', 2, 1)
    others = others + [others[1]]
    v = [ctx.real('v%d' % i) for i in range(3)]
    d = (L if ctx.flag('linked target') else pd.DataFrame)({'key': ctx.keys(others), 'one': [1, 1, 1]})
    d['v'] = ctx.column(v)
    last.link_to(d, 'd', **kw)
    hits = match(own, others)
    groups = [[v[j] for j in hits[p]] if p is not None else [] for p in at]
    check_groups(ctx, node().d.sum('v'), a.index, groups, 'sum', 'sum over %d links' % n)
    check_groups(ctx, node().d.count(), a.index, groups, 'count', 'count over %d links' % n, -1)
    check_groups(ctx, node().d.sum('one', int_fill=9), a.index, [[1] * len(g) for g in groups], 'sum', 'sum of integers', 9)


def h_expr(ctx):
    """Expressions inside aggregations are evaluated on the target rows."""
    L = ldf()
    linked = ctx.cfg['linked']
    keys = [ctx.key('k0', 0, 50), ctx.key('k1', 0, 50)]
    ctx.distinct(keys)
    o = some_keys(ctx, 'o', 2, 1)
    others = o + [o[1]]
    v = [ctx.real('v%d' % i) for i in range(3)]
    w = [2.0, -3.0, 0.5]
    b = (L if linked else pd.DataFrame)({'w': w, 'n': [4, 5, 6], 't': ['a', 'b', 'a']}, index=['r', 's', 't'])
    b['key'] = ctx.keys(others)
    options = [('w * 2 + n', [8.0, -1.0, 7.0], nan), ('n', [4, 5, 6], -1), ('n * 3', [12, 15, 18], -1),
               ('n > 4', [False, True, True], -1), ('2', [2, 2, 2], -1), ('2.5', [2.5] * 3, nan)]
    if linked:
        zk = [ctx.key('z%d' % i, 0, 50) for i in range(3)] if ctx.flag('link of the target') else None
        b['v'] = ctx.column(v)
        options = options + [('v * w', [p * q for p, q in zip(v, w)], nan), ("where(t == 'a', w, n)", [2.0, 5.0, 0.5], nan),
                             ("t == 'a'", [True, False, True], -1), ("(w > 0) & (n < 6)", [True, False, False], -1)]
        if zk is not None:
            z = L({'f': [10.0, 20.0], 'n': [60.0, 70.0], 'w': [-4.0, -8.0]}, index=pd.Index(ctx.keys([1, 2])))
            for q in 'fnw':
                z.set_column_fill(q, -40.0)
            b['zone'] = ctx.keys(zk)
            b.link_to(z, 'zone_', on_self='zone')
            zf = [(10.0, 20.0)[h[0]] if h else -40.0 for h in match(zk, [1, 2])]
            zn = [(60.0, 70.0)[h[0]] if h else -40.0 for h in match(zk, [1, 2])]
            zw = [(-4.0, -8.0)[h[0]] if h else -40.0 for h in match(zk, [1, 2])]
            options = [('zone_.f', zf, nan), ('zone_.n', zn, nan), ('zone_.w', zw, nan), ('n + zone_.n', [p + q for p, q in zip(zn, [4, 5, 6])], nan), ('zone_.f * n', [p * q for p, q in zip(zf, [4, 5, 6])], nan)]
    text, x, fill = ctx.choose('expression', options)
    a = L({'z': [0.0, 0.0]}, index=pd.Index(ctx.keys(keys)))
    a.link_to(b, 'ln', on_other='key')
    groups = [[float(x[j]) if not linked or isinstance(x[j], (bool, int)) else x[j] for j in h] for h in match(keys, others)]
    check_groups(ctx, a.ln.sum(text), a.index, groups, 'sum', 'sum of %s' % text, fill)
    if ctx.flag('int_fill'):
        check_groups(ctx, a.ln.sum(text, int_fill=3), a.index, groups, 'sum', 'sum of %s' % text, 3 if fill == -1 else nan)
    check_groups(ctx, a.ln.count(text), a.index, groups, 'count', 'count of %s' % text, -1)
    if fill != -1:
        check_groups(ctx, a.ln.mean(text), a.index, groups, 'mean', 'mean of %s' % text, nan)


def h_empty(ctx):
    """No rows anywhere, or only null keys."""
    L = ldf()
    where = ctx.choose('empty', ['self', 'all keys null', 'middle'])
    pre = ctx.flag('precompute')
    if where == 'middle':
        a = L({'to': ctx.keys(some_keys(ctx, 'k', 2))}, index=['x', 'y'])
        b = L({'key': np.zeros(0)}, index=pd.Index(ctx.keys([])))
        a.link_to(b, 'b', on_self='to', precompute=pre)
        c = pd.DataFrame({'key': [1, 1], 'v': [0.5, 0.5], 'i': [3, 3]})
        b.link_to(c, 'c', on='key', precompute=pre)
        check_series(ctx, a.b.c.sum('v'), a.index, [nan, nan], 'sum over an empty frame')
        check_series(ctx, a.b.c.sum('i'), a.index, [-1, -1], 'sum of integers over an empty frame')
        return check_series(ctx, a.b.c.count(), a.index, [-1, -1], 'count over an empty frame')
    n = 0 if where == 'self' else 2
    keys = [ctx.key('k%d' % i, 0, 50) for i in range(n)]
    ctx.distinct(keys)
    a = L({'z': np.zeros(n)}, index=pd.Index(ctx.keys(keys)))
    b = L({'key': ctx.keys([None, None] if where != 'self' else [1, 1]), 'v': [0.5, 1.5], 'i': [3, 4], 't': ['a', 'b']})
    need = a.link_to(b, 'b', on_other='key', precompute=pre)
    ctx.check(bool(need.value), 'a link to repeated keys needs aggregation')
    check_series(ctx, a.b.sum('v'), a.index, [nan] * n, 'sum without matches')
    check_series(ctx, a.b.sum('i'), a.index, [-1] * n, 'sum of integers without matches')
    check_series(ctx, a.b.mean('i', int_fill=2), a.index, [2] * n, 'mean of integers without matches')
    check_series(ctx, a.b.count(), a.index, [-1] * n, 'count without matches')
    check_series(ctx, a.b.first('v'), a.index, [nan] * n, 'first without matches')


def h_refused(ctx):
    """Unknown aggregations and attributes."""
    L = ldf()
    a = L({'z': [0.0, 0.0]}, index=[1, 2])
    b = (L if ctx.flag('linked') else pd.DataFrame)({'key': [1, 1, 2], 'v': [1.0, 2.0, 4.0], 't': ['a', 'b', 'c']})
    a.link_to(b, 'ln', on_other='key')
    what = ctx.choose('what', ['attribute', 'item', 'text sum', 'text expression', 'time'])
    if what == 'attribute':
        kind, e = outcome(lambda: a.ln.v)
        return ctx.check(kind == 'error' and e == 'AttributeError', 'a column of an aggregated link gave %s' % (e,))
    if what == 'item':
        kind, e = outcome(lambda: a.ln['v'])
        return ctx.check(kind == 'error', 'a column of an aggregated link gave a value')
    if what == 'text sum':
        kind, e = outcome(lambda: a.ln.sum('t'))
        return ctx.check(kind == 'error' and e == 'RuntimeError', 'the sum of text gave %s' % (e,))
    if what == 'text expression':
        kind, e = outcome(lambda: a.ln.sum('nope * 2'))
        return ctx.check(kind == 'error', 'an unknown column gave %s' % (e,))
    s = a.ln.sum('v')
    check_series(ctx, s, a.index, [3.0, 4.0], 'sum')


def h_beyond(ctx):
    """Rows that are added to groups of different sizes: nth beyond a group, groups of null values."""
    L = ldf()
    keys = [1, 2, 3]
    which = [ctx.choose('o%d' % i, [1, 2, None]) for i in range(3)]
    if len(set(which)) == 3:
        return
    order = ctx.perm('rows', range(3))
    v = [ctx.real('v%d' % i) for i in range(3)]
    t = ['a', None, 'c'] if ctx.flag('missing text') else ['a', 'b', 'c']
    a = L({'z': [0.0] * 3}, index=ctx.keys([keys[i] for i in order]))
    b = pd.DataFrame({'key': ctx.keys(which), 't': t, 'i': [4, 5, 6]})
    b['v'] = ctx.column(v)
    need = a.link_to(b, 'ln', on_other='key')
    n = ctx.choose('n', [0, 1, 2, -1, -2])
    hits = match([keys[i] for i in order], which)
    pick = [h[n] if -len(h) <= n < len(h) else None for h in hits]
    check_series(ctx, a.ln.nth('v', n=n), a.index, [nan if p is None else v[p] for p in pick], 'nth value')
    check_series(ctx, a.ln.nth('i', n=n, int_fill=-9), a.index, [-9 if p is None else [4, 5, 6][p] for p in pick], 'nth integer')
    check_series(ctx, a.ln.nth('t', n=n), a.index, [nan if p is None else t[p] for p in pick], 'nth text')
    check_series(ctx, a.ln.count('t'), a.index, [sum(t[j] is not None for j in h) if h else -1 for h in hits], 'count of text')


CHANGES = ['v', 'z and n', 'cell', 'new column', 'keys of self', 'keys of target']


def h_changes(ctx):
    """Aggregations show the target as it is now."""
    L = ldf()
    k = [ctx.key('k0', 0, 6), ctx.key('k1', 0, 6)]
    ctx.distinct(k)
    o = [ctx.key('o0', 0, 6), ctx.key('o1', 0, 6)]
    others = o + [o[1]]
    v, w, x = [[ctx.real('%s%d' % (s, i)) for i in range(3)] for s in 'vwx']
    linked = ctx.flag('linked target')
    a = L({'z': [0.0, 0.0]}, index=['p', 'q'])
    a['key'] = ctx.keys(k)
    b = (L if linked else pd.DataFrame)({'z': [1.0, 2.0, 4.0], 'n': [1, 2, 4]})
    b['key'], b['v'] = ctx.keys(others), ctx.column(v)
    a.link_to(b, 'b', on='key', precompute=ctx.flag('precompute'))
    z, n = [1.0, 2.0, 4.0], [1, 2, 4]

    def read(what):
        hits = match(k, others)
        cells = lambda xs: [[xs[j] for j in h] for h in hits]
        check_groups(ctx, a.b.sum('v'), a.index, cells(v), 'sum', 'sum ' + what)
        check_groups(ctx, a.b.sum('z * 2'), a.index, cells([2 * q for q in z]), 'sum', 'sum of z * 2 ' + what)
        check_groups(ctx, a.b.count(), a.index, cells(n), 'count', 'count ' + what, -1)
        if linked:
            check_groups(ctx, a.b.sum('v + z'), a.index, cells([p + q for p, q in zip(v, z)]), 'sum', 'sum of v + z ' + what)
            check_groups(ctx, a.b.sum('n > 1'), a.index, cells([q > 1 for q in n]), 'sum', 'sum of n > 1 ' + what, -1)
    node = a.b
    if ctx.flag('read before'):
        read('before')
    for i, which in enumerate(('first', 'second')):
        c = CHANGES[ctx.cfg['first']] if i == 0 else ctx.choose('change', CHANGES)
        if c == 'v':
            v = (w, x)[i]
            b['v'] = ctx.column(v)
        elif c == 'z and n':
            z, n = [8.0 + i, -0.5, 0.25], [0, 5 + i, 1]
            b['z'], b['n'] = z, n
        elif c == 'cell':
            v = [v[0], v[1], x[i]]
            b.loc[2, 'v'] = x[i]
        elif c == 'new column':
            b['c%d' % i] = ctx.column(x)
            hits = match(k, others)
            check_groups(ctx, node.sum('c%d' % i), a.index, [[x[j] for j in h] for h in hits], 'sum', 'sum of a new column')
        elif c == 'keys of self':
            k = k[::-1]
            a['key'] = ctx.keys(k)
            a.compute_indexers()
        else:
            others = others[::-1]
            b['key'] = ctx.keys(others)
            a.compute_indexers()
        read('after changing ' + c)


def h_long(ctx):
    """Many rows in many groups; some of the values are any real or missing."""
    c = ctx.cfg
    n, kind, L = c['n'], c['keys'], ldf()
    rng = np.random.RandomState(6)
    others = [int(x) for x in rng.randint(0, 60, n)]
    others[5:8] = [700, 700, 700]
    if kind == 'sorted':
        others.sort()
    keys = [int(x) for x in rng.permutation(90)[:45]] + [700]
    free = {0: None, n // 2: None, n - 1: None, 5: None}
    lost = ctx.flag('some values are missing')
    v = [ctx.real('v%d' % i) if i in free else nan if lost and i % 9 == 4 else float((i * 7) % 31 - 11) for i in range(n)]
    func = ctx.choose('function', ['sum', 'mean', 'first', 'last', 'count', 'nth', 'max', 'min', 'sum of int', 'std', 'quantile', 'product', 'max of int'])

    def side(ks, left):
        if kind == 'text':
            return np.array(['k%03d' % k for k in ks], dtype=object)
        if kind == 'null':
            return np.array([nan if k % 11 == 3 else k for k in ks], dtype=float)
        return np.array(ks)
    if kind == 'two':
        a, b = L({'p': [k // 8 for k in keys], 'q': [k % 8 for k in keys]}), L({'p': [k // 8 for k in others], 'q': [k % 8 for k in others]})
        on = ['p', 'q']
    else:
        ks = keys if kind != 'null' else [k for k in keys if k % 11 != 3] + [3]
        keys = ks
        a, b = L({'key': side(keys, True)}), L({'key': side(others, False)})
        on = 'key'
    v2 = [float(x) if not isinstance(x, float) else x for x in [(i * 5) % 17 for i in range(n)]]
    b['v'] = ctx.column(v)
    b['i'] = [(i * 5) % 17 - 8 for i in range(n)]
    b['f'] = v2
    a.link_to(b, 'ln', on=on, precompute=ctx.flag('precompute'))
    hits = [[j for j, o in enumerate(others) if o == k and not (kind == 'null' and k % 11 == 3)] for k in keys]
    groups = [[v[j] for j in h] for h in hits]
    if func in ('sum of int', 'max of int'):
        f = sum if func == 'sum of int' else max
        got = getattr(a.ln, func[:3])('i * 2')
        want = [f([((j * 5) % 17 - 8) * 2 for j in h]) if h else -1 for h in hits]
        return check_series(ctx, got, a.index, want, func)
    if func in ('std', 'quantile', 'product'):
        f, x = {'std': ('std', 'f'), 'quantile': ('quantile', 'f'), 'product': ('sum', 'f * i')}[func]
        src = [v2[j] * ((j * 5) % 17 - 8) if func == 'product' else v2[j] for j in range(n)]
        return check_groups(ctx, getattr(a.ln, f)(x), a.index, [[src[j] for j in h] for h in hits], f, func)
    kw = {'n': 2} if func == 'nth' else {}
    check_groups(ctx, getattr(a.ln, func)('v', **kw), a.index, groups, func, func, -1 if func == 'count' else nan, **kw)
