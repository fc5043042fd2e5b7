"""C20: frame expressions and pivots see the columns and links of each row."""
from .common import *
from .links import *

NUMBA = False
BOUNDS = {
    'quick': 'frames of 3 rows with real, integer, boolean, text, categorical and nullable integer columns, a link, a chain of links and an '
             'aggregated link with symbolic keys (null allowed) and real values; 40 expression shapes; pairs of 12 nearly equal expressions one after the other on two nearly equal frames; with and without an output series; '
             'pivots over columns and lookups given by name or in lists, 5 aggregation functions; 300 rows of which a few are symbolic',
    'thorough': 'as quick with every pair of expressions combined by +, * and where, and all key patterns free'}
ASSUME = ['numexpr evaluates the rewritten expression element by element (stand-in over exact reals; replayed on numexpr)',
          'local names that are also columns are outside the claim']
nan = float('nan')
N = 3


def jobs(tier):
    big = tier == 'thorough'
    out = [('h_expr', dict(part=p, parts=8, keys=2 if big else 1)) for p in range(8)]
    out += [('h_types', {}), ('h_text', {}), ('h_out', {}), ('h_missing', {}), ('h_names', {}), ('h_local', {}), ('h_unknown', {}), ('h_after', {}), ('h_wide', {})]
    out += [('h_alike', dict(first=k)) for k in range(12)]
    out += [('h_combined', dict(part=p, parts=16 if big else 4, keys=2 if big else 1, full=big)) for p in range(16 if big else 4)]
    out += [('h_pivot', dict(value=v, columns=k)) for k in (True, False) for v in ('x', 'ln.v', 'ln.d.u', 'agg.sum(w)', 'list', 'computed')]
    out += [('h_pivot_symbolic', {})]
    out += [('h_long', dict(n=n, part=p)) for n in ((300,) if not big else (300, 3000)) for p in ('text', 'category', 'link', 'number')]
    return out


class World:
    def __init__(self, ctx, free=2, labels=None, real=True):
        L = ldf()
        self.ctx = ctx
        n = N
        self.x = [ctx.real('x%d' % i) for i in range(n)] if real else [1.0, -2.0, 4.0]
        self.y = [ctx.real('y%d' % i) for i in range(n)] if real else [0.5, 8.0, -16.0]
        self.n = [3, -1, 0]
        self.m = [2, 5, 7]
        self.b = [True, False, True]
        self.t = ['a', 'bb', 'a']
        self.c = ['long', 'v', 'long']
        self.I = [4, 6, -2]
        rest = [2, None, 4]
        self.k = [ctx.key('k0', 0, 5), ctx.key('k1', 0, 5)][:free] + rest[free:]
        self.q = [3, ctx.key('q1', 4, 8), 9]
        a = L({'n': self.n, 'm': np.array(self.m, dtype='uint8'), 'b': self.b, 't': self.t, 'c': pd.Categorical(self.c), 'I': pd.array(self.I, dtype='Int64')})
        a.index = labels or ['r', 's', 'q']
        col = ctx.column if real else (lambda v: v)
        a['x'], a['y'] = col(self.x), col(self.y)
        a['key'], a['key2'] = ctx.keys(self.k), ctx.keys(self.q)
        self.v = [ctx.real('v0'), ctx.real('v1')] if real else [32.0, -64.0]
        b = L({'w': [0.5, -2.0], 'n': [7, 8], 'name': ['a', 'zz'], 'x': [100.0, 200.0]}, index=pd.Index(ctx.keys([4, 2])))
        b['v'] = col(self.v)
        b['to'] = ctx.keys([1, 0])
        b.set_column_fill('w', -1.5)
        b.set_column_fill('x', 0.0)
        b.set_column_fill('v', 0.0)
        d = pd.DataFrame({'u': [2.0, 3.0], 'n': [5, 6]}, index=pd.Index(ctx.keys([0, 1])))
        b.link_to(d, 'd', on_self='to')
        e = L({'key': ctx.keys([5, 3, 5, None]), 'w': [1.0, 2.0, 4.0, 8.0], 'n': [1, 2, 3, 4]})
        a.link_to(b, 'ln', on_self='key')
        a.link_to(b, 'ln2', on_self='key2')
        a.link_to(e, 'agg', on_self='key2', on_other='key')
        self.frame = a
        pos = [h[0] if h else None for h in match(self.k, [4, 2])]
        pos2 = [h[0] if h else None for h in match(self.q, [4, 2])]
        grp = match(self.q, [5, 3, 5, None])
        W, S = [1.0, 2.0, 4.0, 8.0], lambda f, fill: [f(h) if h else fill for h in grp]
        at = lambda xs, ps, fill: [fill if p is None else xs[p] for p in ps]
        self.cols = {
            'x': self.x, 'y': self.y, 'n': self.n, 'm': self.m, 'b': self.b, 't': self.t, 'c': self.c, 'I': self.I,
            'ln.v': at(self.v, pos, 0.0), 'ln.w': at([0.5, -2.0], pos, -1.5), 'ln.n': at([7, 8], pos, 0), 'ln.name': at(['a', 'zz'], pos, ''),
            'ln.x': at([100.0, 200.0], pos, 0.0), 'ln.d.n': at([6, 5], pos, 0), 'ln2.v': at(self.v, pos2, 0.0), 'ln2.n': at([7, 8], pos2, 0),
            'agg.sum(n)': S(lambda h: sum((1, 2, 3, 4)[j] for j in h), -1), 'agg.count(n)': S(len, -1),
            'agg.sum(n * 2)': S(lambda h: sum((2, 4, 6, 8)[j] for j in h), -1), 'agg.max(n)': S(lambda h: max((1, 2, 3, 4)[j] for j in h), -1),
            'agg.min(n)': S(lambda h: min((1, 2, 3, 4)[j] for j in h), -1), 'agg.first(n + w)': S(lambda h: (2.0, 4.0, 7.0, 12.0)[h[0]], None),
            'ln.d.u': at([3.0, 2.0], pos, None), 'agg.sum(w)': S(lambda h: sum(W[j] for j in h), None)}

    def rows(self, f):
        """f over the row dictionaries"""
        return [f(Row({k: v[i] for k, v in self.cols.items()})) for i in range(N)]


class Row(dict):
    def __call__(self, name):
        return self[name]


def iff(c, a, b):
    return a if c else b


EXPRS = [
    ('x + y * 2', lambda r: r('x') + r('y') * 2), ('(x + y) * 2', lambda r: (r('x') + r('y')) * 2), ('x - y / 4', lambda r: r('x') - r('y') / 4),
    ('-x', lambda r: -r('x')), ('x ** 2', lambda r: r('x') * r('x')), ('x * y - y * x + n', lambda r: r('n') + 0.0),
    ('x > y', lambda r: r('x') > r('y')), ('(x > y) | (x < -1)', lambda r: (r('x') > r('y')) | (r('x') < -1)),
    ('(x >= y) & (not n == 3)', lambda r: (r('x') >= r('y')) & (r('n') != 3)), ('where(x > 0, x, y)', lambda r: iff(r('x') > 0, r('x'), r('y'))),
    ('where(b, x, 1)', lambda r: iff(r('b'), r('x'), 1)), ('where(n > 0, 5, m)', lambda r: iff(r('n') > 0, 5, r('m'))),
    ('n * m', lambda r: r('n') * r('m')), ('I + n', lambda r: r('I') + r('n')), ('I * x', lambda r: r('I') * r('x')), ('b * x', lambda r: iff(r('b'), r('x'), 0)),
    ("t == 'a'", lambda r: r('t') == 'a'), ("t != 'bb'", lambda r: r('t') != 'bb'), ("c == 'v'", lambda r: r('c') == 'v'),
    ("where(c == 'long', x, y)", lambda r: iff(r('c') == 'long', r('x'), r('y'))), ('not b', lambda r: not r('b')), ('I > n', lambda r: r('I') > r('n')),
    ('x * 0.25 + 1', lambda r: r('x') * 0.25 + 1), ('abs(x)', lambda r: iff(r('x') < 0, -r('x'), r('x'))), ('2', lambda r: 2),
    ('ln.v', lambda r: r('ln.v')), ('ln.v * x', lambda r: r('ln.v') * r('x')), ('ln.v + ln.w', lambda r: r('ln.v') + r('ln.w')),
    ('ln.x + x', lambda r: r('ln.x') + r('x')), ('ln.v - ln2.v', lambda r: r('ln.v') - r('ln2.v')), ('ln2.n * 10 + ln.n', lambda r: r('ln2.n') * 10 + r('ln.n')),
    ('n + ln.n * 10 + ln.d.n * 100', lambda r: r('n') + r('ln.n') * 10 + r('ln.d.n') * 100), ('ln.n > 7', lambda r: r('ln.n') > 7),
    ("ln.name == 'zz'", lambda r: r('ln.name') == 'zz'), ("where(ln.name == t, x, y)", lambda r: iff(r('ln.name') == r('t'), r('x'), r('y'))),
    ('agg.sum(n)', lambda r: r('agg.sum(n)')), ('agg.count(n)', lambda r: r('agg.count(n)')), ('agg.sum(n) + agg.sum(n * 2)', lambda r: r('agg.sum(n)') + r('agg.sum(n * 2)')),
    ('agg.max(n) - agg.min(n) * 10', lambda r: r('agg.max(n)') - r('agg.min(n)') * 10), ('agg.sum(n) * ln.v + x', lambda r: r('agg.sum(n)') * r('ln.v') + r('x')),
    ('where(agg.count(n) > 0, agg.sum(w), x)', lambda r: iff(r('agg.count(n)') > 0, r('agg.sum(w)'), r('x'))),
    ('where(ln.n > 0, ln.d.u, y)', lambda r: iff(r('ln.n') > 0, r('ln.d.u'), r('y'))),
    ('where(agg.count(n) > 0, agg.first(n + w), y)', lambda r: iff(r('agg.count(n)') > 0, r('agg.first(n + w)'), r('y')))]


def compare(ctx, w, text, f, s, index):
    check_series(ctx, s, index, w.rows(f), text)


def h_expr(ctx):
    text, f = ctx.choose('expression', EXPRS[ctx.cfg['part']::ctx.cfg['parts']])
    labels = [['r', 's', 'q'], ['r', 'r', 's'], [2, 0, 1]][EXPRS.index((text, f)) % 3]
    w = World(ctx, ctx.cfg['keys'], labels)
    before = {k: values(w.frame[k]) for k in ('x', 'y', 'n', 't')}
    compare(ctx, w, text, f, w.frame.evaluate(text), labels)
    compare(ctx, w, text + ' (again)', f, w.frame.evaluate(text), labels)
    for k, vals in before.items():
        ctx.check(all(same(ctx, p, q) for p, q in zip(values(w.frame[k]), vals)), 'evaluating %s changed the column %s' % (text, k))


def h_combined(ctx):
    """Two expressions in one."""
    c = ctx.cfg
    numeric = [e for e in EXPRS if not any(q in e[0] for q in ('==', '!=', 'not b', ' > y', '< -1', 'I > n', 'ln.n > 7')) or e[0].startswith('where')]
    first = numeric[c['part']::c['parts']]
    second = numeric if c['full'] else [e for e in numeric if 'ln' in e[0] or 'agg' in e[0]][::3]
    t1, f1 = ctx.choose('first', first)
    t2, f2 = ctx.choose('second', second)
    op = ctx.choose('combined', ['+', '*', 'where'] if c['full'] else ['+', 'where'])
    w = World(ctx, c['keys'])
    if op == 'where':
        text, f = 'where(n > 0, %s, %s)' % (t1, t2), lambda r: iff(r('n') > 0, f1(r), f2(r))
    elif op == '+':
        text, f = '%s + (%s)' % (t1, t2), lambda r: f1(r) + f2(r)
    else:
        text, f = '(%s) * (%s)' % (t1, t2), lambda r: f1(r) * f2(r)
    if op == '+' and t1 == '-x' or t1 == '2' and t2 == '2':
        return
    compare(ctx, w, text, f, w.frame.evaluate(text), ['r', 's', 'q'])


def h_types(ctx):
    """Every type of column on both sides of comparisons and in arithmetic."""
    L = ldf()
    kind, vals = ctx.choose('type', [
        ('int8', [1, -7, 100]), ('int16', [1, -700, 30000]), ('int32', [1, -70000, 2000000000]), ('int64', [1, -5, 2 ** 40]), ('uint8', [1, 200, 255]),
        ('uint16', [1, 300, 65535]), ('float32', [0.5, -2.25, 1024.0]), ('float64', [0.1, -0.2, 1e9]), ('bool', [True, False, True]),
        ('Int64', [1, -5, 7]), ('Int8', [1, -5, 7]), ('category int', [3, 4, 3]), ('category float', [0.5, 1.5, 0.5]), ('Int64 missing', [1, None, 7]),
        ('float missing', [1.5, None, 7.0])])
    if kind.startswith('category'):
        col = pd.Categorical(vals)
    else:
        col = pd.array([pd.NA if v is None else v for v in vals], dtype='Int64') if 'Int64' in kind else \
            pd.array(vals, dtype=kind) if kind == 'Int8' else np.array([nan if v is None else v for v in vals], dtype=kind.split()[0] if 'missing' not in kind else 'f8')
    where = ctx.choose('where', ['column', 'link', 'filled link'])
    x = [ctx.real('x%d' % i) for i in range(3)]
    vals = [nan if v is None else v for v in vals]
    if where == 'column':
        a = L({'q': pd.Series(col, index=[0, 1, 2])})
        name = 'q'
    else:
        b = L({'q': pd.Series(col, index=[0, 1, 2])})
        b.index = pd.Index(ctx.keys([5, 6, 7]))
        k = [7, ctx.key('k', 4, 8) if where == 'filled link' else 5, 6]
        a = L({'z': [0, 0, 0]})
        a['key'] = ctx.keys(k)
        a.link_to(b, 'ln', on_self='key')
        name = 'ln.q'
        hits = match(k, [5, 6, 7])
        if kind.startswith('category') and not all(hits) or kind.startswith('Int') and not all(hits):
            return       # the fills of these types are C21's
        fill = nan if 'float' in kind else 0
        vals = [vals[h[0]] if h else fill for h in hits]
    a['x'] = ctx.column(x)
    text, f = ctx.choose('expression', [('%s * 2', lambda q, x: q * 2), ('%s + x', lambda q, x: q + x), ('%s > 1', lambda q, x: q > 1),
                                        ('%s', lambda q, x: q), ('where(%s == 1, x, 0)', lambda q, x: iff(q == 1, x, 0))])
    if text == '%s * 2' and ('int' in kind and 'category' not in kind) and any(abs(v) > 2 ** 29 for v in vals if v == v) or kind == 'bool' and text == '%s * 2':
        return
    got = a.evaluate(text % name)
    want = []
    for q, xi in zip(vals, x):
        if isinstance(q, float) and q != q:
            want.append(nan if text in ('%s * 2', '%s', '%s + x') else f(q, xi))
        else:
            want.append(f(np.float32(q).item() if kind == 'float32' else q, xi))
    check_series(ctx, got, a.index, want, '%s over %s' % (text % name, kind))


def h_out(ctx):
    """Writing into a series."""
    w = World(ctx, 1)
    text, f = ctx.choose('expression', [e for e in EXPRS if e[0] in ('x + y * 2', 'ln.v * x', 'where(b, x, 1)', 'n * m', 'agg.sum(n)', 'n + ln.n * 10 + ln.d.n * 100')])
    symbolic = any(n in text for n in 'xy')
    out = pd.Series(ctx.column([7.0, 7.0, 7.0]) if symbolic else np.full(3, 7.0), index=ctx.choose('labels', [['r', 's', 'q'], [0, 1, 2]]))
    s = w.frame.evaluate(text, out=out)
    compare(ctx, w, text, f, s, ['r', 's', 'q'])
    want = w.rows(f)
    ctx.check(all(same(ctx, p, q) for p, q in zip(values(out), want)), '%s: the output series has %r' % (text, values(out)))
    other = np.full(3, 7, dtype='int64')
    if not symbolic:
        keep = pd.Series(other, index=['r', 's', 'q'])
        w.frame.evaluate(text, out=keep, allow_casting=True)
        ctx.check(all(same(ctx, int(p), q) for p, q in zip(values(keep), want)), '%s: the integer output has %r' % (text, values(keep)))
    else:
        kind, e = outcome(lambda: w.frame.evaluate(text, out=pd.Series(ctx.column([0.0, 0.0]))))
        ctx.check(kind == 'error', '%s was written into a shorter series' % text)


def h_missing(ctx):
    """Missing values stay missing and do not move."""
    L = ldf()
    x = [nan if ctx.flag('x%d missing' % i) else ctx.real('x%d' % i) for i in range(2)]
    y = [ctx.real('y%d' % i) for i in range(2)]
    a = L({'z': [0, 1]}, index=[5, 4])
    a['x'], a['y'] = ctx.column(x), ctx.column(y)
    null = lambda v: isinstance(v, float) and v != v
    text, f = ctx.choose('expression', [
        ('x + y', lambda p, q: nan if null(p) else p + q), ('where(x == x, x, y)', lambda p, q: q if null(p) else p),
        ('x * 0.5', lambda p, q: nan if null(p) else p * 0.5), ('where(z == 1, x, y)', None), ('where(y > 0, y, NaN)', lambda p, q: iff(q > 0, q, nan)),
        ('where(y > 0, y, nan)', lambda p, q: iff(q > 0, q, nan))])
    if f is None:
        want = [y[0], x[1]]
    else:
        want = [f(p, q) for p, q in zip(x, y)]
    kind, s = outcome(lambda: a.evaluate(text))
    if kind == 'error':
        return ctx.check('an' in text.split('y, ')[-1].lower() and s in ('KeyError', 'NameError'), '%s raised %s' % (text, s))
    check_series(ctx, s, a.index, want, text)


def h_names(ctx):
    """Names that are alike: columns equal to links of other frames, prefixes, names numexpr or Python might know."""
    L = ldf()
    names = ['x', 'x_', 'x1', 'xx', '_x', 'X', 'where_', 'e', 'pi', 'sin_x', 'f0', 'link', 'self', 'sum', 'n', 'chain0', 'a0', 'index']
    name = ctx.choose('name', names)
    other = ctx.choose('other', ['x', 'x_x', 'link0', 'index0'])
    if other == name:
        return
    p, q = [ctx.real('p0'), ctx.real('p1')], [ctx.real('q0'), ctx.real('q1')]
    a = L({'key': ctx.keys([1, 2])})
    a[name], a[other] = ctx.column(p), ctx.column(q)
    b = L({'key': ctx.keys([2, 1])})
    v = [ctx.real('v0'), ctx.real('v1')]
    b[name] = ctx.column(v)
    lname = ctx.choose('link', ['to', 'x2', name + '_to'])
    a.link_to(b, lname, on='key')
    text = '%s + %s.%s * 2 + %s' % (name, lname, name, other)
    check_series(ctx, a.evaluate(text), a.index, [p[i] + v[1 - i] * 2 + q[i] for i in (0, 1)], text)


def h_local(ctx):
    """Local names are used next to columns and links, and the dictionary is left alone."""
    w = World(ctx, 1)
    f = ctx.real('f')
    arr = [ctx.real('g%d' % i) for i in range(3)]
    ld = {'f': f if isinstance(f, float) else ctx.arr([f])[0], 'g': ctx.arr(arr)}
    keep = dict(ld)
    s = w.frame.evaluate('x * f + g + ln.v', local_dict=ld)
    check_series(ctx, s, ['r', 's', 'q'], [w.x[i] * f + arr[i] + w.cols['ln.v'][i] for i in range(3)], 'with local names')
    ctx.check(list(ld) == list(keep) and all(ld[k] is keep[k] for k in ld), 'the dictionary was changed')
    kind, e = outcome(lambda: w.frame.evaluate('x * f'))
    ctx.check(kind == 'error', 'a local name is remembered')


def h_unknown(ctx):
    """Names that don't exist are errors, also when a variable of that name exists around the call."""
    w = World(ctx, 1)
    outer = 5.0    # noqa
    text = ctx.choose('text', ['nope', 'x + nope', 'outer', 'nope.v', 'ln.nope', 'agg.nope(n)', 'agg.sum(nope)', 'agg.v', 'ln.d.nope', 'x.v', 'np'])
    kind, e = outcome(lambda: w.frame.evaluate(text))
    ctx.check(kind == 'error', '%s has a value' % text)
    compare(ctx, w, 'x + y * 2', EXPRS[0][1], w.frame.evaluate('x + y * 2'), ['r', 's', 'q'])


def h_after(ctx):
    """After slices, new columns and changed values."""
    w = World(ctx, 1)
    how = ctx.choose('how', ['sliced', 'masked', 'sorted', 'new column', 'changed', 'replaced', 'target changed'])
    rows, f, index = [0, 1, 2], w.frame, ['r', 's', 'q']
    x = list(w.x)
    if how == 'sliced':
        f, rows = f.iloc[::-1], [2, 1, 0]
    elif how == 'masked':
        f, rows = f[f['n'] != -1], [0, 2]
    elif how == 'sorted':
        f, rows = f.sort_values('n'), [1, 2, 0]
    elif how == 'new column':
        f['new'] = ctx.column([ctx.real('new%d' % i) for i in range(3)])
        check_series(ctx, f.evaluate('new + x'), index, [a + b for a, b in zip(values(f['new']), x)], 'a new column')
    elif how == 'changed':
        f['x'] = f['x'] * 2
        x = [v * 2 for v in x]
    elif how == 'replaced':
        f['n'] = [5, 5, 5]
        check_series(ctx, f.evaluate('n * x'), index, [5 * v for v in x], 'a replaced column')
    else:
        b = f.get_link_target('ln')
        b['v'] = b['v'] * 4
        w.cols['ln.v'] = [v * 4 for v in w.cols['ln.v']]
    want = [x[i] * 2 + w.cols['ln.v'][i] + w.cols['agg.sum(n)'][i] for i in rows]
    check_series(ctx, f.evaluate('x * 2 + ln.v + agg.sum(n)'), [index[i] for i in rows], want, how)


def h_wide(ctx):
    """Frames of one and of no rows; many terms."""
    L = ldf()
    n = ctx.choose('rows', [0, 1, 2])
    x = [ctx.real('x%d' % i) for i in range(n)]
    a = L({'n': np.arange(n), 'key': ctx.keys([1, 2][:n])}, index=['r', 's'][:n])
    a['x'] = ctx.column(x) if n else np.zeros(0)
    b = pd.DataFrame({'v': [5.0, 7.0]}, index=pd.Index(ctx.keys([2, 1])))
    a.link_to(b, 'ln', on_self='key')
    check_series(ctx, a.evaluate('x * 2 + n'), a.index, [x[i] * 2 + i for i in range(n)], 'of %d rows' % n)
    check_series(ctx, a.evaluate(' + '.join(['x'] * 9 + ['ln.v'] * 3)), a.index, [x[i] * 9 + (7.0, 5.0)[i] * 3 for i in range(n)], 'many terms')


def h_pivot(ctx):
    """Pivots of columns and lookups equal those of a plain frame with the same columns."""
    c = ctx.cfg
    w = World(ctx, 2 if c['value'] == 'ln.v' and not c['columns'] else 1, real=False)
    f = w.frame
    plain = {'x': w.x, 'y': w.y, 'n': w.n, 'b': w.b, 't': w.t, 'c': pd.Categorical(w.c)}
    for name in ('ln.v', 'ln.n', 'ln.d.n', 'ln.x'):
        plain[name] = w.cols[name]
    for name in ('ln.d.u', 'agg.sum(w)'):
        plain[name] = [nan if v is None else v for v in w.cols[name]]
    plain['n * 2'] = [v * 2 for v in w.n]
    plain['ln.n + n'] = [p + q for p, q in zip(w.cols['ln.n'], w.n)]
    value = {'list': ['x', 'ln.v'], 'computed': 'ln.n + n'}.get(c['value'], c['value'])
    index = ctx.choose('index', ['t', 'b', 'ln.n', ['t', 'b'], ['ln.n', 't'], ['n * 2'], ('t', 'ln.d.n'), None])
    columns = ctx.choose('columns', ['t', 'ln.n', ['b', 'ln.d.n']]) if c['columns'] else None
    if index is None and columns is None:
        return
    names = lambda v: [] if v is None else [v] if isinstance(v, str) else list(v)
    used = names(index) + names(columns)
    if len(set(used)) < len(used):
        return
    kw = ctx.choose('function', [{}, {'aggfunc': 'sum'}, {'aggfunc': 'count'}, {'aggfunc': 'max', 'fill_value': -9}, {'aggfunc': ['min', 'sum']}])
    frame = pd.DataFrame({n: plain[n] for n in names(value) + [u for u in used]}, index=['r', 's', 'q'])
    aslist = lambda v: list(v) if isinstance(v, tuple) else v
    kind, want = outcome(lambda: frame.pivot_table(values=value, index=aslist(index), columns=aslist(columns), **kw))
    k2, got = outcome(lambda: f.pivot_table(values=value, index=aslist(index) if not isinstance(index, tuple) else list(index), columns=columns, **kw))
    ctx.check(kind == k2, 'the pivot of %s by %s and %s gave %s instead of %s' % (value, index, columns, got if k2 == 'error' else 'a table', want if kind == 'error' else 'a table'))
    if kind == 'ok':
        ctx.check(tables_equal(got, want), 'the pivot of %s by %s and %s is\n%s\ninstead of\n%s' % (value, index, columns, got, want))


def tables_equal(a, b):
    if a.shape != b.shape or list(a.index) != list(b.index) or list(a.columns) != list(b.columns):
        return False
    for p, q in zip(np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()):
        np_, nq = p is None or p != p, q is None or q != q
        if np_ or nq:
            if np_ != nq:
                return False
        elif abs(float(p) - float(q)) > 1e-9:
            return False
    return True


def h_pivot_symbolic(ctx):
    """Sums and means of symbolic values by looked-up groups."""
    L = ldf()
    k = [ctx.key('k%d' % i, 0, 5) for i in range(3)]
    x = [ctx.real('x%d' % i) for i in range(3)]
    a = L({'key': ctx.keys(k), 'g': [1, 2, 1]}, index=[9, 8, 7])
    a['x'] = ctx.column(x)
    b = L({'zone': [10, 20]}, index=pd.Index(ctx.keys([2, 4])))
    a.link_to(b, 'ln', on_self='key')
    how = ctx.choose('function', ['sum', 'first', 'last'])
    t = a.pivot_table(values='x', index='ln.zone', aggfunc=how)
    zones = [(10, 20)[h[0]] if h else 0 for h in match(k, [2, 4])]
    ctx.check(list(t.index) == sorted(set(zones)), 'the rows of the pivot are %s' % list(t.index))
    for z in sorted(set(zones)):
        xs = [x[i] for i in range(3) if zones[i] == z]
        want = sum(xs, 0.0) if how == 'sum' else xs[0 if how == 'first' else -1]
        ctx.check(same(ctx, t.loc[z].iat[0], want), 'the %s of zone %s is %r' % (how, z, t.loc[z].iat[0]))


def h_text(ctx):
    """Text columns and categories of any lengths compare as their values do."""
    L = ldf()
    vals = ctx.choose('values', [['longest', 'tiny', 'z'], ['a', 'bb', 'ccc'], ['ab', 'abc', 'a'], ['x', 'x', 'x'], ['', 'a', ''], ['b', 'a', 'ab'],
                                 ['Z', 'z', 'zZ']])
    kind = ctx.choose('kind', ['text', 'category', 'reversed', 'unused', 'ordered'])
    other = vals[1:] + vals[:1]
    if kind == 'text':
        col = np.array(vals, dtype=object)
    else:
        cats = sorted(set(vals), reverse=kind == 'reversed') + (['an unused one'] if kind == 'unused' else [])
        if kind == 'unused':
            cats = cats[-1:] + cats[:-1]
        col = pd.Categorical(vals, categories=cats, ordered=kind == 'ordered')
    x = [ctx.real('x%d' % i) for i in range(3)]
    where = ctx.choose('where', ['column', 'link'])
    a = L({'q': pd.Series(col)})
    name = 'q'
    if where == 'link':
        b = a
        b.index = pd.Index(ctx.keys([5, 6, 7]))
        k = [ctx.key('k', 5, 7), 7, 6]
        a = L({'z': [0, 0, 0]})
        a['key'] = ctx.keys(k)
        a.link_to(b, 'ln', on_self='key')
        name = 'ln.q'
        vals = [vals[h[0]] for h in match(k, [5, 6, 7])]
    a['x'] = ctx.column(x)
    a['p'] = np.array(other, dtype=object)
    lit = ctx.choose('literal', sorted({'longest', 'a', 'ab', 'z', '', 'none'} | set(vals)))
    op = ctx.choose('op', ['==', '!=', '< column'])
    if op == '< column':
        got = a.evaluate('%s == p' % name)
        want = [v == o for v, o in zip(vals, other)]
    else:
        got = a.evaluate("where(%s %s '%s', x, 1)" % (name, op, lit))
        want = [xi if (v == lit) == (op == '==') else 1.0 for v, xi in zip(vals, x)]
    check_series(ctx, got, a.index, want, "%s %s '%s' of %s" % (name, op, lit, kind))


ALIKE = [
    ('x * 2 + X', lambda r: r['x'] * 2 + r['X']), ('X * 2 + x', lambda r: r['X'] * 2 + r['x']), ('x*2+x', lambda r: r['x'] * 3),
    ('x * 20 + X', lambda r: r['x'] * 20 + r['X']), ("where(q == 'a b', x, 1)", lambda r: iff(r['q'] == 'a b', r['x'], 1)),
    ("where(q == 'ab', x, 1)", lambda r: iff(r['q'] == 'ab', r['x'], 1)), ("where(q == 'A B', x, 1)", lambda r: iff(r['q'] == 'A B', r['x'], 1)),
    ('ln.v + x', lambda r: r['ln.v'] + r['x']), ('ln.V + x', lambda r: r['ln.V'] + r['x']), ('Ln.v + x', lambda r: r['Ln.v'] + r['x']),
    ('where(agg.sum(n) > 2, x, X)', lambda r: iff(r['sum'] > 2, r['x'], r['X'])), ('where(agg.sum(n*2) > 2, x, X)', lambda r: iff(r['sum'] * 2 > 2, r['x'], r['X']))]


def h_alike(ctx):
    """Expressions that are nearly the same, and the same expression over frames that are nearly the same, one after the other."""
    L = ldf()

    def frame(tag, kind):
        x, X, v, V = ([ctx.real('%s%s%d' % (tag, n, i)) for i in range(2)] for n in ('x', 'X', 'v', 'V'))
        q = ['A B', 'ab'] if kind else ['ab', 'a b']
        f = L({'q': pd.Categorical(q) if kind else np.array(q, dtype=object), 'key': ctx.keys([1, 2] if kind else [2, 1])}, index=['r', 's'])
        f['x'], f['X'] = ctx.column(x), ctx.column(X)
        b, c = L({'key': ctx.keys([2, 1])}), L({'key': ctx.keys([1, 2])})
        b['v'], b['V'], c['v'] = ctx.column(v), ctx.column(V), ctx.column(V)
        f.link_to(b, 'ln', on='key')
        f.link_to(c, 'Ln', on='key')
        e = L({'key': ctx.keys([1, 1, 2]), 'n': [1, 1, 1 if kind else 3]})
        f.link_to(e, 'agg', on='key')
        rows = []
        for i in range(2):
            k = (1, 2)[i] if kind else (2, 1)[i]
            rows.append({'x': x[i], 'X': X[i], 'q': q[i], 'ln.v': v[2 - k], 'ln.V': V[2 - k], 'Ln.v': V[k - 1], 'sum': {1: 2, 2: 1 if kind else 3}[k]})
        return f, rows

    frames = [frame('a', 0), frame('b', 1)]
    first = ALIKE[ctx.cfg['first']]
    second = ctx.choose('second', ALIKE)
    i, j = ctx.choose('frames', [(0, 0), (0, 1), (1, 1), (1, 0)])
    for (text, f), k in ((first, i), (second, j), (first, i), (first, j)):
        check_series(ctx, frames[k][0].evaluate(text), ['r', 's'], [f(r) for r in frames[k][1]], '%s of frame %d' % (text, k))


def h_long(ctx):
    """Many rows: one unusual cell anywhere."""
    c = ctx.cfg
    n, part, L = c['n'], c['part'], ldf()
    at = ctx.choose('unusual row', [0, 1, 17, 64, 128, n // 2, n - 2, n - 1])
    x = [ctx.real('x%d' % i) if i in (0, at, n - 1) else float(i % 7) for i in range(n)]
    df = L({'n': np.arange(n) % 5, 'key': (np.arange(n) * 37) % 50})
    df['x'] = ctx.column(x)
    odd = 'a much longer text than the others'
    t = [('a', 'bb')[i % 2] if i != at else odd for i in range(n)]
    if part == 'number':
        big = [i % 3 if i != at else 2 ** 40 for i in range(n)]
        df['big'] = big
        for text, f in (('big > 5', lambda i: big[i] > 5), ('x + big', lambda i: x[i] + big[i]), ('where(big == 1, x, n)', lambda i: x[i] if big[i] == 1 else i % 5),
                        ('big * 2 + n', lambda i: big[i] * 2 + i % 5)):
            check_series(ctx, df.evaluate(text), df.index, [f(i) for i in range(n)], text)
        return
    if part == 'link':
        tt = [('a', 'bb')[i % 2] if i != at % 40 else odd for i in range(40)]
        w = [ctx.real('w%d' % i) if i in (3, 39) else i * 2.0 for i in range(40)]
        o = L({'t': tt}, index=pd.Index(np.arange(40)[::-1]))
        o['w'] = ctx.column(w)
        o.set_column_fill('w', 0.0)
        df.link_to(o, 'ln', on_self='key')
        row = [39 - k if k < 40 else None for k in (np.arange(n) * 37) % 50]
        ot = [tt[r] if r is not None else '' for r in row]
        ow = [w[r] if r is not None else 0.0 for r in row]
        for text, f in (("ln.t == '%s'" % odd, lambda i: ot[i] == odd), ('x + ln.w', lambda i: x[i] + ow[i]), ("where(ln.t == 'a', ln.w, n)", lambda i: ow[i] if ot[i] == 'a' else i % 5)):
            check_series(ctx, df.evaluate(text), df.index, [f(i) for i in range(n)], text)
        return
    df['t'] = t if part == 'text' else pd.Categorical(t)
    df['s'] = [('bb', 'a')[i % 3 > 0] if i != at else odd for i in range(n)]
    s = list(df['s'])
    for text, f in (("t == '%s'" % odd, lambda i: t[i] == odd), ("t == '%s'" % odd[:2], lambda i: t[i] == odd[:2]), ('t == s', lambda i: t[i] == s[i]),
                    ("where(t == 'bb', x, n)", lambda i: x[i] if t[i] == 'bb' else i % 5), ("(t != 'a') & (n > 1)", lambda i: t[i] != 'a' and i % 5 > 1)):
        check_series(ctx, df.evaluate(text), df.index, [f(i) for i in range(n)], text)
