"""C19: slicing or reordering rows commutes with link lookups."""
from .common import *
from .links import *

NUMBA = False
BOUNDS = {
    'quick': 'frames of 3 rows, two of whose keys are any integers, with links by column, by index, by a level, by two columns, chained, '
             'aggregated and to an empty frame; every one of %d row operations, and every sequence of two of %d of them on links by column, '
             'by index and aggregated; null keys; attribute values any real; index pre-computed, computed before or after the operation; '
             'every pattern of positions, and 300 rows of which a few are symbolic',
    'thorough': 'as quick with three free keys, sequences of two operations on every kind of link, of three on links by column'}
ASSUME = ['sampling is seeded: it selects fixed positions', 'rows added by reindex, and links after columns change type, are not claimed']
nan = float('nan')


def some(f, *pos):
    """Positions that exist in f"""
    return [p for p in pos if -len(f) <= p < len(f)]


def mask(f):
    return np.array([i % 2 == 0 for i in range(len(f))], dtype=bool)


def labels(f, *pos):
    return [f.index[p] for p in some(f, *pos)]


def unique(f):
    return f.index.is_unique


def groups(f, **kw):
    return [g for _, g in f.groupby('grp', **kw)]


def inplace(name, *a, **k):
    def op(f):
        f = f.copy()
        getattr(f, name)(*a, inplace=True, **k)
        return f
    return op


def positions(f, pos):
    out = np.zeros(len(f), dtype=bool)
    out[some(f, *pos)] = True
    return out


def by_label(f, pos):
    ls = labels(f, *pos)
    return f.loc[ls]


# operations which keep every row's data together; the value is a frame or a list of frames
ROWS = {
    'iloc slice': lambda f: f.iloc[1:], 'iloc reversed': lambda f: f.iloc[::-1], 'iloc list': lambda f: f.iloc[some(f, 2, 0)],
    'iloc negative': lambda f: f.iloc[some(f, -1, 0)], 'iloc repeated': lambda f: f.iloc[some(f, 1, 1, 0)],
    'iloc mask': lambda f: f.iloc[mask(f)], 'iloc columns': lambda f: f.iloc[1:, :], 'iloc array': lambda f: f.iloc[np.array(some(f, 1, 0), dtype=int)],
    'mask': lambda f: f[mask(f)], 'series mask': lambda f: f[f['w'] > 1], 'loc mask': lambda f: f.loc[~mask(f)],
    'loc series mask': lambda f: f.loc[f['w'] < 2], 'slice': lambda f: f[:2], 'slice step': lambda f: f[::2],
    'loc all': lambda f: f.loc[:], 'loc labels': lambda f: by_label(f, (1, 0)), 'loc one': lambda f: by_label(f, (-1,)),
    'loc labels and columns': lambda f: f.loc[mask(f), ['row', 'key', 'key2', 'w', 'grp']],
    'head': lambda f: f.head(2), 'head minus': lambda f: f.head(-1), 'tail': lambda f: f.tail(2), 'tail one': lambda f: f.tail(1),
    'take': lambda f: f.take(some(f, 1, 2)), 'take negative': lambda f: f.take(some(f, -1, -2)),
    'sample': lambda f: f.sample(n=min(2, len(f)), random_state=3), 'shuffle': lambda f: f.sample(frac=1, random_state=1),
    'sample replace': lambda f: f.sample(n=4, replace=True, random_state=2) if len(f) else f,
    'drop first': lambda f: f.drop(labels(f, 0)), 'drop index': lambda f: f.drop(index=labels(f, 1)),
    'sort values': lambda f: f.sort_values('w'), 'sort values down': lambda f: f.sort_values(['grp', 'w'], ascending=False),
    'sort index': lambda f: f.sort_index(), 'sort index down': lambda f: f.sort_index(ascending=False),
    'query': lambda f: f.query('w >= 1'), 'nlargest': lambda f: f.nlargest(2, 'w'), 'nsmallest': lambda f: f.nsmallest(2, 'w'),
    'nlargest two': lambda f: f.nlargest(2, ['grp', 'w']), 'nsmallest two': lambda f: f.nsmallest(3, ['grp', 'w']), 'largest sorted': lambda f: f.nlargest(3, 'w').sort_index(),
    'drop duplicates': lambda f: f.drop_duplicates('grp'), 'drop duplicates last': lambda f: f.drop_duplicates(['grp'], keep='last'),
    'dropna': lambda f: f.dropna(subset=['w']), 'copy': lambda f: f.copy(), 'deep copy': lambda f: f.copy(deep=True),
    'groups': groups, 'groups unsorted': lambda f: groups(f, sort=False),
    'get_group': lambda f: f.groupby('grp').get_group(f['grp'].iat[0]) if len(f) else f,
    'group head': lambda f: f.groupby('grp').head(1), 'group nth': lambda f: f.groupby('grp', as_index=False).tail(1),
    'assign': lambda f: f.assign(new=f['w'] * 2), 'select columns': lambda f: f[['row', 'key', 'key2', 'w', 'grp']],
    'drop column': lambda f: f.drop(columns='extra', errors='ignore'), 'rename column': lambda f: f.rename(columns={'extra': 'other'}),
    'sort in place': inplace('sort_values', 'w', ascending=False), 'sort index in place': inplace('sort_index', ascending=False),
    'filter': lambda f: f.filter(items=['row', 'key', 'key2', 'w', 'grp']), 'pipe': lambda f: f.pipe(lambda g: g.iloc[1:]),
    'fillna': lambda f: f.fillna({'extra': 0.0}), 'add column': lambda f: added(f),
    'drop duplicates in place': inplace('drop_duplicates', 'grp'), 'query in place': inplace('query', 'w >= 1'),
    'dropna in place': inplace('dropna', subset=['extra']),
    'reindex': lambda f: f.reindex(labels(f, 2, 0)) if unique(f) else f.copy(), 'reindex all': lambda f: f.reindex(f.index[::-1]) if unique(f) else f.copy(),
    'reindex columns': lambda f: f.reindex(columns=['grp', 'w', 'key', 'key2', 'row']),
    'swap': lambda f: f.reindex_like(f.iloc[::-1]) if unique(f) else f.copy(),
}
# operations which change labels or columns: links are kept, or absent
OTHER = {
    'reset_index drop': lambda f: f.reset_index(drop=True), 'reset_index': lambda f: f.reset_index(),
    'ignore_index sort': lambda f: f.sort_values('w', ascending=False, ignore_index=True),
    'ignore_index sort index': lambda f: f.sort_index(ascending=False, ignore_index=True),
    'ignore_index drop_duplicates': lambda f: f.drop_duplicates('grp', ignore_index=True, keep='last'),
    'ignore_index sample': lambda f: f.sample(frac=1, random_state=1, ignore_index=True),
    'set_index': lambda f: f.set_index('w'), 'set_index key': lambda f: f.set_index('key'),
    'drop key': lambda f: f.drop(columns='key', errors='ignore'), 'without key': lambda f: f[['row', 'w', 'grp']],
    'rename key': lambda f: f.rename(columns={'key': 'was'}), 'concat': lambda f: pd.concat([f, f.iloc[:1]]),
    'concat same': lambda f: pd.concat([f]), 'append': lambda f: f.append(f.iloc[::-1]), 'astype': lambda f: f.astype({'w': 'float32'}),
    'merge': lambda f: f.merge(pd.DataFrame({'grp': [1, 0], 'q': [5, 6]}), on='grp'),
    'join': lambda f: f.join(pd.DataFrame({'q': [5, 6]}), on='grp'), 'transposed': lambda f: f.iloc[::-1].T.T,
    'repeat': lambda f: f.loc[f.index.repeat(2)] if unique(f) else f.copy(), 'applied': lambda f: f.groupby('grp', group_keys=False).apply(lambda g: g.iloc[:1]),
    'applied all': lambda f: f.groupby('grp', group_keys=False).apply(lambda g: g),
    'reset in place': inplace('reset_index', drop=True), 'sort in place ignore': inplace('sort_values', 'w', ascending=False, ignore_index=True),
    'replace': lambda f: f.replace({'grp': {0: 7}}), 'rename_axis': lambda f: f.rename_axis('name') if f.index.nlevels == 1 else f.rename_axis(['n1', 'n2']),
    'add_prefix': lambda f: f.add_prefix('p_').rename(columns={'p_row': 'row', 'p_grp': 'grp', 'p_w': 'w'}),
    'explode': lambda f: f.assign(lst=[[1, 2]] * len(f)).explode('lst'), 'convert': lambda f: f.convert_dtypes(),
    'where': lambda f: f.where(f['w'] > 1).dropna(subset=['w']), 'mask method': lambda f: f.mask(f['w'] > 1).dropna(subset=['w']),
    'update': lambda f: updated(f),
}
OPS = dict(ROWS, **OTHER)
LINKS = ['column', 'index', 'named index', 'level', 'two columns', 'chained', 'aggregated', 'aggregated index', 'empty target']


def added(f):
    f = f.copy()
    f['more'] = 1.0
    return f


def updated(f):
    f = f.copy()
    f.update(pd.DataFrame({'extra': [9.0] * len(f)}, index=f.index) if unique(f) else pd.DataFrame({'extra': []}))
    return f


CORE = ['iloc slice', 'iloc list', 'iloc repeated', 'mask', 'loc labels', 'head', 'take negative', 'sample', 'drop first', 'sort values', 'nlargest',
        'sort index in place', 'query', 'drop duplicates', 'copy', 'groups', 'assign', 'reindex', 'reindex all', 'select columns', 'loc all',
        'reset_index drop', 'concat']

BOUNDS['quick'] %= len(OPS), len(CORE)


def jobs(tier):
    big = tier == 'thorough'
    out = []
    for link in LINKS:
        parts = (4 if link == 'column' else 2) * (2 if big else 1)
        for part in range(parts):
            out.append(('h_one', dict(link=link, rows=3, part=part, parts=parts, free=3 if big else 2)))
    for link in (LINKS if big else ['column', 'index', 'aggregated']):
        for part in range(12 if big else 3):
            out.append(('h_two', dict(link=link, part=part, parts=12 if big else 3, full=big, free=2 if big else 1)))
    if big:
        out += [('h_three', dict(link='column', part=p, parts=22, free=1)) for p in range(22)]
    out += [('h_original', dict(link=k, free=2)) for k in ('column', 'index')]
    out += [('h_several', {}), ('h_groups', dict(free=2)), ('h_lost', dict(free=2))]
    out += [('h_new_rows', {'link': k, 'free': 2, 'all match': True}) for k in LINKS if k != 'level']
    out += [('h_positions', dict(link=k, n=n, how=h)) for k in ('column', 'index', 'aggregated') for n in ((4,) if not big else (4, 5))
            for h in WAYS]
    out += [('h_long', dict(n=n, link=k)) for n in ((300,) if not big else (300, 3000)) for k in ('column', 'index', 'aggregated')]
    return out


class Case:
    """A linked frame whose column 'row' says which row of the first frame a row comes from."""

    def __init__(self, ctx, link, n, simple=False):
        self.ctx, self.link = ctx, link
        L = ldf()
        nulls = 0 if link in ('index', 'named index', 'level', 'aggregated', 'aggregated index') else 1
        # `free` keys are any integer, the others fixed
        rest = [2, 4, 3] if not nulls else [2, 4, None]
        if ctx.cfg.get('all match') and ctx.flag('all rows match'):
            rest[2] = 4 if link in ('level', 'index', 'named index') else 2
        free = ctx.cfg.get('free', 2)
        keys = some_keys(ctx, 'k', free, nulls if free == 3 else 0, hi=5)
        keys += rest[:3][len(keys):]
        second = [(3 * i) % 2 for i in range(n)]
        if link in ('aggregated', 'aggregated index'):
            ctx.distinct([k for k in keys if k is not None])
        data = {'row': np.arange(n), 'w': np.array([2.0, 0.0, 1.0, 3.0][:n]), 'grp': np.array([1, 0, 1, 0][:n]), 'extra': np.arange(n) * 0.5}
        self.names = ['ln']
        if link in ('index', 'aggregated index'):
            index = pd.Index(ctx.keys(keys))
        elif link == 'named index':
            index = pd.Index(ctx.keys(keys), name='id')
        elif link == 'level':
            index = pd.MultiIndex.from_arrays([[5, 4, 6, 3][:n], ctx.keys(keys)], names=['no', 'id'])
        else:
            shape = 'text' if simple or link != 'column' else ctx.choose('labels', ['text', 'repeated', 'numbers', 'range'])
            index = {'text': list('cabd'), 'repeated': list('abab'), 'numbers': [20, 10, 30, 0], 'range': range(4)}[shape][:n]
        a = L(data, index=index)
        a['key'] = ctx.keys(keys)
        a['key2'] = second
        others = [2, 4, None] if link not in ('level', 'two columns') else [2, 4]
        if link == 'empty target':
            others = []
        if link.startswith('aggregated'):
            others = [2, 4, 2, None]
        v = [ctx.real('v%d' % i) for i in range(len(others))]
        b = L({'z': np.zeros(len(others))})
        b['v'] = ctx.column(v) if v else np.zeros(0)
        b['key'] = ctx.keys(others)
        hits = match(keys, others)
        when = 'now' if simple else ctx.choose('computed', ['now', 'before', 'after'])
        pre = when == 'now'
        self.get = lambda f: f['ln']['v']
        if link == 'two columns':
            b['key2'] = [1, 0]
            hits = match(list(zip(keys, second)), [(2, 1), (4, 0)])
            a.link_to(b, 'ln', on=['key', 'key2'], precompute=pre)
        elif link in ('index', 'aggregated index'):
            a.link_to(b, 'ln', on_other='key', precompute=pre)
        elif link in ('named index', 'level'):
            a.link_to(b, 'ln', self_levels='id', on_other='key', precompute=pre)
        else:
            a.link_to(b, 'ln', on='key', precompute=pre)
        self.want = [v[h[0]] if h else nan for h in hits]
        if link.startswith('aggregated'):
            self.get = lambda f: f['ln'].sum('v')
            self.want = [sum((v[j] for j in h), 0.0) if h else nan for h in hits]
        if link == 'chained':
            d = pd.DataFrame({'key': ctx.keys([7, 8])})
            d['v'] = ctx.column([ctx.real('d0'), ctx.real('d1')])
            b['to'] = ctx.keys([8, 7, 8])
            b.link_to(d, 'd', on_self='to', on_other='key', precompute=pre)
            self.get = lambda f: f['ln']['d']['v']
            dv = values(d['v'])
            self.want = [dv[(1, 0, 1)[h[0]]] if h else nan for h in hits]
        self.frame, self.n = a, n
        self.index = list(a.index)
        if when == 'before':
            self.check(a, 'the frame itself', True)

    def check(self, f, what, must):
        ctx = self.ctx
        if not isinstance(f, ldf()):
            return ctx.check(not must, '%s: the result is a %s' % (what, type(f).__name__))
        if not has_link(f, 'ln'):
            return ctx.check(not must, '%s: the link is lost' % what)
        rows = list(f['row'])
        s = self.get(f)
        check_series(ctx, s, f.index, [self.want[int(r)] for r in rows], what)

    def original(self, what):
        check_series(self.ctx, self.get(self.frame), self.index, self.want, 'the first frame after %s' % what)
        self.ctx.check(list(self.frame['row']) == list(range(self.n)), 'the rows of the first frame changed')
        self.ctx.check(has_link(self.frame, 'ln') and not has_link(self.frame, 'new'), 'the links of the first frame changed')


def apply(ctx, case, f, name):
    """The frames after an operation (None: pandas itself refuses it)."""
    try:
        r = OPS[name](f)
    except (KeyError, ValueError, TypeError, IndexError) as e:
        plain = pd.DataFrame(f)
        try:
            OPS[name](plain)
        except Exception:
            return []
        raise
    return r if isinstance(r, list) else [r]


def part(cfg, names=OPS):
    names = sorted(names)
    return names[cfg['part']::cfg['parts']]


def h_one(ctx):
    case = Case(ctx, ctx.cfg['link'], ctx.cfg['rows'])
    name = ctx.choose('operation', part(ctx.cfg))
    for f in apply(ctx, case, case.frame, name):
        case.check(f, name, name in ROWS)
        case.check(f, name + ' (again)', name in ROWS)
    case.original(name)


def usable(f):
    return isinstance(f, ldf()) and f.columns.nlevels == 1 and {'row', 'w', 'grp', 'key'} <= set(f.columns)


def h_two(ctx):
    c = ctx.cfg
    case = Case(ctx, c['link'], 3, simple=True)
    first = ctx.choose('first', part(c, OPS if c['full'] else CORE))
    second = ctx.choose('second', sorted(CORE))
    between = ctx.flag('lookup between')
    for f in apply(ctx, case, case.frame, first):
        if between:
            case.check(f, first, first in ROWS)
        if usable(f):
            for g in apply(ctx, case, f, second):
                case.check(g, '%s, %s' % (first, second), first in ROWS and second in ROWS)
            if not between:
                case.check(f, first, first in ROWS)
    case.original('%s, %s' % (first, second))


def h_three(ctx):
    case = Case(ctx, ctx.cfg['link'], 3, simple=True)
    names = [ctx.choose('first', part(ctx.cfg, CORE)), ctx.choose('second', sorted(CORE)), ctx.choose('third', sorted(CORE))]
    frames = [case.frame]
    for name in names:
        frames = [g for f in frames if usable(f) for g in apply(ctx, case, f, name)]
    for f in frames:
        case.check(f, ', '.join(names), all(n in ROWS for n in names))
    case.original(', '.join(names))


def h_original(ctx):
    """Slices are independent of the frame: their links are their own."""
    case = Case(ctx, ctx.cfg['link'], 3, simple=True)
    L = ldf()
    f = OPS[ctx.choose('operation', ['copy', 'deep copy', 'iloc slice', 'iloc reversed', 'mask', 'head', 'sort values', 'reindex',
                                     'groups', 'take', 'sort in place', 'select columns'])](case.frame)
    f = f[-1] if isinstance(f, list) else f
    what = ctx.choose('then', ['link added', 'link replaced', 'column dropped', 'recomputed', 'column fill', 'fill'])
    c = pd.DataFrame({'key': ctx.keys([2, 4]), 'v': [50.0, 60.0]})
    if what == 'link added':
        f.link_to(c, 'new', on='key')
        ctx.check(has_link(f, 'new') and not has_link(case.frame, 'new'), 'a link of a slice is in the frame')
    elif what == 'link replaced':
        f.link_to(c, 'ln', on='key')
        got = values(f.ln.v)
        for g, k in zip(got, list(f['key'])):
            ctx.check(same(ctx, g, 50.0 if bool(k == 2) else 60.0 if bool(k == 4) else nan) if k is not None else same(ctx, g, nan), 'the new link')
        return case.original('a new link of the same name in a slice')
    elif what == 'column dropped':
        f.drop(columns='key', inplace=True)
        return case.original('a column was dropped from a slice')
    elif what == 'recomputed':
        f.compute_indexers()
    elif what == 'fill':
        f.set_fill_defaults(FLOAT_NAME=5.0)
    else:
        f.set_column_fill('w', 5.0)
    case.check(f, 'the slice', True)
    case.original(what)


def h_several(ctx):
    """Several links of one frame keep to their own rows."""
    L = ldf()
    k = [4, ctx.key('k1', 0, 5), None]
    q = [ctx.key('q0', 0, 5), 3, 2]
    ctx.distinct(q)
    a = L({'row': [0, 1, 2], 'w': [2.0, 0.0, 1.0], 'grp': [1, 0, 1], 'key': ctx.keys(k), 'key2': [0, 1, 0], 'extra': [0.0, 1.0, 2.0]},
          index=pd.Index(ctx.keys(q), name='id'))
    b = L({'z': [0, 0]}, index=pd.Index(ctx.keys([2, 4])))
    v = [ctx.real('v0'), ctx.real('v1')]
    b['v'] = ctx.column(v)
    c = pd.DataFrame({'key': ctx.keys([2, 2, 3])})
    w = [ctx.real('w%d' % i) for i in range(3)]
    c['w'] = ctx.column(w)
    a.link_to(b, 'one', on_self='key', precompute=ctx.flag('precompute'))
    a.link_to(c, 'many', on_other='key')
    one = [v[h[0]] if h else nan for h in match(k, [2, 4])]
    many = [sum((w[j] for j in h), 0.0) if h else nan for h in match(q, [2, 2, 3])]
    name = ctx.choose('operation', sorted(OPS))
    for f in apply(ctx, None, a, name):
        if not isinstance(f, L):
            continue
        rows = [int(r) for r in f['row']]
        for link, want, get in (('one', one, lambda f: f['one']['v']), ('many', many, lambda f: f['many'].sum('w'))):
            if has_link(f, link):
                check_series(ctx, get(f), f.index, [want[r] for r in rows], '%s after %s' % (link, name))
            else:
                ctx.check(name not in ROWS, '%s: the link %s is lost' % (name, link))
    check_series(ctx, a.one.v, a.index, one, 'one')
    check_series(ctx, a.many.sum('w'), a.index, many, 'many')


def h_groups(ctx):
    """Grouping by columns, arrays, levels and lookups; groups of groups."""
    case = Case(ctx, ctx.choose('link', ['column', 'index', 'aggregated index']), 3, simple=True)
    f = case.frame
    by = ctx.choose('by', ['grp', 'two', 'array', 'series', 'function', 'sliced'])
    if by == 'grp':
        g = f.groupby('grp', as_index=False)
    elif by == 'two':
        g = f.groupby(['grp', 'w'])
    elif by == 'array':
        g = f.groupby(np.array([5, 5, 6]))
    elif by == 'series':
        g = f.groupby(f['w'] > 0)
    elif by == 'function':
        g = f.reset_index(drop=True).groupby(lambda i: i % 2)
    else:
        g = f.iloc[::-1].groupby('grp')
    seen = []
    for name, sub in g:
        case.check(sub, 'a group by %s' % by, by != 'function')
        seen += list(sub['row'])
    ctx.check(sorted(seen) == [0, 1, 2], 'the groups have the rows %s' % seen)
    got = g.apply(lambda s: case.get(s).iloc[0] if has_link(s, 'ln') else 0.0)
    ctx.check(len(got) == len(list(g)), 'one value for each group')
    case.original('groupby')


def h_lost(ctx):
    """Links whose columns or labels are gone are absent: reading them is an error or a column."""
    case = Case(ctx, 'column', 3, simple=True)
    f = case.frame[['row', 'w', 'grp']]
    if has_link(f, 'ln'):
        case.check(f, 'without the key column', True)
    else:
        kind, e = outcome(lambda: f['ln'])
        ctx.check(kind == 'error' and e == 'KeyError', 'a lost link gave %s' % (e,))
        kind, e = outcome(lambda: f.ln)
        ctx.check(kind == 'error' and e == 'AttributeError', 'a lost link gave %s' % (e,))
        ctx.check('ln' not in dir(f), 'a lost link is listed')
        ctx.check(len(f.link_summary()) == 0, 'a lost link is summarised')
    case.original('columns were left out')


def h_new_rows(ctx):
    """Rows which are added have nothing to do with the links of other rows."""
    case = Case(ctx, ctx.cfg['link'], 3)
    f = case.frame
    if not unique(f):
        return ctx.check(True)
    text = isinstance(f.index[0], str)
    new = ['y', 'z'] if text else list(ctx.keys([77, 88]))
    name = ctx.choose('operation', ['one more', 'first', 'only new', 'two', 'copy first'])
    if name == 'copy first':
        f = f.iloc[::-1]
    old = [f.index[p] for p in (2, 0)]
    if ctx.flag('the link was read before'):
        case.get(f)
    r = f.reindex({'one more': old + new[:1], 'first': new[:1] + old, 'only new': new, 'two': old[:1] + new, 'copy first': old + new}[name])
    if not isinstance(r, ldf()) or not has_link(r, 'ln'):
        return ctx.check(True)
    want = [nan if isinstance(x, float) and x != x else case.want[int(x)] for x in r['row']]
    if case.link == 'chained':
        want = [w for w in want]
    check_series(ctx, case.get(r), r.index, want, 'reindex: %s' % name)
    case.original('reindex: ' + name)


# ways to pick the rows at some positions, in that order
WAYS = {
    'take': lambda f, p: f.take(p), 'iloc list': lambda f, p: f.iloc[p], 'iloc array': lambda f, p: f.iloc[np.array(p, dtype=int)],
    'loc labels': lambda f, p: f.loc[[f.index[i] for i in p]], 'reindex': lambda f, p: f.reindex([f.index[i] for i in p]),
    'mask': lambda f, p: f[np.isin(np.arange(len(f)), p)], 'loc mask': lambda f, p: f.loc[np.isin(np.arange(len(f)), p)],
    'iloc slice': lambda f, p: f.iloc[p[0]:p[-1] + 1:max(1, p[1] - p[0]) if len(p) > 1 else 1],
    'take negative': lambda f, p: f.take([i - len(f) for i in p]), 'take twice': lambda f, p: f.take(p).take(list(range(len(p)))[::-1]),
    'sort': lambda f, p: f.sort_values('w'), 'drop': lambda f, p: f.drop([f.index[i] for i in p]),
    'boolean series': lambda f, p: f[f['w'].isin(list(f['w'].iloc[p]))],
}


def plain(ctx, n, link, keys, others, free=()):
    """A frame of n rows with any values of the linked rows; the value each row should show."""
    L = ldf()
    v = [ctx.real('v%d' % i) if not free or i in free else float(i) for i in range(len(others))]
    as_keys = ctx.keys if isinstance(keys, list) else np.asarray
    b = pd.DataFrame({'key': as_keys(others)})
    b['v'] = ctx.column(v)
    rng = np.random.RandomState(4)
    a = L({'row': np.arange(n), 'w': rng.permutation(n) * 1.0, 'grp': np.arange(n) % 3, 'key2': 0},
          index=[1000 + 7 * i for i in range(n)] if link != 'index' else pd.Index(as_keys(keys)))
    a['key'] = as_keys(keys)
    if link == 'index':
        a.link_to(b, 'ln', on_other='key')
    else:
        a.link_to(b, 'ln', on='key')
    where = {}
    for j, k in enumerate(others):
        where.setdefault(k, []).append(j)
    if link == 'aggregated':
        return a, (lambda f: f['ln'].sum('v')), [add(v[j] for j in where[k]) if k in where else nan for k in keys]
    return a, (lambda f: f['ln']['v']), [v[where[k][0]] if k in where else nan for k in keys]


def h_positions(ctx):
    """Any rows, in any order: every way of picking them."""
    c = ctx.cfg
    n, link, how = c['n'], c['link'], c['how']
    keys = [3, 1, 9, 2, 4][:n]
    a, get, want = plain(ctx, n, link, keys, [1, 2, 3, 4] if link != 'aggregated' else [3, 1, 3, 2])
    size = ctx.choose('number of rows', [1, 2, 3, 4]) if how not in ('sort',) else 1
    pos = []
    for k in range(size):
        left = list(range(n)) if how in ('take', 'iloc list', 'iloc array', 'take negative') else [i for i in range(n) if i not in pos]
        if not left:
            return ctx.check(True)
        pos.append(ctx.choose('position %d' % k, left))
    if how == 'iloc slice' and pos != sorted(pos):
        return ctx.check(True)
    f = WAYS[how](a, pos)
    expected = list(WAYS[how](pd.DataFrame({'row': np.arange(n), 'w': list(a['w'])}, index=list(a.index)), pos)['row'])
    ctx.check(list(f['row']) == expected, '%s: other rows' % how)
    ctx.check(has_link(f, 'ln'), '%s: the link is lost' % how)
    check_series(ctx, get(f), f.index, [want[int(r)] for r in f['row']], '%s of %s' % (how, pos))
    g = WAYS[how](f, [0]) if len(f) else f
    check_series(ctx, get(g), g.index, [want[int(r)] for r in g['row']], '%s of %s, one of them' % (how, pos))
    check_series(ctx, get(a), a.index, want, 'the first frame')


def h_long(ctx):
    """Many rows, of which a few are linked to rows of any value."""
    c = ctx.cfg
    n, link = c['n'], c['link']
    rng = np.random.RandomState(8)
    if link != 'column':
        keys = [int(x) for x in rng.permutation(2 * n)[:n]]
        others = [int(x) for x in rng.permutation(2 * n)[:n]]
    else:
        keys = [int(x) for x in rng.randint(0, n // 2, n)]
        others = [int(x) for x in rng.permutation(n // 2)[:n // 3]]
    if link == 'aggregated':
        others = others + others[:n // 6]
    a, get, want = plain(ctx, n, link, np.array(keys), np.array(others), free=(0, 5, len(others) - 1))
    p = [int(x) for x in rng.permutation(n)]
    many = {
        'reversed': lambda f: f.iloc[::-1], 'shuffled': lambda f: f.take(p), 'some': lambda f: f.iloc[p[:n // 3]], 'half': lambda f: f.iloc[n // 2:],
        'repeated': lambda f: f.iloc[p + p[:20]], 'labels': lambda f: f.loc[[f.index[i] for i in p[:150]]],
        'mask': lambda f: f[np.isin(np.arange(len(f)), p[:n // 2])], 'sorted': lambda f: f.sort_values('w'),
        'sorted down': lambda f: f.sort_values(['grp', 'w'], ascending=False), 'head': lambda f: f.head(n - 1), 'tail': lambda f: f.tail(3),
        'groups': lambda f: [g for _, g in f.groupby('grp')], 'reindex': lambda f: f.reindex([f.index[i] for i in p]),
        'query': lambda f: f.query('w > 40'), 'sample': lambda f: f.sample(n=n // 2, random_state=3), 'largest': lambda f: f.nlargest(60, 'w'),
        'duplicates': lambda f: f.drop_duplicates('grp', keep='last'), 'drop': lambda f: f.drop([f.index[i] for i in p[:100]]),
        'copy': lambda f: f.copy(), 'step': lambda f: f.iloc[5:-5:3],
    }
    name = ctx.choose('operation', sorted(many))
    again = ctx.choose('then', ['nothing', 'step', 'sorted'])
    if again == 'step':
        get(a)
    r = many[name](a)
    for f in r if isinstance(r, list) else [r]:
        if again != 'nothing' and len(f):
            f = f.iloc[::2] if again == 'step' else f.sort_values('w')
        ctx.check(has_link(f, 'ln'), '%s: the link is lost' % name)
        check_series(ctx, get(f), f.index, [want[int(x)] for x in f['row']], '%s of %d rows' % (name, n))
    check_series(ctx, get(a), a.index, want, 'the first frame')
