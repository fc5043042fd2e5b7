"""C23: links are classified by the repetition of keys, and impossible links are refused and change nothing."""
from .common import *
from .links import *

NUMBA = False
BOUNDS = {
    'quick': 'frames of 0..3 rows on either side, any integer keys, at most one null key per side, repeated or not; keys in the index, a '
             'named index, a column or a level by name or number; two-level keys (2 or 3 rows); columns and levels labelled 0, 1 or with an empty text; all combinations of link arguments from '
             'absent/known/unknown/list for columns and levels of both sides; index pre-computed or not',
    'thorough': 'as quick with 4 rows on either side and two-level keys of 3 rows'}
ASSUME = ['hash tables of pandas treat the symbolic keys as they treat numbers (replayed with integer keys on the real package)',
          'whether several null keys count as repeated keys is outside the claim']
ALL = ['index', 'named index', 'column', 'level', 'level number']


def jobs(tier):
    big = tier == 'thorough'
    n = 4 if big else 3
    out = []
    for f in ALL:
        for g in ALL:
            size = n if big or (f in ('column', 'index') and g in ('column', 'index')) else 2
            out.append(('h_classified', dict(self=f, other=g, rows=size, targets=size if big else 3 if size == 3 or f == g else 2)))
    out += [('h_classified', dict(self='column', other='index', rows=a, targets=b)) for a in (0, 1) for b in (0, 1, 2)]
    out += [('h_classified', dict(self='index', other='column', rows=2, targets=b)) for b in (0, 1)]
    for f in ('columns', 'index', 'levels', 'mixed'):
        out.append(('h_two_levels', dict(form=f, rows=2, targets=3 if big else 2)))
        if not big:
            out += [('h_two_levels', dict(form=f, rows=r, targets=4 - r)) for r in (1, 3)]
    out += [('h_arguments', dict(multi=m, part=p, parts=8, full=big)) for m in (False, True) for p in range(8)]
    out += [('h_refusals', dict(first=i, full=big)) for i in range(8)]
    out += [('h_replaced', {}), ('h_many_links', {}), ('h_multi_columns', {}), ('h_text_keys', {}), ('h_self', {}), ('h_labels', {})]
    return out


def repeated(keys):
    """Do two of the keys coincide?  (Forks in symbolic mode.)"""
    hits = match(keys, keys)
    return any(len(h) > 1 for h in hits)


def wants_aggregation(ctx, need):
    v = need.value if hasattr(need, 'value') else need
    ctx.check(isinstance(v, (bool, np.bool_, int)), 'link_to returned %r' % (need,))
    return bool(v)


def summary_says(ctx, frame, name, flag):
    s = frame.link_summary()
    ctx.check(name in s.index and bool(s.loc[name, 'aggregation']) == flag, 'link_summary does not report the aggregation flag %s of %s' % (flag, name))


def attempt(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', e


def lse():
    from cheval.ldf.constants import LinkageSpecificationError
    return LinkageSpecificationError


def h_classified(ctx):
    c = ctx.cfg
    keys = some_keys(ctx, 'k', c['rows'], 1)
    others = some_keys(ctx, 'o', c['targets'], 1)
    a, ka = key_side(ctx, c['self'], keys, extra={'z': np.zeros(len(keys))})
    b, kb = key_side(ctx, c['other'], others, cls=ldf() if ctx.flag('linked target') else pd.DataFrame)
    v = [ctx.real('v%d' % i) for i in range(c['targets'])]
    b['v'] = ctx.column(v)
    pre = ctx.flag('precompute')
    kind, need = attempt(lambda: connect(a, b, 'ln', ka, kb, pre))
    own, tgt = repeated(keys), repeated(others)
    classified(ctx, a, b, kind, need, own, tgt, keys, others, v)


def classified(ctx, a, b, kind, need, own, tgt, keys, others, v):
    if own and tgt:
        ctx.check(kind == 'error', 'a link of keys that repeat on both sides is accepted')
        ctx.check('ln' not in a.link_summary().index, 'a refused link is listed')
        ctx.check(not hasattr(a, 'ln'), 'a refused link is there')
        return
    ctx.check(kind == 'ok', 'a valid link is refused: %r' % (need,))
    flag = wants_aggregation(ctx, need)
    ctx.check(flag == tgt, 'aggregation is said to be %srequired, own keys repeat: %s, target keys repeat: %s' % ('' if flag else 'not ', own, tgt))
    summary_says(ctx, a, 'ln', tgt)
    ctx.check(a.get_link_target('ln') is b, 'the target of the link is another frame')
    hits = match(keys, others)
    if tgt:
        s = a.ln.sum('v')
        for i, h in enumerate(hits):
            if h:
                ctx.check_eq(s.iat[i], add(v[j] for j in h), 'the aggregation of row %d' % i)
            else:
                ctx.check(same(ctx, s.iat[i], float('nan')), 'the aggregation of row %d, which has no match, is %r' % (i, s.iat[i]))
    else:
        check_series(ctx, a.ln.v, a.index, [v[h[0]] if h else float('nan') for h in hits], 'lookup')


def h_two_levels(ctx):
    c = ctx.cfg

    def pairs(p, n):
        return [(None if i == 0 and ctx.flag('%s null' % p) else ctx.key('%s%da' % (p, i), 0, 50), ctx.key('%s%db' % (p, i), 0, 50))
                for i in range(n)]
    keys, others = pairs('k', c['rows']), pairs('o', c['targets'])
    L = ldf()

    def columns(ks):
        df = L({'z': np.zeros(len(ks))})
        df['p'] = ctx.keys([k[0] for k in ks])
        df['q'] = ctx.keys([k[1] for k in ks])
        return df

    def index(ks, more=False):
        arrays, names = [ctx.keys([k[0] for k in ks]), ctx.keys([k[1] for k in ks])], ['p', 'q']
        if more:
            arrays, names = [list(range(len(ks)))] + arrays[::-1], ['n', 'q', 'p']
        return L({'z': np.zeros(len(ks))}, index=pd.MultiIndex.from_arrays(arrays, names=names))
    if c['form'] == 'columns':
        a, b, ka, kb = columns(keys), columns(others), {'on': ['p', 'q']}, {'on': ['p', 'q']}
    elif c['form'] == 'index':
        a, b, ka, kb = index(keys), index(others), {}, {}
    elif c['form'] == 'levels':
        a, b, ka, kb = index(keys, True), index(others), {'levels': ['p', 'q']}, {'levels': ['p', 'q']}
    else:
        a, b, ka, kb = columns(keys), index(others), {'on': ['p', 'q']}, {}
    v = [ctx.real('v%d' % i) for i in range(len(others))]
    b['v'] = ctx.column(v)
    kind, need = attempt(lambda: connect(a, b, 'ln', ka, kb, ctx.flag('precompute')))
    classified(ctx, a, b, kind, need, repeated(keys), repeated(others), keys, others, v)


# ---------------------------------------------------------------------------------------------- link arguments
COLS = [None, 'p', ['p', 'q'], 'missing', ['p', 'missing']]
LEVS = [None, 'p', ['p', 'q'], 'missing', 0, 5, [0, 'missing']]


def side(ctx, keys, multi, cls):
    ks = ctx.keys([k for k in keys])
    n = len(keys)
    if multi:
        idx = pd.MultiIndex.from_arrays([ks, ctx.keys([7] * n)], names=['p', 'q'])
    else:
        idx = pd.Index(ks, name='p')
    df = cls({'z': np.zeros(n)}, index=idx)
    df['p'] = ctx.keys([k for k in keys])
    df['q'] = ctx.keys([7] * n)
    return df


def width(cols, levs, multi):
    """The number of keys a side is given, None if it is not possible at all."""
    if cols is not None and levs is not None:
        return None
    x = cols if cols is not None else levs
    if x is None:
        return 2 if multi else 1
    xs = x if isinstance(x, list) else [x]
    known = ['p', 'q'] if cols is not None else (['p', 'q', 0, 1] if multi else ['p', 0])
    return len(xs) if all(y in known for y in xs) else None


def h_arguments(ctx):
    """Every combination of link arguments, on frames that already have a link."""
    c = ctx.cfg
    L = ldf()
    style = ctx.choose('style', ['sides', 'on', 'levels'])
    if style == 'sides':
        cs = [(i, j) for i in range(len(COLS)) for j in range(len(LEVS)) if i == 0 or j == 0 or (i < 3 and j < 3)]
        # the combinations of one side in this part with all those of the other side
        cs_self = [x for k, x in enumerate(cs) if k % c['parts'] == c['part']]
        i, j = ctx.choose('self', cs_self)
        k, l = ctx.choose('other', cs)
        kw = dict(on_self=COLS[i], self_levels=LEVS[j], on_other=COLS[k], other_levels=LEVS[l])
        sides = [(COLS[i], LEVS[j]), (COLS[k], LEVS[l])]
    elif c['part'] == 0:
        extra = ctx.choose('extra', ['nothing', 'levels', 'self_levels', 'other_levels', 'on_self', 'on_other'])
        if style == 'on':
            x = ctx.choose('columns', COLS[1:])
            kw = dict(on=x)
            sides = [(x, None), (x, None)]
            if extra == 'levels':
                kw['levels'] = 'p'
                sides = [(x, 'p')] * 2
            elif extra == 'self_levels':
                kw['self_levels'] = 'p'
                sides[0] = (x, 'p')
            elif extra == 'other_levels':
                kw['other_levels'] = 'p'
                sides[1] = (x, 'p')
            elif extra == 'on_self':        # overridden
                kw['on_self'] = 'missing'
            elif extra == 'on_other':
                kw['on_other'] = 'missing'
        else:
            x = ctx.choose('levels', LEVS[1:])
            kw = dict(levels=x)
            sides = [(None, x), (None, x)]
            if extra == 'levels':
                kw['on'] = 'p'
                sides = [('p', x)] * 2
            elif extra == 'self_levels':    # overridden
                kw['self_levels'] = 'missing'
            elif extra == 'other_levels':
                kw['other_levels'] = 'missing'
            elif extra == 'on_self':
                kw['on_self'] = 'p'
                sides[0] = ('p', x)
            elif extra == 'on_other':
                kw['on_other'] = 'p'
                sides[1] = ('p', x)
    else:
        ctx.skip()
    kw = {k: x for k, x in kw.items() if x is not None}
    self_multi, other_multi = c['multi'], ctx.flag('multi-level target')
    w1, w2 = width(*sides[0], self_multi), width(*sides[1], other_multi)
    refused = w1 is None or w2 is None or w1 != w2
    keys = [ctx.key('k0', 0, 50), ctx.key('k1', 0, 50) if c['full'] else 9]
    others = [ctx.key('o0', 0, 50)]
    v = [ctx.real('v')]
    a = side(ctx, keys, self_multi, L)
    b = side(ctx, others, other_multi, L)
    b['v'] = ctx.column(v)
    old = L({'v': [1.5]}, index=pd.Index(ctx.keys([3])))
    name = 'ln' if ctx.flag('replaces a link') else 'old'
    a.link_to(old, name, on_self='p', precompute=False)
    pre = ctx.flag('precompute') if c['full'] or not refused else name == 'ln'
    kind, got = attempt(lambda: a.link_to(b, 'ln', precompute=pre, **kw))
    if refused:
        ctx.check(kind == 'error' and isinstance(got, lse()), 'link_to(%s) gave %r instead of a linkage specification error' % (kw, got))
        ctx.check(list(a.link_summary().index) == [name], 'the links after a refused link are %s' % list(a.link_summary().index))
        ctx.check(a.get_link_target(name) is old, 'a refused link changed the target of an existing link')
        check_series(ctx, a[name]['v'], a.index, [1.5 if h else float('nan') for h in match(keys, [3])], 'existing link after a refused link')
        return
    ctx.check(kind == 'ok', 'link_to(%s) is refused: %r' % (kw, got))
    ctx.check(not wants_aggregation(ctx, got), 'aggregation is said to be required for one target row')
    ctx.check(a.get_link_target('ln') is b, 'the target of the link is another frame')

    # the keys given, level by level: p and q (0 and 1 in the index)
    def pick(ks, cols, levs, multi):
        x = cols if cols is not None else levs
        if x is None:
            x = ['p', 'q'] if multi else ['p']
        xs = x if isinstance(x, list) else [x]
        return [tuple(k if y in ('p', 0) else 7 for y in xs) for k in ks]
    hits = match(pick(keys, *sides[0], self_multi), pick(others, *sides[1], other_multi))
    check_series(ctx, a.ln.v, a.index, [v[0] if h else float('nan') for h in hits], 'lookup by %s' % kw)
    if name == 'old':
        check_series(ctx, a.old.v, a.index, [1.5 if h else float('nan') for h in match(keys, [3])], 'existing link after another link')


def h_refusals(ctx):
    """Several refusals in a row leave computed and not yet computed links, and both frames, as they were."""
    L = ldf()
    c = ctx.cfg
    keys = some_keys(ctx, 'k', 2, 1) + [4]
    others = some_keys(ctx, 'o', 2) if c['full'] else [ctx.key('o0', 0, 50), 4]
    ctx.distinct(others)
    v = [ctx.real('v0'), ctx.real('v1')]
    a = L({'z': np.zeros(3)}, index=['r', 's', 't'])
    a['key'] = ctx.keys(keys)
    a['same'] = ctx.keys([1, 1, 2])
    b = L({'key': [0, 0]}, index=pd.Index(ctx.keys(others)))
    b['v'] = ctx.column(v)
    many = pd.DataFrame({'v': [1, 2]}, index=pd.Index(ctx.keys([1, 1])))
    a.link_to(b, 'ln', on_self='key', precompute=ctx.flag('precompute'))
    used = ctx.flag('used')
    want = [v[h[0]] if h else float('nan') for h in match(keys, others)]
    if used:
        check_series(ctx, a.ln.v, a.index, want, 'lookup before refusals')
    columns = (list(a.columns), list(b.columns))
    bad = [lambda n: a.link_to(b, n, on_self='nope'), lambda n: a.link_to(b, n, on_self='key', on_other='nope'),
           lambda n: a.link_to(b, n, on='key', levels=0), lambda n: a.link_to(b, n, on_self=['key', 'same']),
           lambda n: a.link_to(b, n, self_levels='nope'), lambda n: a.link_to(b, n, other_levels=3),
           lambda n: a.link_to(b, n, on_self='key', self_levels=0), lambda n: a.link_to(many, n, on_self='same')]
    for step in range(2):
        i = ctx.choose('refusal', list(range(len(bad)))) if step else c['first']
        n = ctx.choose('name %d' % step, ['ln', 'other'])
        kind, e = attempt(lambda: bad[i](n))
        ctx.check(kind == 'error', 'the invalid link %d is accepted' % i)
        if i < 7:
            ctx.check(isinstance(e, lse()), 'the invalid link %d raised %r' % (i, e))
    ctx.check(list(a.link_summary().index) == ['ln'], 'the links after refused links are %s' % list(a.link_summary().index))
    ctx.check('other' not in dir(a) and 'ln' in dir(a), 'dir() lists a refused link')
    ctx.check((list(a.columns), list(b.columns)) == columns, 'a refused link changed columns')
    check_series(ctx, a.ln.v, a.index, want, 'lookup after refusals')


def h_replaced(ctx):
    """A link made again under the same name replaces the other one, whatever its kind."""
    L = ldf()
    keys = [ctx.key('k0', 0, 50), ctx.key('k1', 0, 50)]
    ctx.distinct(keys)
    o1, o2 = some_keys(ctx, 'o', 2), some_keys(ctx, 'p', 2)
    v1, v2 = [ctx.real('v%d' % i) for i in range(2)], [ctx.real('w%d' % i) for i in range(2)]
    a = L({'z': np.zeros(2)}, index=pd.Index(ctx.keys(keys)))
    frames = []
    for o, v in ((o1, v1), (o2, v2)):
        b = L({}, index=pd.Index(ctx.keys(o)))
        b['v'] = ctx.column(v)
        frames.append(b)
    pre = ctx.flag('precompute')
    a.link_to(frames[0], 'ln', precompute=pre)
    if ctx.flag('used'):
        a.ln
    kind, need = attempt(lambda: a.link_to(frames[1], 'ln', precompute=pre))
    classified(ctx, a, frames[1], kind, need, False, repeated(o2), keys, o2, v2)
    ctx.check(list(a.link_summary().index) == ['ln'], 'a replaced link is listed twice')


def h_many_links(ctx):
    """Each of several links of one frame has its own classification."""
    L = ldf()
    keys = some_keys(ctx, 'k', 2)
    a = L({'z': np.zeros(2)}, index=['r', 's'])
    a['key'] = ctx.keys(keys)
    a['n'] = ctx.keys([1, 2])
    o, p = some_keys(ctx, 'o', 2), some_keys(ctx, 'p', 2)
    b, d = L({}, index=pd.Index(ctx.keys(o))), pd.DataFrame(index=['x', 'y'])
    v, w = [ctx.real('v0'), ctx.real('v1')], [ctx.real('w0'), ctx.real('w1')]
    b['v'] = ctx.column(v)
    d['k2'] = ctx.keys(p)
    d['w'] = ctx.column(w)
    k1, n1 = attempt(lambda: a.link_to(b, 'one', on_self='key'))
    k2, n2 = attempt(lambda: a.link_to(d, 'two', on_self='n', on_other='k2'))
    own, t1, t2 = repeated(keys), repeated(o), repeated(p)
    ctx.check((k1 == 'error') == (own and t1), 'the first link: %r, own keys repeat: %s, target keys repeat: %s' % (n1, own, t1))
    ctx.check(k2 == 'ok', 'the second link is refused: %r' % (n2,))
    names = (['one'] if k1 == 'ok' else []) + ['two']
    ctx.check(list(a.link_summary().index) == names, 'the links are %s' % list(a.link_summary().index))
    if k1 == 'ok':
        ctx.check(wants_aggregation(ctx, n1) == t1, 'the first link: aggregation is said to be %s' % n1)
        summary_says(ctx, a, 'one', t1)
    ctx.check(wants_aggregation(ctx, n2) == t2, 'the second link: aggregation is said to be %s' % n2)
    summary_says(ctx, a, 'two', t2)


def h_multi_columns(ctx):
    """Targets with multi-level columns are refused."""
    L = ldf()
    keys = some_keys(ctx, 'k', 2, 1)
    v = [ctx.real('v')]
    a = L({'z': np.zeros(2)}, index=['r', 's'])
    a['key'] = ctx.keys(keys)
    good = L({}, index=pd.Index(ctx.keys([3])))
    good['v'] = ctx.column(v)
    bad = pd.DataFrame([[1, 2]], index=pd.Index(ctx.keys([3])), columns=pd.MultiIndex.from_product([['x'], ['y', 'z']]))
    if ctx.flag('linked target'):
        bad = L(bad)
    a.link_to(good, 'ln', on_self='key')
    kind, e = attempt(lambda: a.link_to(bad, ctx.choose('name', ['ln', 'other']), on_self='key'))
    ctx.check(kind == 'error' and isinstance(e, NotImplementedError), 'a target with multi-level columns gave %r' % (e,))
    ctx.check(list(a.link_summary().index) == ['ln'], 'the links after a refused link are %s' % list(a.link_summary().index))
    check_series(ctx, a.ln.v, a.index, [v[0] if h else float('nan') for h in match(keys, [3])], 'lookup after a refused link')


def h_text_keys(ctx):
    """Keys chosen from texts, held in object or categorical columns."""
    L = ldf()
    words = ['x', 'y', '']
    keys = [ctx.choose('k%d' % i, words + [None] if i == 0 else words) for i in range(2)]
    others = [ctx.choose('o%d' % i, words) for i in range(2)]
    kind_of = ctx.choose('held in', ['objects', 'categories', 'index'])
    v = [ctx.real('v0'), ctx.real('v1')]

    def column(ks):
        return pd.Categorical(ks, categories=words) if kind_of == 'categories' else np.array(ks, dtype=object)
    if kind_of == 'index':
        a, b, kw = L({'z': [0, 0]}, index=pd.Index(keys, dtype=object)), L({}, index=pd.Index(others, dtype=object)), {}
    else:
        a, b, kw = L({'z': [0, 0]}), L({'y': [0, 0]}), {'on': 'key'}
        a['key'], b['key'] = column(keys), column(others)
    b['v'] = ctx.column(v)
    kind, need = attempt(lambda: a.link_to(b, 'ln', **kw))
    classified(ctx, a, b, kind, need, repeated(keys), repeated(others), keys, others, v)


def h_self(ctx):
    """A frame linked to itself."""
    L = ldf()
    keys, parents = some_keys(ctx, 'k', 3), some_keys(ctx, 'p', 3, 1)
    v = [ctx.real('v%d' % i) for i in range(3)]
    a = L({}, index=pd.Index(ctx.keys(keys)))
    a['parent'] = ctx.keys(parents)
    a['v'] = ctx.column(v)
    up = ctx.flag('upwards')
    kind, need = attempt(lambda: a.link_to(a, 'ln', **({'on_self': 'parent'} if up else {'on_other': 'parent'})))
    ks, os = (parents, keys) if up else (keys, parents)
    classified(ctx, a, a, kind, need, repeated(ks), repeated(os), ks, os, v)


def h_labels(ctx):
    """Columns and levels labelled with 0, 1, an empty text..., next to an index of other keys."""
    L = ldf()
    label = ctx.choose('label', [0, '', 1, 'v2'])
    keys, others = some_keys(ctx, 'k', 2), some_keys(ctx, 'o', 2)
    v = [ctx.real('v0'), ctx.real('v1')]
    form = ctx.choose('form', ['on', 'on list', 'sides', 'self', 'other', 'levels'])
    if form == 'levels' and not isinstance(label, str):
        ctx.skip()

    def frame(ks, held):
        if held == 'index':
            return L({'z': [0, 0]}, index=pd.Index(ctx.keys(ks), name=label))
        f = L({'z': [0, 0]}, index=pd.Index(ctx.keys([70, 70])))
        f[label] = ctx.keys(ks)
        return f
    a = frame(keys, 'index' if form in ('other', 'levels') else 'column')
    b = frame(others, 'index' if form in ('self', 'levels') else 'column')
    b['v'] = ctx.column(v)
    kw = {'on': {'on': label}, 'on list': {'on': [label]}, 'sides': {'on_self': label, 'on_other': label}, 'self': {'on_self': label},
          'other': {'on_other': label}, 'levels': {'levels': label}}[form]
    kind, need = attempt(lambda: a.link_to(b, 'ln', precompute=ctx.flag('precompute'), **kw))
    classified(ctx, a, b, kind, need, repeated(keys), repeated(others), keys, others, v)
