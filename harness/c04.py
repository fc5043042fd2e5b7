"""C04: same seed, same answer, for any thread schedule."""
from .common import *

BOUNDS = {
    'quick': 'sampling and probability workers on 2..3 rows, 1..2 draws, every order of the row iterations, every conflicting '
             'access between iterations; joint outcomes of 2x1, 3x1, 2x2 (row, draw) cells; joint outcomes of any two of 9 rows (1 draw), 5 rows (2 draws), 3 rows (3 draws); fast_indexed_add on 2x2..2x3 cells '
             'with every selection and order of rows and columns; the seeds of the streams of 3 rows; on the real package 1500 rows with 1 to 8 threads',
    'thorough': 'as quick with up to 4 rows, 3 draws and joint outcomes of 2x3 cells and of any two of 20 rows (1 draw), 12 rows (2 draws), 6 rows (3 draws)'}
ASSUME = ['a thread schedule is an assignment of loop iterations to threads; with no conflicting accesses between iterations and '
          'no thread-local state every schedule gives what some order of the iterations gives',
          'the random generator is an arbitrary function of (seed, position) into [2**-53, 1), so distinct seeds give unrelated streams',
          'labels of partial utility tables are unique']


def jobs(tier):
    big = tier == 'thorough'
    out = []
    for kind in ('mnl', 'nested', 'weights'):
        for rows, draws in [(2, 1), (3, 1), (2, 2)] + ([(4, 1), (2, 3), (3, 2)] if big else []):
            out.append(('h_sample', dict(kind=kind, rows=rows, draws=draws)))
    for kind in ('mnl', 'nested'):
        for rows in (2, 3) + ((4,) if big else ()):
            out.append(('h_probabilities', dict(kind=kind, rows=rows)))
    for kind in ('mnl', 'nested', 'weights'):
        for rows, draws in [(2, 1), (3, 1), (2, 2)] + ([(2, 3)] if big else []):
            out.append(('h_joint', dict(kind=kind, rows=rows, draws=draws)))
        for rows, draws in [(9, 1), (5, 2), (3, 3)] + ([(20, 1), (12, 2), (6, 3)] if big else []):
            out.append(('h_pairs', dict(kind=kind, rows=rows, draws=draws)))
        out.append(('h_streams', dict(kind=kind, rows=3, draws=2)))
        out.append(('h_seeds', dict(kind=kind, rows=1, draws=1)))
        out.append(('h_seeds', dict(kind=kind, rows=1, draws=2)))
    for shape in [(2, 2), (2, 3), (3, 2)]:
        for r in (None, 1, 2):
            for c in (None, 1, 2):
                out.append(('h_add', dict(shape=shape, rows=r, cols=c)))
    out.append(('h_run', dict(rows=3, draws=1, tree=None)))
    out.append(('h_run', dict(rows=2, draws=2, tree=None)))
    out.append(('h_run', dict(rows=2, draws=1, tree=[-1, 0, 0, -1])))
    return out


ROWS = 1500   # on the real package
TREE = dict(parents=np.array([-1, 0, 0, -1]), levels=np.array([0, 1, 1, 0]), flags=np.array([False, True, True, True]))


def _sampler(ctx, kind):
    """f(table, draws, seed) -> positions [row][draw]; the table has 2 alternatives that can be drawn"""
    c = core()
    if kind == 'weights':
        f = fn(ctx, c, 'worker_weighted_sample')
        return lambda u, n, seed: f(ctx.mat(u), n, seed)
    if kind == 'mnl':
        f = fn(ctx, c, 'worker_multinomial_sample')
        return lambda u, n, seed: f(ctx.mat(u), n, seed)[0]
    f = fn(ctx, c, 'worker_nested_sample')
    scales = np.array([0.5, 1.0, 1.0, 1.0])
    return lambda u, n, seed: f(ctx.mat(u), TREE['parents'], TREE['levels'], scales, TREE['flags'], n, seed, True)[0]


def _table(ctx, kind, rows):
    cols = 4 if kind == 'nested' else 2
    if kind == 'weights':
        return [[0.25 + 0.125 * ((i + j) % 3) for j in range(cols)] for i in range(rows)]
    # nested: the second nested alternative is not available, so that three cells matter
    # many rows (real package): rows differ, so that threads sharing a buffer are noticed
    return [[NEG if (kind == 'nested' and j == 2) else 0.125 * ((7 * i + 3 * j) % 11) if rows > 16 else 0.0
             for j in range(cols)] for i in range(rows)]


def _p(x):
    return [[int(v) for v in row] for row in x]


def order_of_iterations(ctx, name):
    """From here on, parallel loops run their iterations in an arbitrary order."""
    if not ctx.symbolic:
        return
    from symx.npshim import NB
    k = [0]

    def order(its):
        k[0] += 1
        if len(its) > 4:
            return list(reversed(its))
        return ctx.perm('%s%d' % (name, k[0]), its)
    NB.order = order


def threads(ctx, n):
    import numba
    if ctx.symbolic:
        numba.set_num_threads(n)
    else:
        numba.set_num_threads(min(n, numba.config.NUMBA_NUM_THREADS))


def no_races(ctx):
    for r in ctx.races:
        ctx.fail('iterations %s of a parallel loop write and %s use the same memory cell' % (r[0], r[1]))


def h_sample(ctx):
    c = ctx.cfg
    f = _sampler(ctx, c['kind'])
    if ctx.symbolic:
        u = _table(ctx, c['kind'], c['rows'])
        a = _p(f(u, c['draws'], 9))
        no_races(ctx)
        order_of_iterations(ctx, 'order')
        threads(ctx, 2)
        b = _p(f(u, c['draws'], 9))
        threads(ctx, 1)
        no_races(ctx)
        ctx.check(a == b, 'a second run with the same seed gives another answer, or the order of the rows matters: %s, %s' % (a, b))
    else:
        for seed in (1, 9, 1234):
            u = _table(ctx, c['kind'], ROWS)
            threads(ctx, 1)
            a = _p(f(u, c['draws'], seed))
            for n in (1, 2, 4, 8, 8, 8):
                threads(ctx, n)
                b = _p(f(u, c['draws'], seed))
                ctx.check(a == b, 'a second run with the same seed gives another answer with %d threads' % n)
            threads(ctx, 1)


def h_probabilities(ctx):
    c = ctx.cfg
    cols = 4 if c['kind'] == 'nested' else 2
    rows = c['rows'] if ctx.symbolic else ROWS
    u = [[ctx.real('u%d_%d' % (i % c['rows'], j)) + (0.0 if ctx.symbolic else 0.125 * ((7 * i + 3 * j) % 11))
          for j in range(cols)] for i in range(rows)]

    def run():
        if c['kind'] == 'mnl':
            return fn(ctx, core(), 'worker_multinomial_probabilities')(ctx.mat(u), False)
        return fn(ctx, core(), 'worker_nested_probabilities')(
            ctx.mat(u), TREE['parents'], TREE['levels'], np.array([0.5, 1.0, 1.0, 1.0]), TREE['flags'], True, False)
    threads(ctx, 1)
    a = run()
    no_races(ctx)
    order_of_iterations(ctx, 'order')
    for k in range(1 if ctx.symbolic else 4):
        threads(ctx, 8)
        b = run()
        no_races(ctx)
        for x, y in zip(a, b):
            for v, w in zip(np.ravel(x), np.ravel(y)):
                ctx.check_eq(v, w, 'the order of the rows matters')
        threads(ctx, 1)


def _cells(rows, draws):
    return [(i, d) for i in range(rows) for d in range(draws)]


def h_joint(ctx):
    """Every combination of outcomes of the (row, draw) cells is possible: no draw is shared or repeated."""
    c = ctx.cfg
    f = _sampler(ctx, c['kind'])
    u = _table(ctx, c['kind'], c['rows'])
    if ctx.symbolic:
        r = _p(f(u, c['draws'], 3))
        ctx.check(True)
        ctx.collect([r[i][d] for i, d in _cells(c['rows'], c['draws'])])
        return
    seen = set()
    for seed in range(1, 200):
        r = _p(f(u, c['draws'], seed))
        seen.add(tuple(r[i][d] for i, d in _cells(c['rows'], c['draws'])))
    n = c['rows'] * c['draws']
    vals = sorted({v for s in seen for v in s})
    ctx.check(len(vals) == 2, 'only one alternative is ever drawn')
    ctx.check(len(seen) == 2 ** n, 'draws of different (row, draw) cells always agree: over 199 seeds only the outcomes %s'
              % sorted(seen)[:8])


def post_joint(r):
    c = r['cfg']
    seen = {tuple(x) for x in r['collected']}
    vals = {v for s in seen for v in s}
    n = c['rows'] * c['draws']
    if r['complete'] and not r['stats']['unsupported'] and len(seen) != len(vals) ** n or len(vals) < 2:
        return [('no values of the random stream give all outcomes of %d cells: only %s' % (n, sorted(seen)[:8]), {})]


def h_pairs(ctx):
    """The draws of any two rows are unrelated, wherever the rows are (the other rows have one alternative each)."""
    c = ctx.cfg
    f = _sampler(ctx, c['kind'])
    i = ctx.choose('first', range(c['rows']))
    j = ctx.choose('second', range(c['rows']))
    ctx.assume(i < j)
    u = _table(ctx, c['kind'], c['rows'])
    gone = 0.0 if c['kind'] == 'weights' else NEG
    for k in range(c['rows']):
        if k not in (i, j):
            u[k][-1] = gone
    runs = [3] if ctx.symbolic else range(1, 2000)
    seen = set()
    for seed in runs:
        r = _p(f(u, c['draws'], seed))
        seen.add((tuple(r[i]), tuple(r[j])))
    if ctx.symbolic:
        ctx.check(True)
        ctx.collect([i, j, [list(x) for x in seen.pop()]])
        return
    ctx.check(len({v for a, b in seen for v in a + b}) == 2, 'only one alternative is ever drawn')
    ctx.check(len(seen) == 4 ** c['draws'], 'draws of rows %d and %d always agree: over 1999 seeds only %s' % (i, j, sorted(seen)[:6]))


def post_pairs(r):
    c = r['cfg']
    seen = {}
    for i, j, x in r['collected']:
        seen.setdefault((i, j), set()).add(tuple(map(tuple, x)))
    if r['complete'] and not r['stats']['unsupported']:
        for (i, j), s in sorted(seen.items()):
            if len(s) != 4 ** c['draws']:
                return [('no values of the random stream give all outcomes of rows %d and %d: only %s' % (i, j, sorted(s)[:6]),
                         {'first': i, 'second': j})]


def h_seeds(ctx):
    """Another seed is another stream."""
    c = ctx.cfg
    f = _sampler(ctx, c['kind'])
    u = _table(ctx, c['kind'], c['rows'])
    if ctx.symbolic:
        a, b = _p(f(u, c['draws'], 3)), _p(f(u, c['draws'], 4))
        ctx.check(True)
        ctx.collect([a[0][0], b[0][0]])
        return
    first = _p(f(u, c['draws'], 1))[0][0]
    ctx.check(any(_p(f(u, c['draws'], s))[0][0] != first for s in range(2, 80)), 'the seed has no effect')


def post_seeds(r):
    if r['complete'] and not r['stats']['unsupported'] and all(a == b for a, b in r['collected']):
        return [('the seed has no effect', {})]


def h_streams(ctx):
    """Rows have random streams of their own: their seeds only coincide when the integers they were made from do, which have many values."""
    c = ctx.cfg
    f = _sampler(ctx, c['kind'])
    if ctx.symbolic:
        from symx.npshim import NB
        f(_table(ctx, c['kind'], c['rows']), c['draws'], 3)
        ints = [x for x, n in NB.ints]
        for i in range(len(ints)):
            for j in range(i):
                ctx.assume(ints[i] != ints[j])
        for i, s in NB.seeds:
            for j, t in NB.seeds:
                if i < j:
                    ctx.check(s != t, 'rows draw from the same stream though the integers drawn for them differ')
        ctx.check(all(n >= 2 ** 24 for x, n in NB.ints), 'rows often draw from the same stream: their seeds have few values')
        return
    n, shared = 3000, 0
    for seed in (3, 4, 5):
        rows = {tuple(r) for r in _p(f(_table(ctx, c['kind'], 16) * (n // 16) + _table(ctx, c['kind'], n % 16), 60, seed))}
        shared += len(rows) < n
    ctx.check(shared < 2, 'rows draw from the same stream: all of 60 draws agree for some of %d rows' % n)


def h_add(ctx):
    """Concurrent accumulation of partial utilities: each cell once, no two iterations on one cell."""
    c = ctx.cfg
    rows, cols = c['shape']
    f = fn(ctx, core(), 'fast_indexed_add')
    ri = ctx.perm('r', range(rows))[:c['rows']] if c['rows'] else None
    ci = ctx.perm('c', range(cols))[:c['cols']] if c['cols'] else None
    nr, nc = (rows if ri is None else len(ri)), (cols if ci is None else len(ci))
    out = [[ctx.real('o%d_%d' % (i, j)) for j in range(cols)] for i in range(rows)]
    add_ = [[ctx.real('a%d_%d' % (i, j)) for j in range(nc)] for i in range(nr)]
    order_of_iterations(ctx, 'order')
    threads(ctx, 4)
    got = ctx.mat(out)
    f(got, ctx.mat(add_), None if ri is None else np.array(ri), None if ci is None else np.array(ci))
    threads(ctx, 1)
    no_races(ctx)
    for i in range(rows):
        for j in range(cols):
            want = out[i][j]
            a = i if ri is None else (ri.index(i) if i in ri else None)
            b = j if ci is None else (ci.index(j) if j in ci else None)
            if a is not None and b is not None:
                want = want + add_[a][b]
            ctx.check_eq(got[i, j], want, 'cell %d,%d of the accumulated table' % (i, j))


def h_run(ctx):
    """ChoiceModel.run_discrete: repeatable for integer seeds and RandomState objects, and for any number of threads."""
    c = ctx.cfg
    cols = 4 if c['tree'] else 2
    u = [[0.0] * cols for _ in range(c['rows'] if ctx.symbolic else 40)]
    kind = ctx.choose('seed', ['RandomState', 'number', 'zero', 'numpy integer', 'large'])
    same = {'number': 12, 'zero': 0, 'numpy integer': np.int64(12), 'large': 2 ** 31 - 5}.get(kind)

    def run(threads_, order=None):
        m = model_with_table(ctx, u, tree=c['tree'])
        if order:
            order_of_iterations(ctx, order)
        seed = np.random.RandomState(7) if same is None else same
        r, ls = m.run_discrete(random_seed=seed, n_draws=c['draws'], n_threads=threads_, astype='index', squeeze=False)
        return _p(r.values)
    a = run(1)
    no_races(ctx)
    if ctx.symbolic:
        b = run(2, 'order')
        no_races(ctx)
        ctx.check(a == b, 'the same seed gives another answer')
    else:
        import numba
        for n in (1, 4):
            n = min(n, numba.config.NUMBA_NUM_THREADS)
            ctx.check(a == run(n), 'the same seed gives another answer with %d threads' % n)
