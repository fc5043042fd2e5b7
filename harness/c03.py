"""C03: discrete sampling is inverse-CDF and never draws a zero-probability choice."""
from .common import *

BOUNDS = {
    'quick': 'sample_once / binary search: every non-negative probability vector of 1..6 entries (total unconstrained, so also '
             'above or below the draw) and every draw (0 or [2.2e-308, 1]), real arithmetic; the same bit-precisely (IEEE doubles, any '
             'rounding) for 1..3 entries; given vectors of 12..300 entries (40 one at a time) with any draw; sampling from weights, from MNL (3) and nested (2 nests) utilities with 1..2 draws',
    'thorough': 'as quick with up to 9 entries (real) and 5 entries (bit-precise), given vectors of up to 2000 entries, 3 draws'}
ASSUME = ['draws are 0 or lie in [2.2e-308, 1] (the generator never produces smaller ones)', 'in the real-arithmetic part rounding is not modelled; the bit-precise part has none of that']


def jobs(tier):
    big = tier == 'thorough'
    out = [('h_bits', dict(n=n)) for n in range(5 if big else 3, 0, -1)]   # the longest first
    for n in range(1, 10 if big else 7):
        out.append(('h_kernels', dict(n=n)))
        if n < 5:
            out.append(('h_kernels', dict(n=n, zero=True)))
    for n in (12, 70, 300) + ((2000,) if big else ()):
        out.append(('h_long', dict(n=n, how='search')))
    for n in (12, 40) + ((150,) if big else ()):
        out.append(('h_long', dict(n=n, how='once')))
    for n in (2, 3) + ((4,) if big else ()):
        out.append(('h_weights', dict(n=n)))
        for d in (1, 2, 3) if big else (1, 2):
            out.append(('h_multi', dict(n=n, draws=d)))
    for d in (1, 2):
        out.append(('h_model', dict(tree=None, cols=3, draws=d, inf=[0, 1, 2])))
        out.append(('h_model', dict(tree=[-1, 0, 0, -1], cols=4, draws=d, inf=[1, 2])))
    out.append(('h_model', dict(tree=None, cols=4, draws=1, inf=[0, 3])))
    if big:
        out.append(('h_model', dict(tree=[-1, 0, 0, -1, 3, 3], cols=6, draws=1, inf=[1, 2, 4])))
    return out


def inverse_cdf(ps, r, tiny):
    """The first alternative whose cumulative probability reaches the draw, else the last with positive probability."""
    r = r if r > tiny else tiny
    acc = 0.0
    last = None
    for k, p in enumerate(ps):
        acc = acc + p
        if r <= acc:
            return k
        if p > 0:
            last = k
    return last


TINY = float(np.finfo(np.float64).tiny)


def h_kernels(ctx):
    n = ctx.cfg['n']
    ps = [ctx.real('p%d' % k, lo=0, hi=1) for k in range(n)]
    r = ctx.real('r', lo=0, hi=1)
    if not ctx.symbolic and ctx.jitter is not None:   # hit exact zeros and boundaries too
        j = ctx.jitter
        ps = [p if j.random() < 0.6 else 0.0 for p in ps]
        t = sum(ps) or 1.0
        ps = [p / t for p in ps]
        r = j.choice([r, 0.0, 1.0] + list(np.cumsum(ps)))
        r = min(max(float(r), 0.0), 1.0)
    ctx.assume(add(ps) > 0)
    ctx.assume(r >= TINY)   # what the generator produces; 0 is the special case below
    if ctx.cfg.get('zero'):
        r = 0.0
    once, search = fn(ctx, core(), 'sample_once'), getattr(core(), 'logarithmic_search', None)
    want = inverse_cdf(ps, r, TINY)
    k = int(once(ctx.arr(ps), r))
    ctx.check(0 <= k < n, 'sampled position %d of %d' % (k, n))
    ctx.check(ps[k] > 0, 'an alternative of probability 0 was drawn')
    ctx.check(k == want, 'one-at-a-time sampling gave %d, expected %d' % (k, want))
    if search is not None:
        cum, acc = [], 0.0
        for p in ps:
            acc = acc + p
            cum.append(acc)
        k = int(search(r, ctx.arr(cum)))
        ctx.check(k == want, 'the search in cumulative probabilities gave %d, expected %d' % (k, want))


def h_long(ctx):
    """Many alternatives of given probabilities (multiples of 2**-12, some zero), any draw."""
    n = ctx.cfg['n']
    ps = [0.0 if k % 5 == 0 or k % 7 == 3 or k == n - 1 else (1 + k % 4) / 4096 for k in range(n)]
    short = ctx.flag('total below 1')
    if not short:
        ps[n // 2] += 1 - sum(ps) if sum(ps) < 1 else 0.25
    cum = [float(x) for x in np.cumsum(ps)]
    if ctx.cfg['how'] == 'once':
        r = ctx.real('r', lo=0, hi=1)
        ctx.assume(r >= TINY)
        k = int(fn(ctx, core(), 'sample_once')(ctx.arr(ps), r))
    else:
        r = uniforms(ctx, 5, 1)[0]
        k = int(fn(ctx, core(), 'sample_multi')(ctx.arr(ps), 1, 5, None)[0])
    ctx.check(0 <= k < n and ps[k] > 0, 'an alternative of probability 0 was drawn: %d' % k)
    last = max(j for j in range(n) if ps[j] > 0)
    if k < last:
        ctx.check(r <= cum[k], 'alternative %d of %d is below the draw' % (k, n))
    if k > 0:
        ctx.check(r > cum[k - 1], 'alternative %d of %d is not the first that reaches the draw' % (k, n))


def h_bits(ctx):
    n = ctx.cfg['n']
    ps = [ctx.fp('p%d' % k, lo=0.0, hi=1.0) for k in range(n)]
    r = ctx.fp('r', lo=TINY, hi=1.0)
    pos = [p > 0 for p in ps]
    some = pos[0]
    for p in pos[1:]:
        some = some | p
    ctx.assume(some)
    once, search = fn(ctx, core(), 'sample_once'), getattr(core(), 'logarithmic_search', None)
    k = int(once(ctx.arr(ps), r))
    ctx.check(0 <= k < n, 'sampled position %d of %d' % (k, n))
    ctx.check(ps[k] > 0, 'an alternative of probability 0 was drawn (rounding)')
    if search is not None:
        cum, acc = [], 0.0
        for p in ps:
            acc = acc + p
            cum.append(acc)
        j = int(search(r, ctx.arr(cum)))
        ctx.check(0 <= j < n, 'sampled position %d of %d' % (j, n))
        ctx.check(ps[j] > 0, 'an alternative of probability 0 was drawn by the search (rounding)')
        # an alternative can be positive and still leave the rounded cumulative unchanged: then no draw distinguishes it
        ctx.check((k == j) | (cum[k] == cum[j]), 'one-at-a-time sampling and the search disagree: %d, %d' % (k, j))


def h_weights(ctx):
    n = ctx.cfg['n']
    ws = [ctx.real('w%d' % k, lo=0, hi=8) for k in range(n)]
    r = ctx.real('r', lo=0, hi=1)
    total = add(ws)
    ctx.assume(total > 0)
    f = fn(ctx, core(), 'simple_sample')
    k = int(f(ctx.arr(ws), r))
    want = inverse_cdf([w / total for w in ws], r, TINY)
    ctx.check(ws[k] > 0, 'an alternative of weight 0 was drawn')
    ctx.check(k == want, 'sampling from weights gave %d, expected %d' % (k, want))


def uniforms(ctx, seed, n):
    """The draws of the seeded stream, as an independent observer sees them."""
    lo = core().MIN_RANDOM_VALUE if hasattr(core(), 'MIN_RANDOM_VALUE') else TINY
    if ctx.symbolic:
        return [ctx.real('rnd[%s][%d]' % (seed, i), lo=float(lo), hi=1.0, hi_open=True) for i in range(n)]
    return list(np.random.RandomState(seed).uniform(lo, 1.0, n))


def h_multi(ctx):
    c = ctx.cfg
    ps = [ctx.real('p%d' % k, lo=0, hi=1) for k in range(c['n'])]
    ctx.assume(add(ps) > 0)
    f = fn(ctx, core(), 'sample_multi')
    seed = 17
    got = f(ctx.arr(ps), c['draws'], seed, None)
    rs = uniforms(ctx, seed, c['draws'])
    ctx.check(len(got) == c['draws'], 'number of draws')
    for i in range(c['draws']):
        want = inverse_cdf(ps, rs[i], TINY)
        ctx.check(int(got[i]) == want, 'draw %d: sampled %s, expected %s' % (i, got[i], want))
    out = np.full(c['draws'], -1, dtype='int64')
    f(ctx.arr(ps), c['draws'], seed, out)
    ctx.check([int(x) for x in out] == [int(x) for x in got], 'draws written into an output array')


def h_model(ctx):
    """One decision unit: the draws of the unit are the only ones in the run."""
    c = ctx.cfg
    n = c['cols']
    u = [[ctx.util('u%d' % k, inf=k in c['inf']) for k in range(n)]]
    ctx.assume(finite(u[0]))
    seed = 5

    def model():
        return model_with_table(ctx, u, tree=c['tree'])
    p, ls, _ = model().run_stochastic(check_infeasible=False)
    ctx.assume(ls.iat[0] > 0)
    m = model()
    cols = list(m.choices)
    ps = [p[x].iat[0] if x in p.columns else 0.0 for x in cols]
    res, ls2 = m.run_discrete(random_seed=seed, n_draws=c['draws'], astype='index', squeeze=False)
    got = [int(res.iat[0, d]) for d in range(c['draws'])]
    for k in got:
        ctx.check(0 <= k < n, 'position %d' % k)
        ctx.check(ps[k] > 0, 'an alternative of probability 0 was drawn')
    if ctx.symbolic:   # in symbolic runs the draws the run has consumed are known
        rs = [ctx.e.memo[x] for x in ctx.e.memo if str(x).startswith('rnd[')]
        if len(rs) == c['draws']:
            for k, r in zip(got, rs):
                want = inverse_cdf(ps, r, TINY)
                ctx.check(k == want, 'sampled %d, expected %s' % (k, want))
    else:
        rs = None
        if c['draws'] == 1 and hasattr(core(), 'generate_rand_floats_for_parallel'):
            rs = list(core().generate_rand_floats_for_parallel(seed, 1))
        elif hasattr(core(), 'generate_rand_ints_for_parallel'):
            s = int(core().generate_rand_ints_for_parallel(seed, 1)[0])
            rs = uniforms(ctx, s, c['draws'])
        if rs:
            for k, r in zip(got, rs):
                want = inverse_cdf(ps, r, TINY)
                near = any(abs(r - x) < 1e-12 for x in np.cumsum(ps))
                ctx.check(k == want or near, 'sampled %d, expected %s' % (k, want))
