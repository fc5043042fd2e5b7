"""C01: multinomial logit probabilities are the logit distribution, row by row."""
from .common import *

BOUNDS = {
    'quick': 'tables of up to 3x3, 2x4 and 1x5 cells, each cell any real or -inf, and of up to 1x17, 9x2, 9x9 cells of which two can be '
             '-inf; worker function (check on/off) and ChoiceModel.run_stochastic (1 or 2 threads)',
    'thorough': 'as quick, and tables of up to 3x4, 4x3 and 1x8 cells, each cell any real or -inf; up to 1x33, 33x2, 8x8 cells of which two can be -inf'}
ASSUME = ['real arithmetic (no rounding or overflow)', 'exp/log: algebraic laws and positivity only']


def jobs(tier):
    sizes = [(1, 2), (1, 3), (2, 2), (2, 3), (1, 5), (3, 2), (2, 4), (3, 3)]
    if tier == 'thorough':
        sizes += [(1, 8), (3, 4), (4, 3)]
    out = []
    for r, c in sizes:
        out.append(('h_worker', dict(rows=r, cols=c, check=False)))
        if r * c <= 6:
            out.append(('h_worker', dict(rows=r, cols=c, check=True)))
            out.append(('h_model', dict(rows=r, cols=c)))
    out.append(('h_model', dict(rows=2, cols=2, precision=4, tol=1e4)))
    out.append(('h_model', dict(rows=3, cols=2, threads=2, inf=2)))
    # larger tables, of which only some cells can be -inf
    for r, c in [(1, 12), (1, 17), (9, 2), (5, 3)] + ([(1, 33), (33, 2), (8, 8)] if tier == 'thorough' else []):
        out.append(('h_worker', dict(rows=r, cols=c, check=False, inf=2)))
    out.append(('h_model', dict(rows=9, cols=9, inf=0)))
    out.append(('h_model', dict(rows=1, cols=11, inf=2)))
    return out


def table_of(ctx, c):
    n = c.get('inf', c['rows'] * c['cols'])     # cells that can be -inf: n of those at the beginning and at the end of the table
    last = c['rows'] * c['cols']
    some = lambda k: k < (n + 1) // 2 or k >= last - n // 2
    return [[ctx.util('u%d_%d' % (i, j), inf=some(i * c['cols'] + j)) for j in range(c['cols'])] for i in range(c['rows'])]


def _assert(ctx, u, p, ls, terms):
    for i, row in enumerate(u):
        es = [ctx.exp(x) for x in row]
        s = sum(es[1:], es[0])
        ctx.check_eq(ls(i), s, 'top-level logsum of row %d' % i)
        total = 0.0
        for j, x in enumerate(row):
            ctx.check_eq(terms(i, j), es[j], 'logsum term %d,%d' % (i, j))
            if x == NEG:
                ctx.check_eq(p(i, j), 0.0, 'probability of an infeasible alternative')
            else:
                ctx.check_eq(p(i, j), es[j] / s, 'probability %d,%d' % (i, j))
            ctx.check(p(i, j) >= 0, 'negative probability')
            total = total + p(i, j)
        if finite(row):
            ctx.check_eq(total, 1.0, 'probabilities of row %d do not sum to 1' % i)


def h_worker(ctx):
    c = ctx.cfg
    u = table_of(ctx, c)
    if c['check']:
        for row in u:
            ctx.assume(finite(row))
    before = ctx.mat(u)
    table = ctx.mat(u)
    p, ls, t = fn(ctx, core(), 'worker_multinomial_probabilities')(table, c['check'])
    _assert(ctx, u, lambda i, j: p[i, j], lambda i: ls[i], lambda i, j: t[i, j])
    for i in range(c['rows']):
        for j in range(c['cols']):
            ctx.check_eq(table[i, j], before[i, j], 'input table modified')


def h_model(ctx):
    c = ctx.cfg
    u = table_of(ctx, c)
    for row in u:
        ctx.assume(finite(row))
    m = model_with_table(ctx, u, precision=c.get('precision', 8))
    p, ls, t = m.run_stochastic(n_threads=c.get('threads', 1))
    ctx.check(p.shape == (c['rows'], c['cols']) and list(p.columns) == ['c%d' % j for j in range(c['cols'])]
              and list(p.index) == ['row%d' % i for i in range(c['rows'])] and list(t.columns) == list(p.columns)
              and list(ls.index) == list(p.index) and list(t.index) == list(p.index), 'labels of the results')
    _assert(ctx, u, lambda i, j: p.iat[i, j], lambda i: ls.iat[i], lambda i, j: t.iat[i, j])
