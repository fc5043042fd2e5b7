"""C02: nested logit probabilities equal the recursive nested logit formula."""
from .common import *

BOUNDS = {
    'quick': 'every tree of 5, 6 and 7 nodes in every insertion order (all alternatives available, 1 row); 8 trees of up to 7 nodes and '
             'one of 8 nodes and 4 levels with every node utility any real or -inf (2 rows on the smallest); every logsum '
             'scale any real in (0,1], scaling on and off',
    'thorough': 'as quick, with every tree of 8 nodes and, with unavailable alternatives, trees of up to 9 nodes'}
ASSUME = ['real arithmetic (no rounding or overflow)', 'exp/log: algebraic laws and positivity only']

TREES = {   # parents by position; insertion order is the list order
    'nest': [-1, -1, 0, 0],
    'nest-last': [-1, 0, 0, -1],
    'interleaved': [-1, -1, 0, 1, 0, 1],
    'two-nests': [-1, 0, 0, -1, 3, 3],
    'three-level': [-1, -1, 0, 0, 2, 2],
    'mixed': [-1, 0, 0, 1, 1, -1, 0],
    'children-first': [-1, 0, -1, 0, 1, 1],
    'second-nest': [-1, -1, 1, 1, 1],
}
BIG = {
    'four-level': [-1, -1, 0, 0, 2, 2, 4, 4],
    'wide': [-1, -1, -1, 0, 0, 1, 1, 2, 2],
    'both': [-1, 0, 0, 2, 2, -1, 5, 5, 0],
}


def all_trees(n):
    """Every way of inserting n nodes such that a nest has at least two children, and so has the root."""
    out = []

    def go(parents):
        if len(parents) == n:
            kids = [parents.count(k) for k in range(-1, n)]
            if kids[0] >= 2 and 1 not in kids:
                out.append(list(parents))
            return
        for p in range(-1, len(parents)):
            go(parents + [p])
    go([])
    return out


def jobs(tier):
    out = []
    for n, parts in ((5, 1), (6, 2), (7, 8), (8, 24)) + (((9, 160), ) if tier == 'thorough' else ()):
        for part in range(parts):
            out.append(('h_shapes', dict(n=n, part=part, parts=parts)))
    for n, parts in ((4, 1), (5, 2), (6, 12)) + (((7, 64), ) if tier == 'thorough' else ()):
        for part in range(parts):
            out.append(('h_shapes', dict(n=n, part=part, parts=parts, inf=True)))
    for name, t in TREES.items():
        for scale in (True, False):
            out.append(('h_model', dict(tree=t, rows=1, scale=scale, inf=list(range(len(t))))))
    out.append(('h_model', dict(tree=TREES['nest'], rows=2, scale=True, inf=[0, 2, 3])))
    out.append(('h_model', dict(tree=TREES['two-nests'], rows=1, scale=True, inf=[2, 3], precision=4, tol=1e4)))
    out.append(('h_model', dict(tree=BIG['four-level'], rows=1, scale=True, inf=[4, 6, 7])))
    out.append(('h_model', dict(tree=BIG['four-level'], rows=1, scale=False, inf=[])))
    if tier == 'thorough':
        for name, t in BIG.items():
            for scale in (True, False):
                out.append(('h_model', dict(tree=t, rows=1, scale=scale, inf=list(range(len(t))))))
        out.append(('h_model', dict(tree=TREES['two-nests'], rows=2, scale=True, inf=[1, 2, 4])))
    return out


def h_shapes(ctx):
    """Every tree of that many nodes."""
    c = ctx.cfg
    trees = all_trees(c['n'])[c['part']::c['parts']]
    t = trees[ctx.choose('tree', list(range(len(trees))))]
    decide(ctx, dict(tree=t, rows=1, scale=ctx.flag('scale'), inf=list(range(c['n'])) if c.get('inf') else []))


def h_model(ctx):
    decide(ctx, ctx.cfg)


def decide(ctx, c):
    parents = c['tree']
    n = len(parents)
    kids = {k: [j for j in range(n) if parents[j] == k] for k in range(-1, n)}
    s = {k: ctx.real('s%d' % k, lo=0, hi=1, lo_open=True) if kids[k] else 1.0 for k in range(n)}
    u = [[ctx.util('u%d_%d' % (i, k), inf=k in c['inf']) for k in range(n)] for i in range(c['rows'])]

    def feasible(row, k):
        return row[k] != NEG and (not kids[k] or any(feasible(row, j) for j in kids[k]))

    for row in u:
        ctx.assume(any(feasible(row, k) for k in kids[-1]))

    m = model_with_table(ctx, u, tree=[(p, s[k]) for k, p in enumerate(parents)],
                         precision=c.get('precision', 8))
    p, ls, terms = m.run_stochastic(scale_utilities=c['scale'])
    labels = list(m.choices)
    leaves = [k for k in range(n) if not kids[k]]
    ctx.check(list(p.columns) == [labels[k] for k in leaves], 'columns of the probabilities: %s' % list(p.columns))
    ctx.check(list(terms.columns) == labels, 'columns of the logsum terms')

    for i, row in enumerate(u):
        value, total = {}, {}

        def ev(k):
            sp = s[parents[k]] if c['scale'] and parents[k] >= 0 else 1.0
            if not feasible(row, k):
                for j in kids[k]:
                    ev(j)
                total[k] = add(value[j] for j in kids[k])
                value[k] = 0.0
                return
            v = row[k]
            if kids[k]:
                for j in kids[k]:
                    ev(j)
                total[k] = add(value[j] for j in kids[k])
                v = v + s[k] * ctx.log(total[k])
            value[k] = ctx.exp(v / sp)

        for k in kids[-1]:
            ev(k)
        total[-1] = add(value[k] for k in kids[-1])
        ctx.check_eq(ls.iat[i], total[-1], 'top-level logsum')
        acc = 0.0
        for col, k in enumerate(leaves):
            want, j = 1.0, k
            while j >= 0:
                if not feasible(row, j):
                    want = 0.0
                    break
                want = want * (value[j] / total[parents[j]])
                j = parents[j]
            ctx.check_eq(p.iat[i, col], want, 'probability of n%d' % k)
            acc = acc + p.iat[i, col]
        ctx.check_eq(acc, 1.0, 'the probabilities of the elemental alternatives do not sum to 1')
        for k in range(n):
            ctx.check_eq(terms.iat[i, k], value[k], 'logsum term of n%d' % k)


