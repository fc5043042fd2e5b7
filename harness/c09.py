"""C09: dict literals assign each listed value to its choices and zero elsewhere."""
from .common import *

BOUNDS = {
    'quick': '2..4 plain choices with every subset of up to 3 keys in every order, written as identifiers or quoted, values from 7 '
             'positive and negative literals; 5 nested trees of up to 8 nodes and 3 levels (unsorted insertion orders, repeated names '
             'in different nests) with every pair of node or "below" keys that do not overlap, in both orders; several literals in '
             'one expression times any real; 20 kinds of bad keys and values; 24 ways of writing a number',
    'thorough': 'as quick with every triple of keys in nested trees'}
ASSUME = ['keys do not address the same node twice', 'the terms of run_stochastic show the utilities (C02)']

VALUES = ['2', '-3', '0.5', '1e1', '-0.25', '4', '0']
TREES = {   # name of each node and its parent; insertion order
    'two levels': [('A', -1), ('B', -1), ('x', 0), ('y', 0)],
    'unsorted': [('B', -1), ('A', -1), ('y', 0), ('x', 1), ('x', 0), ('y', 1)],
    'three levels': [('A', -1), ('C', -1), ('x', 0), ('B', 0), ('x', 3), ('y', 3)],
    'mixed': [('C', -1), ('A', -1), ('B', 1), ('z', 2), ('x', 1), ('a', 2), ('A', 0), ('B', 0)],
    'underscores': [('_A', -1), ('B_', -1), ('_x', 0), ('x_', 0), ('__', 1), ('_A', 1)],
    'same names': [('A', -1), ('A', 0), ('B', 0), ('B', -1), ('A', 1), ('B', 1)],
}


def jobs(tier):
    out = []
    for n in (2, 3, 4):
        for k in range(1, min(n, 3) + 1):
            out.append(('h_plain', dict(n=n, keys=k)))
    for t in TREES:
        out.append(('h_nested', dict(tree=t, keys=1)))
        out.append(('h_nested', dict(tree=t, keys=2)))
        if tier == 'thorough':
            out.append(('h_nested', dict(tree=t, keys=3)))
        out.append(('h_bad_key', dict(tree=t)))
    out += [('h_bad_key', dict(tree=None)), ('h_bad_value', {}), ('h_several', {}), ('h_exact', {}), ('h_literal', {})]
    return out


NAMES = ['walk', 'transit_2', 'Auto', '_bike']


def h_plain(ctx):
    c = ctx.cfg
    names = NAMES[:c['n']]
    m = cheval().ChoiceModel()
    m.add_choices(names)
    m.decision_units = pd.Index([7, 8])
    keys = ctx.perm('keys', names)[:c['keys']]
    first = ctx.choose('first value', range(len(VALUES)))
    lit, want = [], {}
    for k, name in enumerate(keys):
        v = VALUES[(first + k) % len(VALUES)]
        lit.append('%s: %s' % ("'%s'" % name if ctx.flag('quoted%d' % k) else name, v))
        want[name] = float(v)
    m.expressions.append('{%s}' % ', '.join(lit))
    p, ls, t = m.run_stochastic()
    for i in range(2):
        for j, name in enumerate(names):
            ctx.check_eq(t.iat[i, j], ctx.exp(want.get(name, 0.0)), 'value of %s in {%s}' % (name, ', '.join(lit)))


def build(ctx, tree, precision=8):
    m = cheval().ChoiceModel(precision=precision)
    nodes, paths = [], []
    for name, parent in TREES[tree]:
        nodes.append((m if parent < 0 else nodes[parent]).add_choice(name))
        paths.append((() if parent < 0 else paths[parent]) + (name,))
    m.decision_units = pd.Index([7, 8])
    return m, paths


def check_nested(ctx, m, paths, want, what):
    p, ls, t = m.run_stochastic()
    kids = {q: [r for r in paths if r[:-1] == q] for q in paths}

    def term(q, i):
        e = ctx.exp(want(q, i))
        return e * add(term(r, i) for r in kids[q]) if kids[q] else e
    for i in range(2):
        for j, q in enumerate(paths):
            ctx.check_eq(t.iat[i, j], term(q, i), 'value of %s in %s' % ('.'.join(q), what))


def addressed(paths, key):
    if key[-1] == '_':
        return [q for q in paths if q[:len(key) - 1] == key[:-1] and len(q) >= len(key)]
    return [q for q in paths if q == key]


def all_keys(paths):
    return [q for q in paths] + [q + ('_',) for q in paths if any(r[:-1] == q for r in paths)]


def h_nested(ctx):
    c = ctx.cfg
    m, paths = build(ctx, c['tree'])
    keys, taken = [], []
    options = all_keys(paths)
    for k in range(c['keys']):
        left = [q for q in options if not any(r in taken for r in addressed(paths, q))]
        if not left:
            break
        q = ctx.choose('key%d' % k, left)
        q = tuple(q)
        keys.append(q)
        taken += addressed(paths, q)
    vals = ['2', '-3', '1.5']
    lit = '{%s}' % ', '.join('%s: %s' % ('.'.join(q), v) for q, v in zip(keys, vals))
    want = {}
    for q, v in zip(keys, vals):
        for r in addressed(paths, q):
            want[r] = float(v)
    m.expressions.append(lit)
    check_nested(ctx, m, paths, lambda q, i: want.get(q, 0.0), lit)


def refused(ctx, m, text):
    def go():
        m.expressions.append(text)
        m.run_stochastic()
    kind, r = outcome(go)
    ctx.check(kind == 'error', 'accepted: %s' % text)


def h_bad_key(ctx):
    if ctx.cfg['tree']:
        m, paths = build(ctx, ctx.cfg['tree'])
        bad = ['q', 'q._', 'A.q', 'A.q._', 'q.x', 'A.x.x.x', 'A.B.q', "'A.x'", "'A.B'", 'a', 'A.x.x.x._', "''"]
        bad = [b for b in bad if tuple(p for p in b.strip("'").split('.') if p != '_') not in paths or "'" in b]
    else:
        m = cheval().ChoiceModel()
        m.add_choices(['A', 'B'])
        m.decision_units = pd.Index([7, 8])
        bad = ['q', 'A.B', 'A._', 'a', "'A.B'", "''", '_', "'A '"]
    good = ctx.choose('with', ['', 'A: 1, ', 'A: 1, B: 2, ' if not ctx.cfg['tree'] else 'A: 1, '])
    refused(ctx, m, '{%s%s: 5}' % (good, ctx.choose('bad', bad)))


def h_bad_value(ctx):
    m = cheval().ChoiceModel()
    m.add_choices(['A', 'B'])
    m.decision_units = pd.Index([7, 8])
    m.declare_number('s')
    m['s'].assign(1.0)
    v = ctx.choose('value', ["'s'", 's', 'None', '1 + 2', '[1]', '-s', 's.a', "b'1'", '(1, 2)', '{B: 1}', '2j', "-'s'", '--1', 'abs(1)',
                             'not 1'])
    refused(ctx, m, ctx.choose('where', ['{A: %s}', '{A: 1, B: %s}', '{A: %s, B: 1}', 's * {B: %s}']) % v)


def h_several(ctx):
    """Several literals in one expression are told apart, also times a vector and behind a filter."""
    tree = ctx.choose('tree', ['three levels', 'mixed'])
    m, paths = build(ctx, tree)
    r = [ctx.real('r0'), ctx.real('r1')]
    k = ctx.real('k')
    m.declare_number('k')
    m['k'].assign(k)
    m.declare_vector('r', 0)
    m['r'].assign(ctx.series(r, m.decision_units))
    n = ctx.choose('literals', [2, 3])
    opts = [('C', 2.0), ('A.B._', -1.0), ('A.x', 3.0)]
    rot = ctx.choose('order', [0, 1, 2])
    opts = (opts[rot:] + opts[:rot])[:n]
    factors = [('r * ', lambda i: r[i]), ('', lambda i: 1.0), ('k * ', lambda i: k)]
    text = ' + '.join('%s{%s: %s}' % (factors[q][0], key, v) for q, (key, v) in enumerate(opts))
    only = ctx.choose('filter', [None, 'A', 'A.x', 'A.B'])
    m.expressions.append(text + (' @ ' + only if only else ''))
    m.expressions.append('{A.x: 1, C: -1}')

    def want(q, i):
        u = {('A', 'x'): 1.0, ('C',): -1.0}.get(q, 0.0)
        if only is None or '.'.join(q) == only:
            for f, (key, v) in zip(factors, opts):
                if q in addressed(paths, tuple(key.split('.'))):
                    u = u + f[1](i) * v
        return u
    check_nested(ctx, m, paths, want, text)


def h_exact(ctx):
    """Values are used with the full precision of the model."""
    m = cheval().ChoiceModel(precision=8)
    m.add_choices(['A', 'B'])
    m.decision_units = pd.Index([7, 8])
    v = ctx.choose('value', ['16777217', '-16777217', '123456789.5'])
    m.expressions.append('{A: %s} - {A: %s}' % (v, str(int(float(v)) // 2 * 2)))
    p, ls, t = m.run_stochastic()
    want = float(v) - int(float(v)) // 2 * 2
    for i in range(2):
        ctx.check_eq(t.iat[i, 0], ctx.exp(want), 'value of A in {A: %s}' % v)
        ctx.check_eq(t.iat[i, 1], 1.0, 'value of B in {A: %s}' % v)


def h_literal(ctx):
    """However a number is written: refused, or the number it is in Python."""
    m = cheval().ChoiceModel(precision=8)
    m.add_choices(['A', 'B'])
    m.decision_units = pd.Index([7, 8])
    v = ctx.choose('value', ['+1.5', '-1.5', '+-2', '-+2', '- 2', '~1', '-~1', '1_0', '0x1f', '-0x1', '0b11', '0o17', 'True', '-True',
                             '1e-3', '.5', '-.5', '2.', '-1e1', '-0', '1E1', '(-2)', '(2)', '+True'])
    text = ctx.choose('where', ['{A: %s}', '{B: 1, A: %s}', '2 * {A: %s}']) % v
    kind, e = outcome(lambda: m.expressions.append(text))
    if kind == 'error':
        return ctx.check(not v.strip('-').replace('.', '').isdigit(), 'refused: %s' % text)
    p, ls, t = m.run_stochastic()
    for i in range(2):
        ctx.check_eq(t.iat[i, 0], ctx.exp(float(eval(v)) * (2.0 if '*' in text else 1.0)), 'value of A in %s' % text)
        ctx.check_eq(t.iat[i, 1], ctx.exp(1.0 if 'B' in text else 0.0), 'value of B in %s' % text)
