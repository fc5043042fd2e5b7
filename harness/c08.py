"""C08: expression translation preserves meaning and reports exactly the symbols used."""
import ast

from .common import *

BOUNDS = {
    'quick': 'every expression made of 30 outer forms (arithmetic, powers, unary minus, comparison chains, and/or/not, where, '
             'functions) with each hole filled by an operand or by any of 20 inner forms, operands being numbers, vectors of both '
             'orientations, table columns, links and aggregations; 1 unit (2 in the special cases) and 2 choices, every number any real; 40 unsupported '
             'fragments at every place of every outer form; up to 24 references to similarly named tables',
    'thorough': 'as quick, with two holes filled by inner forms at once'}
ASSUME = ['real arithmetic (no rounding or overflow), no division by zero', 'numexpr itself is replaced by an element-wise '
          'evaluator while solving, and used as it is when witnesses are replayed', 'the terms of run_stochastic show the utilities']

NUM = ['{n} + {n}', '{n} - {n}', '{n} * {n}', '{n} - ({n} - {n})', '{n} / 4', '-{n}', '-{n} ** 2', '{n} - -{n}', '({n} + {n}) * {n}',
       'where({b}, {n}, {n})', 'abs({n})', '{n} * {n} + {n}', '-({n} + {n})', '{n} - {n} * {n}', '{n} / 2 * {n}', '({n}) ** 2',
       'where({b}, {n}, 0) - where({b}, 1, {n})', '({b}) * {n}']
BOOL = ['{n} > {n}', '{n} <= {n} < {n}', 'not {b}', '{b} and {b}', '{b} or {b} and {b}', '({b} or {b}) and {b}',
        'not ({b} and {b})', '{n} == {n}', '{n} != {n} or {b}', '{n} > {n} >= {n} > {n}', '{b} and {b} and {b}', '{b} or not {b}']
OUTER = NUM + ['where(%s, x, z)' % b for b in BOOL]
LEAVES = ['x', 'T.a', 'z', 'T.L.b', 'y', 'T.M.sum(n)', 'k', 'C.w', '2', 'T.M.max(n * 2)', 'T.L.M.count(n)']
BLEAVES = ['x > 0', 'T.a < z', 'y <= T.L.b']


def jobs(tier):
    out = [('h_meaning', dict(outer=i, quick=tier == 'quick')) for i in range(len(OUTER))]
    if tier == 'thorough':
        out += [('h_meaning', dict(outer=i, two=True, quick=True)) for i in range(len(OUTER)) if OUTER[i].count('{') > 1]
    out += [('h_unsupported', dict(outer=i)) for i in range(-1, len(OUTER))]
    out.append(('h_names', {}))
    out.append(('h_consistent', {}))
    out.append(('h_special', {}))
    return out


# -- the meaning of an expression, from its Python syntax -----------------------------------------------------------------
class Meaning:
    def __init__(self, values):
        self.values = values     # source text of an operand -> f(i, j)

    def __call__(self, node, i, j):
        if isinstance(node, ast.Constant):
            return node.value
        text = ast.unparse(node)
        if text in self.values:
            return self.values[text](i, j)
        rec = lambda n: self(n, i, j)
        if isinstance(node, ast.BinOp):
            a, b = rec(node.left), rec(node.right)
            if isinstance(a, bool):
                a = 1 if a else 0
            op = type(node.op).__name__
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                    'Pow': lambda: a * a if b == 2 else a ** b}[op]()
        if isinstance(node, ast.UnaryOp):
            a = rec(node.operand)
            return (not bool(a)) if isinstance(node.op, ast.Not) else -a
        if isinstance(node, ast.Compare):
            left = rec(node.left)
            for op, c in zip(node.ops, node.comparators):
                right = rec(c)
                r = {'Gt': lambda: left > right, 'GtE': lambda: left >= right, 'Lt': lambda: left < right,
                     'LtE': lambda: left <= right, 'Eq': lambda: left == right, 'NotEq': lambda: left != right}[type(op).__name__]()
                if not bool(r):
                    return False
                left = right
            return True
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                return all(bool(rec(v)) for v in node.values)
            return any(bool(rec(v)) for v in node.values)
        if isinstance(node, ast.Call) and node.func.id == 'where':
            return rec(node.args[1]) if bool(rec(node.args[0])) else rec(node.args[2])
        if isinstance(node, ast.Call) and node.func.id == 'abs':
            a = rec(node.args[0])
            return a if bool(a >= 0) else -a
        raise ValueError(text)


def names_used(text):
    """(plain, dotted) names of an expression"""
    plain, dotted = set(), set()

    def go(n):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                go(n.func)     # the argument of an aggregation belongs to the target frame
            else:
                for a in n.args:
                    go(a)
        elif isinstance(n, ast.Attribute):
            while isinstance(n, ast.Attribute):
                n = n.value
            dotted.add(n.id)
        elif isinstance(n, ast.Name):
            plain.add(n.id)
        else:
            for c in ast.iter_child_nodes(n):
                go(c)
    go(ast.parse(text, mode='eval').body)
    return plain - {'NAN', 'None', 'nan', 'NaN', 'NEG_INF'}, dotted


# -- a model with every kind of operand ------------------------------------------------------------------------------------
def setup(ctx, units=2):
    ch = cheval()
    m = ch.ChoiceModel()
    m.add_choices(['c0', 'c1'])
    m.decision_units = pd.Index([10, 20][:units])
    r = ctx.real
    x, y, a = [[r('%s%d' % (s, i)) for i in range(units)] for s in 'xya']
    z, w, k = [r('z0'), r('z1')], [r('w0'), r('w1')], r('k')
    zones = ch.LinkedDataFrame({'b': [3.0, 5.0, 7.0], 'M_n': [11.0, 11.5, 12.0]}, index=[1, 2, 3])
    people = ch.LinkedDataFrame({'home': [20, 10, 20, 20], 'zone': [3, 1, 1, 3], 'n': [1.0, 2.0, 4.0, 8.0]})
    zones.link_to(people, 'M', on_other='zone')
    t = ch.LinkedDataFrame({'zone': [3, 1][:units]}, index=[10, 20][:units])
    t['a'] = ctx.column(a)
    t['L_b'] = [30.0, 50.0][:units]
    t['b_L'] = [70.0, 80.0][:units]
    t.link_to(zones, 'L', on_self='zone')
    t.link_to(people, 'M', on_other='home')
    c = pd.DataFrame({'w': ctx.column(w)}, index=m.choices)
    m.declare_number('k')
    m['k'].assign(k)
    for name, v in (('x', x), ('y', y)):
        m.declare_vector(name, 0)
        m[name].assign(ctx.series(v, m.decision_units))
    m.declare_vector('z', 1)
    m['z'].assign(ctx.series(z, m.choices))
    m.declare_table('T', 0)
    m['T'].assign(t)
    m.declare_table('C', 1)
    m['C'].assign(c)
    values = {
        'x': lambda i, j: x[i], 'y': lambda i, j: y[i], 'z': lambda i, j: z[j], 'k': lambda i, j: k,
        'T.a': lambda i, j: a[i], 'C.w': lambda i, j: w[j], 'T.L.b': lambda i, j: (7.0, 3.0)[i],
        'T.M.sum(n)': lambda i, j: (2.0, 13.0)[i], 'T.M.max(n * 2)': lambda i, j: (4.0, 16.0)[i],
        'T.L.M.count(n)': lambda i, j: (2.0, 2.0)[i], 'T.M.count(n)': lambda i, j: (1.0, 3.0)[i],
        'T.M.min(n)': lambda i, j: (2.0, 1.0)[i], 'T.M.mean(n)': lambda i, j: (2.0, 13.0 / 3)[i],
        'T.M.first(n)': lambda i, j: (2.0, 1.0)[i], 'T.M.last(n)': lambda i, j: (2.0, 8.0)[i],
        'T.M.sum(n + zone)': lambda i, j: (3.0, 20.0)[i], 'T.zone': lambda i, j: (3.0, 1.0)[i], 'T.L_b': lambda i, j: (30.0, 50.0)[i], 'T.b_L': lambda i, j: (70.0, 80.0)[i],
        'T.L.M_n': lambda i, j: (12.0, 11.0)[i], 'T.L.M.sum(n)': lambda i, j: (9.0, 6.0)[i],
        'T.M.sum(n > 1)': lambda i, j: (1.0, 2.0)[i]}
    return m, values


def fill(template, filler):
    """Replace the holes of a template by filler(kind, number of the hole)."""
    out, k = '', 0
    while template:
        p = template.find('{')
        if p < 0:
            return out + template
        kind = template[p + 1]
        out += template[:p] + filler(kind, k)
        template = template[p + 3:]
        k += 1
    return out


def run_and_compare(ctx, m, values, texts, units=2):
    for t in texts:
        m.expressions.append(t)
    p, ls, terms = m.run_stochastic()
    mean = Meaning(values)
    for i in range(units):
        for j in range(2):
            u = 0.0
            for t in texts:
                v = mean(ast.parse(t, mode='eval').body, i, j)
                u = u + (1.0 if v is True else 0.0 if v is False else v)
            ctx.check_eq(terms.iat[i, j], ctx.exp(u), 'value of %s for unit %d, choice %d' % (' and '.join(texts), i, j))


def check_symbols(ctx, text):
    from cheval.parsing.expressions import Expression
    e = Expression.parse(text)
    plain, dotted = names_used(text)
    ctx.check(set(e.symbols) == plain, 'plain symbols of %s: %s' % (text, sorted(e.symbols)))
    ctx.check(set(e.chains) == dotted, 'dotted symbols of %s: %s' % (text, sorted(e.chains)))


def h_meaning(ctx):
    c = ctx.cfg
    outer = OUTER[c['outer']]
    holes = outer.count('{')
    start = ctx.choose('operands', (0, 4, 7) if ctx.cfg.get('quick') else range(0, len(LEAVES), 2))
    count = [start]

    def leaf(kind, _=0):
        count[0] += 1
        return (LEAVES if kind == 'n' else BLEAVES)[count[0] % (len(LEAVES) if kind == 'n' else len(BLEAVES))]
    where = set(ctx.choose('compound hole', [(h,) for h in range(-1, holes)])) if not c.get('two') else \
        set(ctx.choose('compound holes', [(a, b) for a in range(holes) for b in range(a + 1, holes)]))

    def filler(kind, h):
        if h not in where:
            return leaf(kind)
        inner = ctx.choose('inner%d' % h, NUM[:12] if kind == 'n' else BOOL[:8])
        return '(%s)' % fill(inner, leaf) if kind == 'n' or ctx.flag('parentheses') else fill(inner, leaf)
    text = fill(outer, filler)
    m, values = setup(ctx, 1)
    check_symbols(ctx, text)
    run_and_compare(ctx, m, values, [text], 1)


BAD = ['x if y else z', '[x]', '(x, y)', 'x[0]', '(lambda: x)', '{x}', "f'{x}'", '+x', '~x', '(x is y)', '(x is not y)', '(x in y)',
       '(x not in y)', 'foo(x)', 'T.foo(y)', 'T.sum(q=1)', 'T.sum(*y)', 'T.sum(**y)', 'T.sum(a, b)', 'T.sum()', '(x + y).a',
       '(x + y).sum(a)', 'foo(x).a', '[i for i in x]', '{i: 1 for i in x}', '{i for i in x}', '(i for i in x)', '(x := 1)',
       '{x: y}', "{x: 's'}", '{x: [1]}', '{1 + 2: 3}', '{x: -y}', 'x[1:2]', 'T.L.sum(n)(y)', '(T.a if y else x)', 'x + x.a',
       'T.a + T', 'T.M.sum(n) + T', 'T + T.M.sum(n)', '{f(x): 1}', '{x: 1 + 2}', 'x.y[0]']


def h_unsupported(ctx):
    from cheval.parsing.expressions import Expression
    c = ctx.cfg
    bad = ctx.choose('fragment', BAD)
    if c['outer'] < 0:
        text = bad
    else:
        outer = OUTER[c['outer']]
        hole = ctx.choose('hole', range(outer.count('{')))
        text = fill(outer, lambda kind, h: ('(%s)' % bad if not bad.startswith('{') else bad) if h == hole
                    else 'q' if kind == 'n' else 'q > 1')
    kind, r = outcome(lambda: Expression.parse(text))
    ctx.check(kind == 'error', 'unsupported syntax was accepted: %s' % text)
    ctx.check(r == 'UnsupportedSyntaxError', 'unsupported syntax raised %s: %s' % (r, text))


def h_names(ctx):
    """Many references, to names that resemble each other, keep apart."""
    ch = cheval()
    m = ch.ChoiceModel()
    m.add_choices(['c0', 'c1'])
    m.decision_units = pd.Index([10, 20])
    n = ctx.choose('references', [1, 2, 11, 12, 13, 22])
    tabs = {}
    for t in ('a', 'a1', 'a_1', 'dict0'):
        v = [ctx.real('%s_%d' % (t, i)) for i in range(2)]
        m.declare_table(t, 0)
        m[t].assign(pd.DataFrame({'p': ctx.column(v), 'q': [1.0 + len(tabs), 2.0 + len(tabs)]}, index=m.decision_units))
        tabs[t] = v
    order = ctx.choose('order', ['a first', 'a1 first', 'mixed'])
    refs = {'a first': ['a.p'] * n + ['a1.p', 'a1.q', 'a_1.p'], 'a1 first': ['a1.p', 'a_1.q', 'dict0.p'] + ['a.p'] * n,
            'mixed': [x for k in range(n) for x in (['a.p', 'a1.p', 'a_1.p', 'dict0.q'][k % 4],)] + ['a1.q', 'a.q']}[order]
    two = ctx.flag('in two expressions')
    texts = [' + '.join(refs)] if not two else [' + '.join(refs[:3]), ' + '.join(refs[3:])]
    if ctx.flag('dict'):
        texts = [t + ' + {c0: 1, c1: 2}' for t in texts if t]
    for t in texts:
        if t:
            m.expressions.append(t)
    p, ls, terms = m.run_stochastic()
    qs = {t: k for k, t in enumerate(tabs)}
    for i in range(2):
        u = 0.0
        for ref in refs:
            t, col = ref.split('.')
            u = u + (tabs[t][i] if col == 'p' else 1.0 + qs[t] + i)
        for j in range(2):
            d = sum(1 for t in texts if '{' in t) * (j + 1)
            ctx.check_eq(terms.iat[i, j], ctx.exp(u + d), 'value of %s' % texts)


def h_consistent(ctx):
    """A name is used plainly or dotted, across all expressions and groups of a model."""
    m = cheval().ChoiceModel()
    a = ctx.choose('first', ['s', 's.a', 's.sum(b)', 't + 1', '2 * s', 't.s', '{s: 1}', 'where(s > 1, 1, 2)', 't.sum(s)'])
    b = ctx.choose('second', ['s', 's.a', 's.l.sum(b)', 't', 't.a', 'abs(s)', '1 + s.a'])
    g1, g2 = ctx.choose('group 1', [None, 'g']), ctx.choose('group 2', [None, 'g', 'h'])
    m.expressions.append(a, group=g1)
    kind, r = outcome(lambda: m.expressions.append(b, group=g2))
    (p1, d1), (p2, d2) = uses(a), names_used(b)
    clash = (p1 & d2) | (d1 & p2)
    if clash:
        ctx.check(kind == 'error' and r == 'UnsupportedSyntaxError', '%s, then %s: %s' % (a, b, r if kind == 'error' else 'accepted'))
    else:
        ctx.check(kind == 'ok', '%s, then %s: %s' % (a, b, r))
    ctx.check(len(list(m.expressions)) == (1 if clash else 2), 'number of expressions')


def uses(text):
    return (set(), set()) if text.startswith('{') else names_used(text)


SPECIAL = [
    ['where(T.a != None, x, y)'], ['where(x == NaN, z, y)'], ['where((x > 0) and (not (y > 0)), NEG_INF + 1, k) * 0 + k * 0 + x']
    ][:2] + [
    ['T.L.b + T.L_b'], ['T.b_L - T.L.b * 3'], ['T.L.b - T.b_L', 'T.L.b'], ['T.L_b', 'T.L.b * 2', 'T.L_b - T.L.b'], ['T.L.M.sum(n) - T.L.M_n + T.M.sum(n)'], ['T.M.sum(n)+T.M.sum(n+zone)+T.M.count(n)'],
    ['x - y - z', 'x - (y - z)'], ['x / 2 / 4'], ['-x * -y'], ['T.M.sum(n + zone) - T.M.sum(n)'], ['T.M.first(n) - T.M.last(n) * 2'],
    ['T.M.mean(n) * x', 'T.M.min(n)'], ['T.a * T.a + T.zone * T.L.b'], ['x', 'x', 'T.a', 'T.a'], ['2 ** 3 + k'], ['where(0 < x < 1 < y, 1, 2)'],
    ['T.M.sum(n > 1) + T.M.sum(n)'], ['(x > 0) + (y > 0) * 2'], ['1 - 2 - 3 + x'], ['abs(x - abs(y))'],
    ['where(not x > 0 and not y > 0, 1, 0) + k'], ['where(not (x > 0 or y > 0), 1, 0) * k'], ['x * (y + (z - (k - 1)))']]


def h_special(ctx):
    texts = ctx.choose('expressions', SPECIAL)
    m, values = setup(ctx)
    values.update({'T.a != None': lambda i, j: True, 'x == NaN': lambda i, j: False})
    run_and_compare(ctx, m, values, texts)
