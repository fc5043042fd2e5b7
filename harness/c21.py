"""C21: missing-value fills follow the documented precedence and scope."""
from decimal import Decimal

from .common import *
from .links import *

NUMBA = False
BOUNDS = {
    'quick': 'every sequence of 3 of 20 fill operations (class, frame, column, temporary and nested blocks, left normally or by an exception, '
             'new frames) over three target frames, one of them plain; fill values any real; 8 types of columns; one row with any key; '
             'chains of 2 links',
    'thorough': 'as quick with sequences of 4'}
ASSUME = ['fills of frames derived from other frames (slices, copies) are outside the claim']
nan = float('nan')
NAT = np.datetime64('nat')
DOC = {'INT_NAME': 0, 'UINT_NAME': 0, 'FLOAT_NAME': nan, 'BOOL_NAME': False, 'TEXT_NAME': '', 'CAT_NAME': nan, 'TIME_NAME': NAT, 'OBJ_NAME': None}
COLS = {'v': 'FLOAT_NAME', 'w': 'FLOAT_NAME', 'n': 'INT_NAME', 't': 'TEXT_NAME', 'b': 'BOOL_NAME'}


def jobs(tier):
    big = tier == 'thorough'
    parts = 40 if big else 10
    out = [('h_program', dict(length=4 if big else 3, part=p, parts=parts)) for p in range(parts)]
    out += [('h_types', dict(type=t)) for t in sorted(TYPES)]
    out += [('h_chain', {}), ('h_scope', {}), ('h_refused', {}), ('h_columns', {}), ('h_blocks', {}), ('h_subclass', {})]
    return out


class Boom(Exception):
    pass


class World:
    def __init__(self, ctx):
        self.ctx, self.L = ctx, ldf()
        self.L.reset_fill_defaults()
        self.cls = dict(DOC)
        self.k = ctx.key('k', 0, 5)
        self.targets = {}
        self.inst, self.col = {}, {}
        for name in ('A', 'B'):
            self.new(name)
        self.new('P', plain=True)
        self.fill = [ctx.real('f%d' % i) for i in range(3)]

    def new(self, name, plain=False):
        ctx = self.ctx
        cls = pd.DataFrame if plain else self.L
        d = cls({'n': [7, 8], 't': ['x', 'yy'], 'b': [True, True], 'w': [0.5, 1.5]}, index=pd.Index(ctx.keys([2, 4])))
        d['v'] = ctx.column([1.0, 2.0])
        a = self.L({'z': [0, 0]}, index=['r', 's'])
        a['key'] = ctx.keys([self.k, None])
        a.link_to(d, 'ln', on_self='key')
        self.targets[name] = (a, d)
        self.inst[name] = None if plain else dict(self.cls)
        self.col[name] = {}

    def expected(self, name, column):
        if column in self.col[name]:
            return self.col[name][column]
        return (self.cls if self.inst[name] is None else self.inst[name])[COLS[column]]

    def check(self, what):
        ctx = self.ctx
        hit = match([self.k], [2, 4])[0]
        vals = {'v': [1.0, 2.0], 'w': [0.5, 1.5], 'n': [7, 8], 't': ['x', 'yy'], 'b': [True, True]}
        for name, (a, d) in self.targets.items():
            for column in COLS:
                f = self.expected(name, column)
                want = [vals[column][hit[0]] if hit else f, f]
                s = a.ln[column]
                for i, w in enumerate(want):
                    ctx.check(same(ctx, s.iat[i], w), '%s: the row %d of %s of %s is %r instead of %r' % (what, i, column, name, s.iat[i], w))


OPS = ['class float', 'class int', 'class text', 'class reset', 'A float', 'A int and bool', 'A reset', 'B float', 'B text', 'B reset', 'A column v',
       'A column n', 'B column v', 'new frame', 'new plain', 'A temp', 'class temp', 'A temp raises', 'class temp raises', 'A temp nested', 'class temp new frame']


def run(w, name, fill, i, check=True):
    """One operation on the frames and on the model of them."""
    ctx, L = w.ctx, w.L
    A, B = w.targets['A'][1], w.targets['B'][1]

    def put(target, model, **kw):
        (L if target is None else target).set_fill_defaults(**kw)
        model.update(kw)
    if name == 'class float':
        put(None, w.cls, FLOAT_NAME=fill)
    elif name == 'class int':
        put(None, w.cls, INT_NAME=-5)
    elif name == 'class text':
        put(None, w.cls, TEXT_NAME='class', BOOL_NAME=True)
    elif name == 'class reset':
        L.reset_fill_defaults()
        w.cls = dict(DOC)
    elif name == 'A float':
        put(A, w.inst['A'], FLOAT_NAME=fill)
    elif name == 'A int and bool':
        put(A, w.inst['A'], INT_NAME=-6, BOOL_NAME=True)
    elif name in ('A reset', 'B reset'):
        w.targets[name[0]][1].reset_fill_defaults()
        w.inst[name[0]] = dict(DOC)
    elif name == 'B float':
        put(B, w.inst['B'], FLOAT_NAME=fill)
    elif name == 'B text':
        put(B, w.inst['B'], TEXT_NAME='b')
    elif name in ('A column v', 'B column v'):
        w.targets[name[0]][1].set_column_fill('v', fill)
        w.col[name[0]]['v'] = fill
    elif name == 'A column n':
        w.targets['A'][0].get_link_target('ln').set_column_fill('n', -9)
        w.col['A']['n'] = -9
    elif name == 'new frame':
        w.new('new%d' % i)
    elif name == 'new plain':
        w.new('plain%d' % i, plain=True)
    else:
        target, model = (A, w.inst['A']) if name[0] == 'A' else (L, w.cls)
        before = dict(model)
        kw = {'FLOAT_NAME': fill, 'TEXT_NAME': 'temp'}
        try:
            with target.temporary_fill_defaults(**kw):
                model.update(kw)
                if check:
                    w.check('inside ' + name)
                if 'raises' in name:
                    raise Boom
                if 'new frame' in name:
                    w.new('inner%d' % i)
                if 'nested' in name:
                    inner = dict(model)
                    with target.temporary_fill_defaults(FLOAT_NAME=-1.25, INT_NAME=-7):
                        model.update(FLOAT_NAME=-1.25, INT_NAME=-7)
                        w.check('inside the nested block')
                    model.update(inner)
                    w.check('after the nested block')
        except Boom:
            ctx.check('raises' in name, 'an exception came out of nowhere')
        else:
            ctx.check('raises' not in name, 'the exception was swallowed')
        model.update(before)


def h_program(ctx):
    c = ctx.cfg
    w = World(ctx)
    try:
        names = [ctx.choose('op0', OPS[c['part']::c['parts']])] + [ctx.choose('op%d' % i, OPS) for i in range(1, c['length'])]
        for i, name in enumerate(names):
            run(w, name, w.fill[i % 3], i, i + 1 == len(names))
        w.check(', '.join(names))
    finally:
        w.L.reset_fill_defaults()


TYPES = {   # values, the type, its documented default, another default, a column fill
    'int64': (np.array([5, 6]), 'INT_NAME', 0, -3, 77), 'int32': (np.array([5, 6], 'i4'), 'INT_NAME', 0, -3, 77), 'int16': (np.array([5, 6], 'i2'), 'INT_NAME', 0, -3, 77),
    'int8': (np.array([5, 6], 'i1'), 'INT_NAME', 0, -3, 77), 'uint8': (np.array([5, 6], 'u1'), 'UINT_NAME', 0, 3, 77), 'uint64': (np.array([5, 6], 'u8'), 'UINT_NAME', 0, 3, 77),
    'uint16': (np.array([5, 6], 'u2'), 'UINT_NAME', 0, 3, 77), 'uint32': (np.array([5, 6], 'u4'), 'UINT_NAME', 0, 3, 77),
    'float64': (np.array([.5, .75]), 'FLOAT_NAME', nan, -1.5, 7.5), 'float32': (np.array([.5, .75], 'f4'), 'FLOAT_NAME', nan, -1.5, 7.5),
    'bool': (np.array([False, True]), 'BOOL_NAME', False, True, True), 'text': (np.array(['a', 'b'], object), 'TEXT_NAME', '', 'none', 'column'),
    'category': (pd.Categorical(['a', 'b'], categories=['a', 'b', 'c']), 'CAT_NAME', nan, 'b', 'c'),
    'object': (np.array([Decimal(1), Decimal(2)], object), 'OBJ_NAME', None, Decimal(7), Decimal(9)),
    'time': (np.array(['2020-01-01', '2021-01-01'], 'M8[ns]'), 'TIME_NAME', NAT, np.datetime64('2000-01-01'), np.datetime64('2001-01-01')),
}


def h_types(ctx):
    """Class, frame and column fills of every type, in every combination."""
    t = ctx.cfg['type']
    col, kind, default, other, colfill = TYPES[t]
    L = ldf()
    L.reset_fill_defaults()
    try:
        early = ctx.flag('class before')
        if early:
            L.set_fill_defaults(**{kind: other})
        plain = ctx.flag('plain')
        d = (pd.DataFrame if plain else L)({'q': pd.Series(col), 'key': ctx.keys([2, 4])})
        k = [ctx.key('k', 0, 5), None]
        a = L({'z': [0, 0]})
        a['key'] = ctx.keys(k)
        a.link_to(d, 'ln', on='key')
        want = other if early else default
        late = ctx.choose('class after', ['no', 'set', 'reset'])
        if late == 'set':
            L.set_fill_defaults(**{kind: other})
        elif late == 'reset':
            L.reset_fill_defaults()
        if plain and late != 'no':
            want = other if late == 'set' else default
        if not plain:
            own = ctx.choose('frame', ['no', 'set', 'reset', 'other type'])
            if own == 'set':
                d.set_fill_defaults(**{kind: other})
                want = other
            elif own == 'reset':
                d.reset_fill_defaults()
                want = default
            elif own == 'other type':
                d.set_fill_defaults(**{('INT_NAME' if kind != 'INT_NAME' else 'UINT_NAME'): 41, ('FLOAT_NAME' if kind != 'FLOAT_NAME' else 'OBJ_NAME'): 42})
            if ctx.flag('column'):
                d.set_column_fill('q', colfill)
                want = colfill
        hit = match(k, [2, 4])
        vals = [pd.Series(col).iat[i] for i in (0, 1)]
        block = ctx.choose('block', ['no', 'class'] + ([] if plain else ['frame']))
        if block != 'no':
            with (L if block == 'class' else d).temporary_fill_defaults(**{kind: other}):
                # a frame keeps the class-level fills of the time it was made
                inside = want if want is colfill else other if plain or block == 'frame' else want
                check_series(ctx, a.ln.q, a.index, [vals[h[0]] if h else inside for h in hit], 'lookup of %s in a %s block' % (t, block))
        check_series(ctx, a.ln.q, a.index, [vals[h[0]] if h else want for h in hit], 'lookup of %s (block: %s)' % (t, block))
    finally:
        L.reset_fill_defaults()


def h_chain(ctx):
    """The fill is that of the frame which has the column, wherever the chain breaks."""
    L = ldf()
    L.reset_fill_defaults()
    fb, fc, fd = ctx.real('fb'), ctx.real('fc'), ctx.real('fd')
    k = [ctx.key('k0', 0, 5), ctx.key('k1', 0, 5)]
    q = ctx.key('q0', 0, 5)
    c = (L if ctx.flag('linked end') else pd.DataFrame)({'u': [0.5]}, index=pd.Index(ctx.keys([3])))
    b = L({'u': [1.5, 2.5], 'n': [3, 4]}, index=pd.Index(ctx.keys([1, 2])))
    b['to'] = ctx.keys([q, None])
    a = L({'u': [7.0, 8.0]})
    a['to'] = ctx.keys(k)
    a.link_to(b, 'b', on_self='to')
    b.link_to(c, 'c', on_self='to')
    b.set_fill_defaults(FLOAT_NAME=fb)
    a.set_fill_defaults(FLOAT_NAME=-99.0)
    a.set_column_fill('u', -98.0)
    endfill = nan
    if isinstance(c, L):
        how = ctx.choose('end fill', ['no', 'frame', 'column', 'both'])
        if how in ('frame', 'both'):
            c.set_fill_defaults(FLOAT_NAME=fc)
            endfill = fc
        if how in ('column', 'both'):
            c.set_column_fill('u', fd)
            endfill = fd
    h = match(k, [1, 2])
    check_series(ctx, a.b.u, a.index, [(1.5, 2.5)[p[0]] if p else fb for p in h], 'the first link')
    check_series(ctx, a.b.n, a.index, [(3, 4)[p[0]] if p else 0 for p in h], 'the first link')
    end = [0.5 if p and p[0] == 0 and match([q], [3])[0] else endfill for p in h]
    check_series(ctx, a.b.c.u, a.index, end, 'the second link')
    check_series(ctx, a.b.u, a.index, [(1.5, 2.5)[p[0]] if p else fb for p in h], 'the first link again')


def h_scope(ctx):
    """Frames made in different moments; readers and constructors."""
    L = ldf()
    L.reset_fill_defaults()
    try:
        f = [ctx.real('f%d' % i) for i in range(3)]
        frames = []

        def make():
            d = L({'v': [1.0]}, index=pd.Index(ctx.keys([1])))
            a = L({'z': [0]})
            a['key'] = ctx.keys([ctx.key('k', 2, 5)])
            a.link_to(d, 'ln', on_self='key')
            return a, d
        first = make()
        L.set_fill_defaults(FLOAT_NAME=f[0])
        second = make()
        first[1].set_fill_defaults(FLOAT_NAME=f[1])
        L.set_fill_defaults(FLOAT_NAME=f[2])
        third = make()
        order = ctx.choose('then', ['nothing', 'reset class', 'reset first', 'reset second'])
        want = [f[1], f[0], f[2]]
        if order == 'reset class':
            L.reset_fill_defaults()
        elif order == 'reset first':
            first[1].reset_fill_defaults()
            want[0] = nan
        elif order == 'reset second':
            second[1].reset_fill_defaults()
            want[1] = nan
        fourth = make()
        want.append(nan if order == 'reset class' else f[2])
        for i, (a, d) in enumerate((first, second, third, fourth)):
            check_series(ctx, a.ln.v, a.index, [want[i]], 'frame %d after %s' % (i, order))
    finally:
        L.reset_fill_defaults()


def h_refused(ctx):
    """Unknown types and columns."""
    w = World(ctx)
    try:
        A = w.targets['A'][1]
        what = ctx.choose('what', ['column', 'type', 'class type', 'temp type', 'temp class'])
        if what == 'column':
            kind, e = outcome(lambda: A.set_column_fill('nope', 1.0))
        elif what == 'type':
            kind, e = outcome(lambda: A.set_fill_defaults(FLOAT=1.0))
        elif what == 'class type':
            kind, e = outcome(lambda: w.L.set_fill_defaults(float=1.0))
        else:
            def enter():
                with (A if what == 'temp type' else w.L).temporary_fill_defaults(FLOAT_NAME=3.0, NOPE=1.0):
                    pass
            kind, e = outcome(enter)
        ctx.check(kind == 'error' and e == 'KeyError', '%s gave %s' % (what, e))
        w.check(what)
    finally:
        w.L.reset_fill_defaults()


def h_columns(ctx):
    """A column fill belongs to one column of one frame."""
    w = World(ctx)
    try:
        A, B = w.targets['A'][1], w.targets['B'][1]
        f = w.fill
        for i in range(2):
            what = ctx.choose('op%d' % i, ['v', 'w', 'again', 'B', 'replaced', 'zero', 'text', 'missing', 'false'])
            if what == 'v':
                A.set_column_fill('v', f[0]); w.col['A']['v'] = f[0]
            elif what == 'w':
                A.set_column_fill('w', f[1]); w.col['A']['w'] = f[1]
            elif what == 'again':
                A.set_column_fill('v', f[2]); w.col['A']['v'] = f[2]
            elif what == 'B':
                B.set_column_fill('v', f[1]); w.col['B']['v'] = f[1]
            elif what == 'replaced':
                A['v'] = ctx.column([1.0, 2.0])
            elif what == 'zero':
                A.set_fill_defaults(FLOAT_NAME=f[0]); w.inst['A']['FLOAT_NAME'] = f[0]
                A.set_column_fill('v', 0.0); w.col['A']['v'] = 0.0
                A.set_column_fill('n', 0); w.col['A']['n'] = 0
            elif what == 'text':
                A.set_fill_defaults(TEXT_NAME='none'); w.inst['A']['TEXT_NAME'] = 'none'
                A.set_column_fill('t', ''); w.col['A']['t'] = ''
            elif what == 'false':
                A.set_fill_defaults(BOOL_NAME=True); w.inst['A']['BOOL_NAME'] = True
                A.set_column_fill('b', False); w.col['A']['b'] = False
            else:
                A.set_fill_defaults(FLOAT_NAME=f[0]); w.inst['A']['FLOAT_NAME'] = f[0]
                A.set_column_fill('w', nan); w.col['A']['w'] = nan
            w.check('after %s' % what)
        A.reset_fill_defaults()
        w.inst['A'] = dict(DOC)
        w.check('after resetting the defaults')
    finally:
        w.L.reset_fill_defaults()


def h_blocks(ctx):
    """Changes inside temporary blocks."""
    w = World(ctx)
    try:
        A, L, f = w.targets['A'][1], w.L, w.fill
        before = ctx.choose('before', ['nothing', 'set', 'column'])
        if before == 'set':
            A.set_fill_defaults(FLOAT_NAME=f[0]); w.inst['A']['FLOAT_NAME'] = f[0]
            L.set_fill_defaults(FLOAT_NAME=-3.0); w.cls['FLOAT_NAME'] = -3.0
        elif before == 'column':
            A.set_column_fill('v', f[0]); w.col['A']['v'] = f[0]
        where = ctx.choose('block', ['A', 'class', 'both'])
        inside = ctx.choose('inside', ['nothing', 'other type', 'other frame', 'column', 'same type', 'reset other', 'twice'])
        leave = ctx.choose('leave', ['normally', 'exception', 'base exception'])
        saved = {}
        try:
            import contextlib
            with contextlib.ExitStack() as st:
                for n in (('A', 'class') if where == 'both' else (where,)):
                    t, m = (A, w.inst['A']) if n == 'A' else (L, w.cls)
                    saved[n] = m['FLOAT_NAME']
                    st.enter_context(t.temporary_fill_defaults(FLOAT_NAME=f[1]))
                    m['FLOAT_NAME'] = f[1]
                w.check('inside')
                if inside == 'other type':
                    A.set_fill_defaults(INT_NAME=-4); w.inst['A']['INT_NAME'] = -4
                elif inside == 'other frame':
                    B = w.targets['B'][1]
                    B.set_fill_defaults(FLOAT_NAME=f[2]); w.inst['B']['FLOAT_NAME'] = f[2]
                elif inside == 'column':
                    A.set_column_fill('w', f[2]); w.col['A']['w'] = f[2]
                elif inside == 'same type':
                    (L if where == 'class' else A).set_fill_defaults(FLOAT_NAME=f[2])
                    (w.cls if where == 'class' else w.inst['A'])['FLOAT_NAME'] = f[2]
                elif inside == 'reset other':
                    B = w.targets['B'][1]
                    B.reset_fill_defaults(); w.inst['B'] = dict(DOC)
                elif inside == 'twice':
                    with A.temporary_fill_defaults(FLOAT_NAME=f[2], BOOL_NAME=True):
                        keep = dict(w.inst['A'])
                        w.inst['A'].update(FLOAT_NAME=f[2], BOOL_NAME=True)
                        w.check('inside the inner block')
                    w.inst['A'] = keep
                w.check('later inside')
                if leave == 'exception':
                    raise Boom
                if leave == 'base exception':
                    raise KeyboardInterrupt
        except (Boom, KeyboardInterrupt):
            pass
        for n, v in saved.items():
            (w.inst['A'] if n == 'A' else w.cls)['FLOAT_NAME'] = v
        w.check('after the block')
    finally:
        w.L.reset_fill_defaults()


def h_subclass(ctx):
    """Frames read by the readers or made from other data take the defaults of the moment."""
    import io
    L = ldf()
    L.reset_fill_defaults()
    try:
        f = ctx.real('f')
        when = ctx.choose('class', ['default', 'set'])
        if when == 'set':
            L.set_fill_defaults(FLOAT_NAME=f)
        how = ctx.choose('made', ['csv', 'table', 'records', 'frame'])
        if how == 'csv':
            d = L.read_csv(io.StringIO('i,v\n5,0.5\n6,1.5\n'), index_col=0)
        elif how == 'table':
            d = L.read_table(io.StringIO('i\tv\n5\t0.5\n6\t1.5\n'), index_col=0)
        elif how == 'records':
            d = L.from_dict({'v': [0.5, 1.5]})
            d.index = [5, 6]
        else:
            d = L(pd.DataFrame({'v': [0.5, 1.5]}, index=[5, 6]))
        ctx.check(isinstance(d, L), 'the reader gives a %s' % type(d).__name__)
        L.reset_fill_defaults()
        d.index = pd.Index(ctx.keys([5, 6]))
        k = [ctx.key('k', 4, 7)]
        a = L({'z': [0]})
        a['key'] = ctx.keys(k)
        a.link_to(d, 'ln', on_self='key')
        check_series(ctx, a.ln.v, a.index, [(0.5, 1.5)[h[0]] if h else (f if when == 'set' else nan) for h in match(k, [5, 6])], 'frame made by %s' % how)
    finally:
        L.reset_fill_defaults()
