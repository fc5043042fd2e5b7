"""Symbolic real numbers.

A value is a Laurent polynomial over atoms with rational coefficients (a normal form, so that equal expressions mostly meet
syntactically; what is left goes to z3).  Atoms are: input variables, exp(m/q) of a monomial m, log(p) of a polynomial, 1/p of
a polynomial, and other functions applied to a polynomial.  Infinite values and NaN are ordinary Python floats and never
symbolic.  Real arithmetic: rounding is not modelled here.
"""
from __future__ import annotations

import math
from fractions import Fraction

import z3

from . import engine
from .engine import SBool, SInt, Unsupported, mkbool

ATOMS = []      # per path
TABLE = {}      # key -> atom index
INF = float('inf')
HASH = 19


class Atom:
    __slots__ = ('kind', 'key', 'z', 'pos', 'poly', 'zi', 'arg')

    def __init__(self, kind, key, z, pos, poly=None, arg=None):
        self.kind, self.key, self.z, self.pos, self.poly, self.zi, self.arg = kind, key, z, pos, poly, None, arg


def reset():
    ATOMS.clear()
    TABLE.clear()


def _atom(kind, key, pos, poly=None, name=None, arg=None):
    i = TABLE.get((kind, key))
    if i is None:
        i = len(ATOMS)
        z = z3.Real(name or '%s#%d' % (kind, i))
        ATOMS.append(Atom(kind, key, z, pos, poly, arg))
        TABLE[(kind, key)] = i
        if pos:
            engine.CUR.add(z > 0)
        return i, True
    return i, False


def new_var(name, pos=False):
    i, _ = _atom('var', name, pos, name=name)
    return SReal({((i, 1),): Fraction(1)})


def lift_fraction(x):
    """The rational a Python number stands for; decimal literals are taken at face value."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    f = float(x)
    if f == int(f):
        return Fraction(int(f))
    r = Fraction(f).limit_denominator(10 ** 6)
    return r if float(r) == f else Fraction(f)


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0)


def num(x):
    """Normalise a scalar operand: SReal, or a Python float/Fraction; None if it is not a number."""
    if isinstance(x, SReal):
        return x
    if isinstance(x, SBool):
        return 1 if bool(x) else 0
    if isinstance(x, SInt):
        return from_int(x)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        return float(x)
    if hasattr(x, 'dtype') and getattr(x, 'ndim', None) == 0:
        try:
            return num(x.item())
        except (AttributeError, ValueError):
            return None
    return None


def from_int(x):
    i, new = _atom('int', str(x.z), False)
    if new:
        engine.CUR.add(ATOMS[i].z == z3.ToReal(x.z))
    return SReal({((i, 1),): Fraction(1)})


def _mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            del d[i]
    return tuple(sorted(d.items()))


def _pow_mono(m, n):
    return tuple((i, e * n) for i, e in m)


def p_add(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + sb * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    if len(a) * len(b) > 20000:
        raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mul_mono(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    # inv(S)^k * S  is left to the equality check (denominators are cleared there)
    return r


def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def mono_pos(m):
    return all(ATOMS[i].pos or e % 2 == 0 and _nonzero(i) for i, e in m)


def _nonzero(i):
    return ATOMS[i].pos or ATOMS[i].kind == 'inv'


def p_sign(p):
    """+1/-1/0 if the sign is evident, else None"""
    if not p:
        return 0
    signs = set()
    for m, c in p.items():
        if not mono_pos(m):
            return None
        signs.add(1 if c > 0 else -1)
    return signs.pop() if len(signs) == 1 else None


def p_z3(p):
    if not p:
        return z3.RealVal(0)
    terms = []
    for m in sorted(p):
        c = p[m]
        fs = []
        for i, e in m:
            a = ATOMS[i]
            if e > 0:
                fs.extend([a.z] * e)
            else:
                fs.extend([_inv_z(a)] * (-e))
        if not fs:
            terms.append(z3.RealVal(c))
        else:
            t = fs[0] if len(fs) == 1 else z3.Product(*fs)
            terms.append(t if c == 1 else z3.RealVal(c) * t)
    return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def _inv_z(a):
    if a.zi is None:
        if a.kind == 'inv':
            a.zi = p_z3(a.poly)
        else:
            a.zi = z3.Real('1/%s' % a.z)
            # defined only where the atom is non-zero (SReal division makes sure of that)
            engine.CUR.add(a.zi * a.z == 1)
    return a.zi


def p_key(p):
    return tuple(sorted(p.items()))


def clear_denominators(*ps):
    """Multiply all polynomials by the same non-zero factor so that no inverse atom and no negative power is left.
    Returns (polys, sign_known_positive)."""
    ps = [dict(p) for p in ps]
    positive = True
    for _ in range(200):
        # largest inv atom present
        top = -1
        for p in ps:
            for m in p:
                for i, e in m:
                    if ATOMS[i].kind == 'inv' and i > top:
                        top = i
        if top >= 0:
            S = ATOMS[top].poly
            k = max((e for p in ps for m in p for i, e in m if i == top), default=0)
            k = max(k, 0)
            if p_sign(S) != 1 and k % 2:
                if p_sign(S) == -1:
                    ps = [{m: -c for m, c in p.items()} for p in ps]
                else:
                    positive = False
            powers = {0: {(): Fraction(1)}}
            need = set()
            for p in ps:
                for m in p:
                    need.add(k - dict(m).get(top, 0))
            for n in range(1, max(need, default=0) + 1):
                powers[n] = p_mul(powers[n - 1], S)
            out = []
            for p in ps:
                r = {}
                groups = {}
                for m, c in p.items():
                    e = dict(m).get(top, 0)
                    rest = tuple(x for x in m if x[0] != top)
                    groups.setdefault(k - e, {})[rest] = c
                for n, g in groups.items():
                    r = p_add(r, p_mul(g, powers[n]))
                out.append(r)
            ps = out
            continue
        break
    else:
        raise Unsupported('too many nested divisions')
    low = {}
    for p in ps:
        for m in p:
            for i, e in m:
                if e < low.get(i, 0):
                    low[i] = e
    if low:
        f = tuple(sorted((i, -e) for i, e in low.items()))
        for i, e in f:
            if e % 2 and not ATOMS[i].pos:
                positive = False
        ps = [{_mul_mono(m, f): c for m, c in p.items()} for p in ps]
    return ps, positive


def content(p):
    """p = c * m * q with q normalised (first coefficient 1, no common factor)."""
    monos = sorted(p)
    low = None
    for m in monos:
        d = dict(m)
        if low is None:
            low = d
        else:
            low = {i: min(low.get(i, 0), d.get(i, 0)) for i in set(low) | set(d)}
    low = {i: e for i, e in (low or {}).items() if e and (ATOMS[i].pos or _nonzero(i))}
    m = tuple(sorted(low.items()))
    mi = _pow_mono(m, -1)
    q = {_mul_mono(k, mi): c for k, c in p.items()}
    lead = q[min(q)]
    q = {k: c / lead for k, c in q.items()}
    return lead, m, q


class SReal:
    __slots__ = ('p',)
    __array_priority__ = -1

    def __init__(self, p):
        self.p = p

    def z(self):
        return p_z3(self.p)

    def __hash__(self): return HASH

    def __repr__(self):
        return 'SReal(%s)' % (self.z() if len(self.p) < 20 else '...')

    # arithmetic ------------------------------------------------------------------------------------------------------
    def __add__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SReal):
            return mk(p_add(self.p, o.p))
        if isinstance(o, float) and not math.isfinite(o):
            return o
        return mk(p_add(self.p, p_const(lift_fraction(o))))
    __radd__ = __add__

    def __neg__(self): return mk({m: -c for m, c in self.p.items()})
    def __pos__(self): return self

    def __sub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def _sign(self):
        s = p_sign(self.p)
        if s is not None:
            return s
        if bool(self > 0):
            return 1
        if bool(self < 0):
            return -1
        return 0

    def __mul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SReal):
            return mk(p_mul(self.p, o.p))
        if isinstance(o, float) and not math.isfinite(o):
            if o != o:
                return o
            s = self._sign()
            return float('nan') if s == 0 else (o if s > 0 else -o)
        f = lift_fraction(o)
        return mk({m: c * f for m, c in self.p.items()} if f else {})
    __rmul__ = __mul__

    def inverse(self):
        p = self.p
        if not p or (p_sign(p) is None and bool(self == 0)):
            raise ZeroDivisionError('division by zero')
        if len(p) == 1:
            (m, c), = p.items()
            for i, e in m:
                if ATOMS[i].kind == 'inv':
                    return mk(p_mul(p_mul({tuple(x for x in _pow_mono(m, -1) if x[0] != i): 1 / c}, {(): Fraction(1)}),
                                    _ppow(ATOMS[i].poly, e) if e > 0 else {((i, -e),): Fraction(1)}))
            return mk({_pow_mono(m, -1): 1 / c})
        c, m, q = content(p)
        if len(q) == 1:
            return mk({_pow_mono(m, -1): 1 / c})
        s = p_sign(q)
        if s == -1:
            q = {k: -v for k, v in q.items()}
            c, s = -c, 1
        i, new = _atom('inv', p_key(q), s == 1, poly=q)
        if new:
            engine.CUR.add(ATOMS[i].z * p_z3(q) == 1)
        return mk(p_mul({((i, 1),): 1 / c}, {_pow_mono(m, -1): Fraction(1)}))

    def __truediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SReal):
            return self * o.inverse()
        if isinstance(o, float) and not math.isfinite(o):
            return float('nan') if o != o else 0.0
        if o == 0:
            raise ZeroDivisionError('division by zero')
        return self * (1 / lift_fraction(o))

    def __rtruediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SReal) and o == 0:
            return 0.0
        return self.inverse() * o

    def __pow__(self, o, mod=None):
        o = num(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, SReal) and o == int(o) and abs(o) <= 8:
            n = int(o)
            if n == 0:
                return 1.0
            base = self if n > 0 else self.inverse()
            r = base
            for _ in range(abs(n) - 1):
                r = r * base
            return r
        return s_pow(self, o)

    def __rpow__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return s_pow(o, self)

    def __abs__(self):
        return self if self._sign() >= 0 else -self

    def __floordiv__(self, o): raise Unsupported('floor division of a symbolic real')
    __rfloordiv__ = __floordiv__

    def __mod__(self, o):
        return s_fn('mod', self, o)

    def __rmod__(self, o):
        return s_fn('mod', o, self)

    # comparison ------------------------------------------------------------------------------------------------------
    def _cmp(self, o, op):
        if o is self:
            return _OPS[op](0, 0)
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float) and not math.isfinite(o):
            return _OPS[op](0.0, o)
        if isinstance(o, SReal):
            a, b = self.p, o.p
        else:
            a, b = self.p, p_const(lift_fraction(o))
        d = p_add(a, b, -1)
        s = p_sign(d)
        if s is not None:
            return _OPS[op](s, 0)
        (n,), positive = clear_denominators(d)
        s = p_sign(n)
        if s is not None and positive:
            return _OPS[op](s, 0)
        if not positive and op not in ('eq', 'ne'):
            z = p_z3(d)
        else:
            z = p_z3(n)
        return mkbool(_OPS[op](z, z3.RealVal(0)))

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __bool__(self): return bool(self != 0)

    # conversions -----------------------------------------------------------------------------------------------------
    def __float__(self):
        if engine.CUR is not None:
            engine.CUR.poisoned = 'symbolic real converted to a machine float'
        raise Unsupported('symbolic real converted to a machine float')
    __int__ = __index__ = __float__

    # numpy calls these methods when a ufunc meets an object array
    def exp(self): return s_exp(self)
    def log(self): return s_log(self)
    def sqrt(self): return s_pow(self, Fraction(1, 2))
    def conjugate(self): return self
    def log1p(self): return s_log(self + 1)
    def expm1(self): return s_exp(self) - 1
    def square(self): return self * self
    def isnan(self): return False
    def isfinite(self): return True
    def item(self): return self


_OPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
        'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def _ppow(p, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = p_mul(r, p)
    return r


def mk(p):
    """SReal, or a Python float when the polynomial is a constant that a float represents exactly"""
    if not p:
        return 0.0
    if len(p) == 1 and () in p:
        c = p[()]
        f = float(c)
        if lift_fraction(f) == c:
            return f
    return SReal(p)


def poly(x):
    return x.p if isinstance(x, SReal) else p_const(lift_fraction(x))


def s_exp(x):
    x = num(x)
    if not isinstance(x, SReal):
        x = float(x)
        if x != x:
            return x
        if x == -INF:
            return 0.0
        if x == INF:
            return INF
        if x == 0:
            return 1.0
        x = SReal(p_const(lift_fraction(x)))
    r = {(): Fraction(1)}
    for m, c in x.p.items():
        p, q = c.numerator, c.denominator
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' and q == 1 and abs(p) <= 8:
            base = SReal(ATOMS[m[0][0]].poly)
            base = base ** p
            r = p_mul(r, poly(base))
            continue
        if abs(p) > 64:
            i, _ = _atom('exp', (m, c), True, arg=(m, c))
            r = p_mul(r, {((i, 1),): Fraction(1)})
            continue
        i, new = _atom('exp', (m, q), True, arg=(m, Fraction(1, q)))
        if new:
            _relate_exp(m, q, i)
        r = p_mul(r, {((i, p),): Fraction(1)})
    # merge: powers of inverses etc. keep the Laurent form
    return mk(r)


def _relate_exp(m, q, i):
    """exp(m/q)^q is the same number for every q"""
    z = ATOMS[i].z
    if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log' and q <= 8:
        engine.CUR.add(z3.Product(*([z] * q)) == p_z3(ATOMS[m[0][0]].poly) if q > 1 else z == p_z3(ATOMS[m[0][0]].poly))
    for (kind, key), j in list(TABLE.items()):
        if kind == 'exp' and j != i and len(key) == 2 and key[0] == m and isinstance(key[1], int) and key[1] <= 8 and q <= 8:
            g = math.gcd(q, key[1])
            a, b = q // g, key[1] // g   # exp(m/q)^a == exp(m/key1)^b
            engine.CUR.add(z3.Product(*([z] * a), z3.RealVal(1)) == z3.Product(*([ATOMS[j].z] * b), z3.RealVal(1)))


def s_log(x):
    x = num(x)
    if not isinstance(x, SReal):
        x = float(x)
        if x != x or x == INF:
            return x
        if x < 0 or x == -INF:
            return float('nan')
        if x == 0:
            return -INF
        if x == 1:
            return 0.0
        x = SReal(p_const(lift_fraction(x)))
    s = p_sign(x.p)
    if s is None:
        s = 1 if bool(x > 0) else (0 if bool(x == 0) else -1)
    if s == 0:
        return -INF
    if s < 0:
        return float('nan')
    c, m, q = content(x.p)
    if c < 0:
        c, q = -c, {k: -v for k, v in q.items()}
    r = {}
    if c != 1:
        i, _ = _atom('log', p_key(p_const(c)), False, poly=p_const(c))
        r = p_add(r, {((i, 1),): Fraction(1)})
    if not all(ATOMS[i].pos for i, e in m):
        q = p_mul(q, {m: Fraction(1)})
        m = ()
    for i, e in m:
        a = ATOMS[i]
        if a.kind == 'exp':
            mm, k = a.arg
            r = p_add(r, {mm: k * e})
        elif a.kind == 'inv':
            l = s_log(SReal(a.poly))
            r = p_add(r, {k: -e * v for k, v in poly(l).items()})
        else:
            j, _ = _atom('log', p_key({((i, 1),): Fraction(1)}), False, poly={((i, 1),): Fraction(1)})
            r = p_add(r, {((j, 1),): Fraction(e)})
    if q != {(): Fraction(1)}:
        j, _ = _atom('log', p_key(q), False, poly=q)
        r = p_add(r, {((j, 1),): Fraction(1)})
    return mk(r)


def s_pow(a, b):
    a, b = num(a), num(b)
    if not isinstance(b, SReal):
        if float(b) == int(b) and abs(b) <= 8:
            return a ** int(b)
    if not isinstance(a, SReal) and not isinstance(b, SReal):
        return float(a) ** float(b)
    if isinstance(a, SReal):
        s = a._sign()
        if s == 0:
            if not isinstance(b, SReal):
                return 0.0 if b > 0 else (1.0 if b == 0 else INF)
            return s_fn('pow', a, b)
        if s < 0:
            return s_fn('pow', a, b)
    elif a <= 0:
        if a == 0 and isinstance(b, SReal):
            sb = b._sign()
            return 0.0 if sb > 0 else (1.0 if sb == 0 else INF)
        return s_fn('pow', a, b)
    la = s_log(a)
    return s_exp(la * b)


def s_fn(name, *args):
    """Any other function: uninterpreted (equal arguments give equal results; nothing else is known)"""
    args = [num(a) for a in args]
    if not any(isinstance(a, SReal) for a in args):
        import numpy as np
        if name == 'mod':
            return float(args[0]) % float(args[1])
        return float(getattr(np, name)(*[float(a) for a in args]))
    if any(isinstance(a, float) and not math.isfinite(a) for a in args):
        raise Unsupported('%s of an infinite value and a symbol' % name)
    f = z3.Function('fn_' + name, *([z3.RealSort()] * (len(args) + 1)))
    i, new = _atom('fn:' + name, tuple(p_key(poly(a)) for a in args), False)
    if new:
        engine.CUR.add(ATOMS[i].z == f(*[p_z3(poly(a)) for a in args]))
    return SReal({((i, 1),): Fraction(1)})


def values_equal(a, b):
    """A condition (bool or SBool) for: a and b are the same value"""
    if a is None or b is None:
        return a is b
    for x in (a, b):
        if isinstance(x, (str, bytes, tuple)):
            r = a == b
            return r if isinstance(r, SBool) else bool(r)
    if isinstance(a, SInt) or isinstance(b, SInt):
        if not isinstance(a, SReal) and not isinstance(b, SReal):
            r = a == b
            return r if isinstance(r, SBool) else bool(r)
    na, nb = num(a), num(b)
    if na is None or nb is None:
        r = a == b
        return r if isinstance(r, SBool) else bool(r)
    fa, fb = isinstance(na, float) and not math.isfinite(na), isinstance(nb, float) and not math.isfinite(nb)
    if fa or fb:
        if isinstance(na, SReal) or isinstance(nb, SReal):
            return False
        return (na == nb) or (na != na and nb != nb)
    if not isinstance(na, SReal) and not isinstance(nb, SReal):
        if lift_fraction(na) == lift_fraction(nb):
            return True
        return abs(float(na) - float(nb)) <= 1e-12 + 1e-9 * max(abs(float(na)), abs(float(nb)))
    (pa, pb), _ = clear_denominators(poly(na), poly(nb))
    return SBool(p_z3(pa) == p_z3(pb))


def suggest(model, inputs):
    """exp is uninterpreted: a model may pair an argument with any positive number.  Values of the real inputs for which the
    exponentials come out as in the model, as far as one input each can be chosen for that."""
    out = {}
    for a in ATOMS:
        if a.kind != 'exp' or a.arg is None:
            continue
        m, c = a.arg
        e = engine.num_to_float(model.eval(a.z, model_completion=True))
        if not e > 0:
            continue
        want = math.log(e) / float(c)
        free, rest = None, 1.0
        for i, k in m:
            b = ATOMS[i]
            if b.kind == 'var' and k == 1 and free is None and str(b.z) not in out and str(b.z) in inputs \
                    and not b.pos:
                free = str(b.z)
            elif str(b.z) in out:
                rest *= out[str(b.z)] ** k
            else:
                rest *= engine.num_to_float(model.eval(b.z, model_completion=True)) ** k
        if free is not None and rest and math.isfinite(want / rest):
            out[free] = want / rest
    return out
