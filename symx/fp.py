"""Bit-precise IEEE double proxies (round to nearest even)."""
from __future__ import annotations

import z3

from .engine import SBool, Unsupported, mkbool

FPS = z3.FPSort(11, 53)
RM = z3.RNE()


def lift(o):
    if isinstance(o, SFloat):
        return o.z
    if isinstance(o, bool) or isinstance(o, SBool):
        return None
    if isinstance(o, (int, float)) or hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0:
        return z3.FPVal(float(o), FPS)
    return None


def _bin(f):
    def op(self, o):
        z = lift(o)
        return NotImplemented if z is None else SFloat(z3.simplify(f(self.z, z)))

    def rop(self, o):
        z = lift(o)
        return NotImplemented if z is None else SFloat(z3.simplify(f(z, self.z)))
    return op, rop


def _cmp(f):
    def op(self, o):
        z = lift(o)
        return NotImplemented if z is None else mkbool(f(self.z, z))
    return op


class SFloat:
    __slots__ = ('z',)
    __array_priority__ = -1

    def __init__(self, z):
        self.z = z

    __add__, __radd__ = _bin(lambda a, b: z3.fpAdd(RM, a, b))
    __sub__, __rsub__ = _bin(lambda a, b: z3.fpSub(RM, a, b))
    __mul__, __rmul__ = _bin(lambda a, b: z3.fpMul(RM, a, b))
    __truediv__, __rtruediv__ = _bin(lambda a, b: z3.fpDiv(RM, a, b))
    __lt__, __le__, __gt__, __ge__ = (_cmp(z3.fpLT), _cmp(z3.fpLEQ), _cmp(z3.fpGT), _cmp(z3.fpGEQ))
    __eq__, __ne__ = _cmp(z3.fpEQ), _cmp(z3.fpNEQ)

    def __hash__(self): return 23
    def __neg__(self): return SFloat(z3.fpNeg(self.z))
    def __abs__(self): return SFloat(z3.fpAbs(self.z))
    def __bool__(self): return bool(self != 0)

    def __float__(self): raise Unsupported('symbolic double converted to a machine float')
    __int__ = __index__ = __float__
    def __repr__(self): return 'SFloat(%s)' % self.z
