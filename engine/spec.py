"""Contract language.  A contract is written once and read in two ways:
symbolically (z3 terms, proof obligations) and concretely (python ints, the
oracle that replays counterexamples on the natively compiled code)."""
import z3
from smt import *


class N:
    """symbolic natural number of the specification (64-bit unsigned in the
    bit-vector encoding, mathematical in the integer encoding)"""
    __slots__ = ('d', 'v', 'e')
    W = 64

    def __init__(self, dom, v, eng=None):
        self.d, self.v, self.e = dom, v, eng

    def _c(self, o):
        if isinstance(o, N):
            return o.v
        if isinstance(o, bool):
            return int(o)
        if isinstance(o, int):
            return o & ((1 << 64) - 1) if self.d.name == 'bv' else o
        return o

    def _w(self, v):
        return N(self.d, v, self.e)

    def _ar(self, o, f, g):
        o = self._c(o)
        if self.d.name == 'bv':
            return self._w(f(self.v, o))
        r = g(self.v, o)
        if not is_const(r):
            r = simp(r)
            if z3.is_int_value(r):
                r = r.as_long()
        return self._w(r)

    def __add__(self, o):
        return self._ar(o, lambda a, b: self.d.add(a, b, 64), lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: self.d.sub(a, b, 64), lambda a, b: a - b)

    def __rsub__(self, o):
        return N(self.d, self._c(o), self.e) - self

    def __mul__(self, o):
        return self._ar(o, lambda a, b: self.d.mul(a, b, 64), lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._ar(o, lambda a, b: self.d.udiv(a, b, 64), lambda a, b: (a // b) if is_const(a) and is_const(b) else (z3.IntVal(a) if is_const(a) else a) / b)

    def __mod__(self, o):
        return self._ar(o, lambda a, b: self.d.urem(a, b, 64), lambda a, b: (a % b) if is_const(a) and is_const(b) else (z3.IntVal(a) if is_const(a) else a) % b)

    def __and__(self, o):
        return self._w(self.d.and_(self.v, self._c(o), 64))

    def __or__(self, o):
        return self._w(self.d.or_(self.v, self._c(o), 64))

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return self._w(self.d.xor(self.v, self._c(o), 64))

    def __lshift__(self, o):
        return self._w(self.d.shl(self.v, self._c(o), 64))

    def __rlshift__(self, o):
        return self._w(self.d.shl(self._c(o), self.v, 64))

    def __rshift__(self, o):
        return self._w(self.d.lshr(self.v, self._c(o), 64))

    def _cmp(self, pr, o):
        o = self._c(o)
        if self.d.name == 'bv':
            return self.d.cmp(pr, self.v, o, 64)
        if is_const(self.v) and is_const(o):
            return {'ult': self.v < o, 'ule': self.v <= o, 'ugt': self.v > o, 'uge': self.v >= o, 'eq': self.v == o, 'ne': self.v != o}[pr]
        a, b = self.d.mk(self.v, 64), self.d.mk(o, 64)
        return norm_bool({'ult': lambda: a < b, 'ule': lambda: a <= b, 'ugt': lambda: a > b, 'uge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[pr]())

    def __lt__(self, o):
        return self._cmp('ult', o)

    def __le__(self, o):
        return self._cmp('ule', o)

    def __gt__(self, o):
        return self._cmp('ugt', o)

    def __ge__(self, o):
        return self._cmp('uge', o)

    def __eq__(self, o):
        return self._cmp('eq', o)

    def __ne__(self, o):
        return self._cmp('ne', o)
    __hash__ = None

    def __bool__(self):
        raise TypeError('symbolic value used as a python bool')


# ---- connectives: work on python bools, z3 bools and quantified formulas -------
def _flat(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out += x
        else:
            out.append(x)
    return out


def And(*a):
    a = [x() if callable(x) and not z3.is_expr(x) else x for x in _shortc(a, False)]
    if any(x is False for x in a):
        return False
    a = [x for x in a if x is not True]
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    if all(z3.is_expr(x) for x in a):
        return z3.And(*a)
    return FAnd(a)


def _shortc(a, stop):
    """evaluate lambdas left to right, stopping at a decided value"""
    out = []
    for x in _flat(a):
        if callable(x) and not z3.is_expr(x):
            x = x()
        out.append(x)
        if x is stop:
            break
    return out


def Or(*a):
    a = _shortc(a, True)
    if any(x is True for x in a):
        return True
    a = [x for x in a if x is not False]
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    if all(z3.is_expr(x) for x in a):
        return z3.Or(*a)
    return FOr(a)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_expr(a):
        return z3.Not(a)
    return FNot(a)


def Implies(a, b):
    if a is False:
        return True
    if callable(b) and not z3.is_expr(b):
        if a is True:
            return b()
        b = b()
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if z3.is_expr(a) and z3.is_expr(b):
        return a == b
    return And(Implies(a, b), Implies(b, a))


def Ite(c, a, b):
    """value-level if"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool,)) or z3.is_expr(a) and z3.is_bool(a):
        return b_ite(c, a, b)
    n = a if isinstance(a, N) else b
    if not isinstance(n, N):
        # both constants
        raise TypeError('Ite on constants: wrap one side')
    return n._w(n.d.ite(c, n._c(a), n._c(b), 64))


def forall(lo, hi, f):
    if isinstance(lo, int) and isinstance(hi, int):
        if not _SYM[0]:
            return all(f(k) for k in range(lo, hi))
        if hi - lo <= 64:
            return And(*[f(k) for k in range(lo, hi)])
    return Forall(lo, hi, f)


def exists(lo, hi, f):
    if isinstance(lo, int) and isinstance(hi, int):
        if not _SYM[0]:
            return any(f(k) for k in range(lo, hi))
        if hi - lo <= 64:
            return Or(*[f(k) for k in range(lo, hi)])
    return Exists(lo, hi, f)


_SYM = [False]
NPOS = (1 << 64) - 1
