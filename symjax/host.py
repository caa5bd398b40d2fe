"""Symbolic integers for plain Python code.

HostInt behaves like an int; comparisons used as truth values, hashing, indexing and range
ask the path explorer.
"""
from __future__ import annotations

from .smt import z3
from .engine import ENGINE


def _z(x):
    if isinstance(x, HostInt):
        return x.z
    if isinstance(x, bool):
        return int(x)
    if hasattr(x, 'item') and not isinstance(x, (int, z3.ExprRef)):
        x = x.item()
    return x if isinstance(x, int) else NotImplemented


class HostBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ENGINE.decide(self.z)

    def __and__(self, o):
        return HostBool(z3.And(self.z, o.z if isinstance(o, HostBool) else bool(o)))

    def __or__(self, o):
        return HostBool(z3.Or(self.z, o.z if isinstance(o, HostBool) else bool(o)))

    def __invert__(self):
        return HostBool(z3.Not(self.z))

    __hash__ = None


def _mk(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else HostInt(z)


def _mb(z):
    if isinstance(z, bool):
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return HostBool(z)


class HostInt:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        o = _z(o)
        return NotImplemented if o is NotImplemented else _mk(f(self.z, o))

    def _cmp(self, o, f):
        o = _z(o)
        return NotImplemented if o is NotImplemented else _mb(f(self.z, o))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return _mk(-self.z)
    def __pos__(self): return self

    def __divmod__(self, o):
        return self // o, self % o

    def _pydiv(self, a, b, mod):
        # python semantics (floor) for a positive divisor, which is the only supported case
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError
            if b < 0:
                a, b = -a, -b
                if mod:
                    return _mk(-(a % b))
            return _mk(a % b) if mod else _mk(a / b)
        if not ENGINE.decide(b > 0):
            if ENGINE.decide(b == 0):
                raise ZeroDivisionError
            return _mk(-((-a) % (-b))) if mod else _mk((-a) / (-b))
        return _mk(a % b) if mod else _mk(a / b)

    def __mod__(self, o):
        o = _z(o)
        return NotImplemented if o is NotImplemented else self._pydiv(self.z, o, True)

    def __rmod__(self, o):
        o = _z(o)
        return NotImplemented if o is NotImplemented else self._pydiv(z3.IntVal(o) if isinstance(o, int) else o, self.z, True)

    def __floordiv__(self, o):
        o = _z(o)
        return NotImplemented if o is NotImplemented else self._pydiv(self.z, o, False)

    def __rfloordiv__(self, o):
        o = _z(o)
        return NotImplemented if o is NotImplemented else self._pydiv(z3.IntVal(o) if isinstance(o, int) else o, self.z, False)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0x5e1f            # equal hashes: membership is decided by ==

    def __bool__(self):
        return ENGINE.decide(self.z != 0)

    def __index__(self):
        return ENGINE.concretize(self.z)

    __int__ = __index__

    def __float__(self):
        return float(ENGINE.concretize(self.z))

    def __abs__(self):
        return _mk(z3.If(self.z >= 0, self.z, -self.z))

    def __pow__(self, o):
        return ENGINE.concretize(self.z) ** int(o)

    def __rpow__(self, o):
        return o ** ENGINE.concretize(self.z)

    def __truediv__(self, o):
        return ENGINE.concretize(self.z) / o

    def __rtruediv__(self, o):
        return o / ENGINE.concretize(self.z)

    def __repr__(self):
        return f'HostInt({self.z})'
