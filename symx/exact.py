"""Exact rationals that pass for floats."""

from fractions import Fraction


class Exact(float):
    """A rational that stays exact when it meets floats: the concrete counterpart of a
    symbolic real, and the type of all virtual times that are not symbolic."""

    __slots__ = ("v",)

    def __new__(cls, v):
        v = v if isinstance(v, Fraction) else Fraction(v)
        try:
            self = float.__new__(cls, v)
        except OverflowError:
            self = float.__new__(cls, float("inf") if v > 0 else float("-inf"))
        self.v = v
        return self

    @staticmethod
    def of(x):
        if isinstance(x, Exact):
            return x.v
        if isinstance(x, (bool, int, Fraction)):
            return Fraction(x)
        if isinstance(x, float):
            if x != x or x in (float("inf"), float("-inf")):
                return x
            return Fraction(x)
        return None

    def _bin(self, o, f, rev=False):
        v = self.of(o)
        if v is None:
            return NotImplemented
        a, b = (v, self.v) if rev else (self.v, v)
        if isinstance(v, float):
            return f(float(a), float(b))
        return Exact(f(a, b))

    def _cmp(self, o, f):
        v = self.of(o)
        if v is None:
            return NotImplemented
        return f(self.v, v)

    def __hash__(self):
        return hash(self.v)

    def __reduce__(self):
        return Exact, (self.v,)

    def __divmod__(self, o):
        return self // o, self % o

    def __repr__(self):
        return f"Exact({self.v})"

    def __bool__(self):
        return bool(self.v)

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    def __floor__(self):
        return self.v.__floor__()

    def __ceil__(self):
        return self.v.__ceil__()

    def __trunc__(self):
        return self.v.__trunc__()

    def __round__(self, n=None):
        return round(self.v, n)

    def __neg__(self):
        return Exact(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return Exact(abs(self.v))

    def __pow__(self, o):
        return Exact(self.v**o) if isinstance(o, int) else NotImplemented

    def __rpow__(self, o):
        return o ** int(self.v) if self.v.denominator == 1 else NotImplemented

    def is_integer(self):
        return self.v.denominator == 1


def _install_ops():
    import operator

    for name in ("add", "sub", "mul", "truediv", "floordiv", "mod"):
        f = getattr(operator, name)
        setattr(Exact, f"__{name}__", lambda s, o, f=f: s._bin(o, f))
        setattr(Exact, f"__r{name}__", lambda s, o, f=f: s._bin(o, f, True))
    for name in ("eq", "ne", "lt", "le", "gt", "ge"):
        f = getattr(operator, name)
        setattr(Exact, f"__{name}__", lambda s, o, f=f: s._cmp(o, f))


_install_ops()
