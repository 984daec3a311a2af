"""Symbolic proxies.  Each wraps a z3 term; a branch on one goes to the engine.

SymBool, SymNum (Python int or exact rational), SymStr (z3 strings), SymAtom (an
opaque non-empty string without "/": only its identity matters) and SymPath (atoms
and literals joined with "/").  Hashes are constant, so that real dicts and sets
compare keys with ==, which the solver decides.
"""

import builtins
import itertools
from fractions import Fraction

import z3

from symx import core
from symx.exact import Exact

_HASH = 0x5EED


def eng():
    e = core.ENGINE
    if e is None:
        raise core.Unsupported("symbolic value used outside a path")
    return e


def Unsupported(msg):
    """The exception to raise for an operation the proxies do not model.  It is noted
    on the engine too: the code under test may swallow it."""
    exc = core.Unsupported(msg)
    e = core.ENGINE
    if e is not None and e.abort is None:
        e.abort = exc
    return exc


class Sym:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __hash__(self):
        return _HASH

    def __repr__(self):
        return f"<{type(self).__name__} {self.z}>"

    __str__ = __repr__

    def __format__(self, spec):
        raise Unsupported(f"format of {self!r}")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


def _b(x):
    """A z3 Bool for a truth value."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, Sym):
        return truth(x)
    return z3.BoolVal(bool(x))


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def truth(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, SymNum):
        return x.z != 0
    if isinstance(x, SymStr):
        return z3.Length(x.z) > 0
    if isinstance(x, (SymAtom, SymPath)):
        return z3.BoolVal(True)
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __bool__(self):
        return eng().fork(self.z)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.z == _b(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.z != _b(o))
        return NotImplemented

    def __and__(self, o):
        return mkbool(z3.And(self.z, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, _b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, _b(o)))

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported("~ of a bool")

    def _num(self):
        return SymNum(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__


_MAXF = z3.RealVal(2**1024)


def num(x):
    """The z3 number of a Python or symbolic number; None if it is not one."""
    if isinstance(x, SymNum):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, Exact):
        return z3.RealVal(f"{x.v.numerator}/{x.v.denominator}")
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        n, d = x.as_integer_ratio()
        return z3.RealVal(f"{n}/{d}")
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    return None


def _val(z):
    """The Python number of a z3 numeral, else the SymNum."""
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return None


class SymNum(Sym):
    """`big` marks an int that may not fit a float (float arithmetic can overflow)."""

    __slots__ = ("big",)
    __hash__ = Sym.__hash__

    def __init__(self, z, big=False):
        self.z = z
        self.big = big

    @property
    def is_int(self):
        return self.z.sort() == z3.IntSort()

    def _float_guard(self, *xs):
        """int <op> float converts the int first, which can overflow."""
        if not self.is_int:
            for x in xs:
                if isinstance(x, int) and abs(x) >= 2**1024:
                    raise OverflowError("int too large to convert to float")
                if isinstance(x, SymNum) and x.is_int:
                    x._float_guard(0.0)
            return
        if self.big and any(
            isinstance(x, float) or (isinstance(x, SymNum) and not x.is_int) for x in xs
        ):
            if eng().fork(z3.Or(z3.ToReal(self.z) >= _MAXF, z3.ToReal(self.z) <= -_MAXF)):
                raise OverflowError("int too large to convert to float")

    def _op(self, o, f, rev=False):
        if isinstance(o, float) and num(o) is None:
            return self._inf(o, f, rev)
        z = num(o)
        if z is None:
            return NotImplemented
        self._float_guard(o)
        a, b = (z, self.z) if rev else (self.z, z)
        if a.sort() != b.sort():
            if a.sort() == z3.IntSort():
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        r = f(a, b)
        big = self.big or getattr(o, "big", False)
        return SymNum(r, big and r.sort() == z3.IntSort())

    def _inf(self, o, f, rev):
        a, b = (o, 0.0) if rev else (0.0, o)
        name = f.__name__
        if name == "_add":
            return a + b
        if name == "_sub":
            return a - b
        raise Unsupported("arithmetic with inf or nan")

    def __add__(self, o):
        return self._op(o, _add)

    def __radd__(self, o):
        return self._op(o, _add, True)

    def __sub__(self, o):
        return self._op(o, _sub)

    def __rsub__(self, o):
        return self._op(o, _sub, True)

    def __mul__(self, o):
        return self._op(o, _mul)

    def __rmul__(self, o):
        return self._op(o, _mul, True)

    def __truediv__(self, o):
        return self._div(self, o)

    def __rtruediv__(self, o):
        return self._div(o, self)

    @staticmethod
    def _div(a, b):
        za, zb = num(a), num(b)
        if za is None or zb is None:
            return NotImplemented
        for x in (a, b):
            if isinstance(x, SymNum):
                x._float_guard(0.0)
        if isinstance(b, SymNum):
            if eng().fork(zb == 0):
                raise ZeroDivisionError("division by zero")
        elif b == 0:
            raise ZeroDivisionError("division by zero")
        za = z3.ToReal(za) if za.sort() == z3.IntSort() else za
        zb = z3.ToReal(zb) if zb.sort() == z3.IntSort() else zb
        return SymNum(za / zb)

    @staticmethod
    def _divmod(a, b):
        za, zb = num(a), num(b)
        if za is None or zb is None:
            return NotImplemented
        if isinstance(b, int) and not isinstance(b, Sym) and b > 0 and za.sort() == z3.IntSort():
            return SymNum(za / b), SymNum(za % b)
        za = z3.ToReal(za) if za.sort() == z3.IntSort() else za
        zb = z3.ToReal(zb) if zb.sort() == z3.IntSort() else zb
        if not isinstance(b, Sym) and b > 0:
            q = z3.ToInt(za / zb)
            return SymNum(q), SymNum(za - z3.ToReal(q) * zb)
        e = eng()
        if e.fork(zb == 0):
            raise ZeroDivisionError("division by zero")
        if e.fork(zb < 0):
            raise Unsupported("// or % by something negative")
        # The quotient is found by forking, which keeps the rest linear in it
        q = 0
        while e.fork(za < q * zb):
            q -= 1
            if q < -256:
                raise Unsupported("a large quotient")
        if q == 0:
            while e.fork(za >= (q + 1) * zb):
                q += 1
                if q > 256:
                    raise Unsupported("a large quotient")
        return q, SymNum(za - q * zb)

    def __floordiv__(self, o):
        r = self._divmod(self, o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._divmod(self, o)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, o):
        return self._divmod(self, o)

    def __rfloordiv__(self, o):
        return self._divmod(o, self)[0]

    def __rmod__(self, o):
        return self._divmod(o, self)[1]

    def __rdivmod__(self, o):
        return self._divmod(o, self)

    def __neg__(self):
        return SymNum(-self.z, self.big)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.z >= 0, self.z, -self.z), self.big)

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power of a symbolic base")

    def __rpow__(self, base):
        """base ** self, for a constant base; the exponent's range is read off the solver."""
        if not self.is_int or isinstance(base, Sym):
            raise Unsupported("power with this exponent")
        e = eng()
        if e.fork(self.z < 0):
            return 1 / (base ** (-self))
        if isinstance(base, float):
            if base != 2.0:
                raise Unsupported("float power")
            if e.fork(self.z >= 1024):
                raise OverflowError("(34, 'Numerical result out of range')")
            base = 2
            as_float = True
        else:
            as_float = False
        hi = 64
        while not e.must(self.z <= hi):
            hi *= 2
            if hi > 1 << 14:
                raise Unsupported("unbounded exponent")
        z = z3.IntVal(base**hi)
        for k in reversed(range(hi)):
            z = z3.If(self.z <= k, z3.IntVal(base**k), z)
        return SymNum(z3.ToReal(z) if as_float else z, big=not as_float)

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return self * (1 << o)
        raise Unsupported("shift")

    def __rlshift__(self, base):
        return base * (2**self)

    def __eq__(self, o):
        z = num(o)
        if z is None:
            return False if not isinstance(o, Sym) else NotImplemented
        return mkbool(self.z == z)

    def __ne__(self, o):
        z = num(o)
        if z is None:
            return True if not isinstance(o, Sym) else NotImplemented
        return mkbool(self.z != z)

    def _cmp(self, o, f):
        if isinstance(o, float) and num(o) is None:
            return f(0.0, o)
        z = num(o)
        if z is None:
            return NotImplemented
        return mkbool(f(self.z, z))

    def __lt__(self, o):
        return self._cmp(o, _lt)

    def __le__(self, o):
        return self._cmp(o, _le)

    def __gt__(self, o):
        return self._cmp(o, _gt)

    def __ge__(self, o):
        return self._cmp(o, _ge)

    def __bool__(self):
        return eng().fork(self.z != 0)

    def trunc(self):
        if self.is_int:
            return self
        return SymNum(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def floor(self):
        return self if self.is_int else SymNum(z3.ToInt(self.z))

    def ceil(self):
        return self if self.is_int else SymNum(-z3.ToInt(-self.z))

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __round__(self, nd=None):
        if nd is not None:
            if self.is_int and nd >= 0:
                return self
            unit = Fraction(10) ** -nd
            r = round(SymNum(z3.ToReal(self.z) if self.is_int else self.z) / Exact(unit))
            return r * Exact(unit)
        if self.is_int:
            return self
        fl = z3.ToInt(self.z)
        fr = self.z - z3.ToReal(fl)
        up = z3.Or(fr > z3.Q(1, 2), z3.And(fr == z3.Q(1, 2), fl % 2 == 1))
        return SymNum(z3.If(up, fl + 1, fl))

    def __index__(self):
        """Where C code needs an int: forks over every feasible value (small ranges only)."""
        if not self.is_int:
            raise TypeError("not an int")
        return concretize_fork(self)

    def __int__(self):
        return concretize_fork(self.trunc())

    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    # The bits of an int: one path per value of it (small ranges only).
    def _bits(f):
        def op(self, o):
            if not isinstance(o, (int, SymNum)):
                return NotImplemented
            return f(self.__index__(), o.__index__())

        return op

    __rshift__ = _bits(lambda a, b: a >> b)
    __rrshift__ = _bits(lambda a, b: b >> a)
    __and__ = __rand__ = _bits(lambda a, b: a & b)
    __or__ = __ror__ = _bits(lambda a, b: a | b)
    __xor__ = __rxor__ = _bits(lambda a, b: a ^ b)
    del _bits

    def __invert__(self):
        return -self - 1 if self.is_int else NotImplemented

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True if self.is_int else mkbool(z3.ToReal(z3.ToInt(self.z)) == self.z)


def _add(a, b):
    return a + b


def _sub(a, b):
    return a - b


def _mul(a, b):
    return a * b


def _lt(a, b):
    return a < b


def _le(a, b):
    return a <= b


def _gt(a, b):
    return a > b


def _ge(a, b):
    return a >= b


def concretize_fork(s, limit=64):
    e = eng()
    for _ in range(limit):
        if e.model is None:
            e.model = e._query()
        # The value has to be the same on re-execution: the least feasible one.
        v = _least(e, s.z)
        if e.fork(s.z == v):
            return v
    raise Unsupported("too many values to concretise")


def _least(e, z):
    if e.idx < len(e.stack):
        c = e.stack[e.idx].cond
        return c.arg(1).as_long()
    v = e.model.eval(z, model_completion=True).as_long()
    while True:
        m = e._query(z < v)
        if m is None:
            return v
        v = m.eval(z, model_completion=True).as_long()


class SymAtom(Sym):
    """An opaque, non-empty name without "/".  z is an Int: its identity."""

    __slots__ = ()
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if isinstance(o, SymAtom):
            return mkbool(self.z == o.z)
        if isinstance(o, SymPath):
            return o == self
        if isinstance(o, str) or not isinstance(o, Sym):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else neg(r)

    def __bool__(self):
        return True

    def __add__(self, o):
        return path_cat([self, o])

    def __radd__(self, o):
        return path_cat([o, self])

    def __contains__(self, x):
        if x == "/":
            return False
        raise Unsupported("in an atom")

    def split(self, sep=None, maxsplit=-1):
        if sep != "/":
            raise Unsupported("split")
        return [self]

    rsplit = split

    def partition(self, sep):
        self.split(sep)
        return self, "", ""

    def rpartition(self, sep):
        self.split(sep)
        return "", "", self

    def count(self, sub):
        return len(self.split(sub)) - 1

    def find(self, sub):
        self.split(sub)
        return -1

    def startswith(self, p):
        if p != "/":
            raise Unsupported("startswith on an atom")
        return False

    endswith = startswith


def neg(x):
    return (not x) if isinstance(x, bool) else mkbool(z3.Not(_b(x)))


class SymPath(Sym):
    """Segments joined with "/": each a str or a SymAtom."""

    __slots__ = ("segs",)
    __hash__ = Sym.__hash__

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f"<SymPath {self.segs!r}>"

    def __eq__(self, o):
        if isinstance(o, SymAtom):
            other = (o,)
        elif isinstance(o, SymPath):
            other = o.segs
        elif isinstance(o, str):
            other = tuple(o.split("/"))
        else:
            return False
        if len(other) != len(self.segs):
            return False
        out = True
        for a, b in zip(self.segs, other):
            r = a == b
            if r is False:
                return False
            if r is not True:
                out = r if out is True else mkbool(z3.And(out.z, r.z))
        return out

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __bool__(self):
        return True

    def split(self, sep=None, maxsplit=-1):
        if sep != "/":
            raise Unsupported("split")
        if maxsplit < 0 or maxsplit >= len(self.segs) - 1:
            return list(self.segs)
        return list(self.segs[:maxsplit]) + [join_segs(self.segs[maxsplit:])]

    def partition(self, sep):
        a = self.split(sep, 1)
        return (a[0], "/", a[1]) if len(a) == 2 else (a[0], "", "")

    def rsplit(self, sep=None, maxsplit=-1):
        if sep != "/":
            raise Unsupported("rsplit")
        if maxsplit < 0 or maxsplit >= len(self.segs) - 1:
            return list(self.segs)
        n = len(self.segs) - maxsplit
        return [join_segs(self.segs[:n])] + list(self.segs[n:])

    def rpartition(self, sep):
        a = self.rsplit(sep, 1)
        return (a[0], "/", a[1]) if len(a) == 2 else ("", "", a[0])

    def count(self, sub):
        if sub != "/":
            raise Unsupported("count in a path")
        return len(self.segs) - 1

    def __contains__(self, x):
        if x == "/":
            return len(self.segs) > 1
        raise Unsupported("in a path")

    def __add__(self, o):
        return path_cat([self, o])

    def __radd__(self, o):
        return path_cat([o, self])


def join_segs(segs):
    if len(segs) == 1:
        return segs[0]
    if all(isinstance(s, str) for s in segs):
        return "/".join(segs)
    return SymPath(segs)


def path_cat(parts):
    segs = [""]
    for p in parts:
        if isinstance(p, str):
            new = p.split("/")
        elif isinstance(p, SymAtom):
            new = [p]
        elif isinstance(p, SymPath):
            new = list(p.segs)
        else:
            return NotImplemented
        a, b = segs[-1], new[0]
        if isinstance(a, str) and isinstance(b, str):
            segs[-1] = a + b
        elif a == "" and isinstance(a, str):
            segs[-1] = b
        elif isinstance(b, str) and b == "":
            pass
        else:
            return SymText(parts)
        segs += new[1:]
    return join_segs(segs)


class SymStr(Sym):
    __slots__ = ()
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        z = strz(o)
        if z is None:
            return False if not isinstance(o, Sym) else NotImplemented
        return mkbool(self.z == z)

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else neg(r)

    def __lt__(self, o):
        return mkbool(self.z < strz(o))

    def __le__(self, o):
        return mkbool(self.z <= strz(o))

    def __bool__(self):
        return eng().fork(z3.Length(self.z) > 0)

    def __add__(self, o):
        z = strz(o)
        return NotImplemented if z is None else SymStr(z3.Concat(self.z, z))

    def __radd__(self, o):
        z = strz(o)
        return NotImplemented if z is None else SymStr(z3.Concat(z, self.z))

    def __contains__(self, x):
        return bool(mkbool(z3.Contains(self.z, strz(x))))

    def length(self):
        return SymNum(z3.Length(self.z))

    def __len__(self):
        return concretize_fork(self.length())

    def startswith(self, p):
        return mkbool(z3.PrefixOf(strz(p), self.z))

    def endswith(self, p):
        return mkbool(z3.SuffixOf(strz(p), self.z))

    def _find(self, sep):
        return z3.IndexOf(self.z, z3.StringVal(sep), z3.IntVal(0))

    def partition(self, sep):
        if not eng().fork(z3.Contains(self.z, z3.StringVal(sep))):
            return self, "", ""
        i = self._find(sep)
        n = z3.Length(self.z)
        return (
            SymStr(z3.SubString(self.z, z3.IntVal(0), i)),
            sep,
            SymStr(z3.SubString(self.z, i + len(sep), n)),
        )

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str):
            raise Unsupported("split")
        out, rest = [], self
        while maxsplit != 0:
            a, s, b = rest.partition(sep) if isinstance(rest, SymStr) else (rest, "", "")
            if not s:
                break
            out.append(a)
            rest = b
            maxsplit -= 1
            if len(out) > 8:
                raise Unsupported("long split")
        return out + [rest]

    def rpartition(self, sep):
        parts = self.split(sep)
        if len(parts) == 1:
            return "", "", self
        head = parts[0]
        for p in parts[1:-1]:
            head = head + sep + p
        return head, sep, parts[-1]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if maxsplit == 1:
            a, s, b = self.rpartition(sep)
            return [a, b] if s else [b]
        raise Unsupported("rsplit")

    def count(self, sub):
        return len(self.split(sub)) - 1

    def find(self, sub):
        return SymNum(self._find(sub))

    def __getitem__(self, i):
        n = z3.Length(self.z)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice step")
            lo = z3.IntVal(0) if i.start is None else self._clip(i.start, n)
            hi = n if i.stop is None else self._clip(i.stop, n)
            return SymStr(z3.SubString(self.z, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        z = num(i)
        z = z3.If(z < 0, z + n, z)
        if not eng().fork(z3.And(z >= 0, z < n)):
            raise IndexError("string index out of range")
        return SymStr(z3.SubString(self.z, z, z3.IntVal(1)))

    @staticmethod
    def _clip(i, n):
        z = num(i)
        z = z3.If(z < 0, z + n, z)
        return z3.If(z < 0, z3.IntVal(0), z3.If(z > n, n, z))

    def strip(self, *a):
        raise Unsupported("strip")

    def lower(self):
        raise Unsupported("lower")


def strz(x):
    if isinstance(x, SymStr):
        return x.z
    if isinstance(x, str):
        return z3.StringVal(x)
    return None


def str_cat(parts):
    """The concatenation of str and symbolic strings."""
    parts = [p for p in parts if not (isinstance(p, str) and not p)]
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    if any(isinstance(p, SymStr) for p in parts):
        zs = [strz(p) for p in parts]
        if any(z is None for z in zs):
            return SymText(parts)
        return SymStr(z3.Concat(*zs) if len(zs) > 1 else zs[0])
    if any(isinstance(p, SymText) for p in parts):
        return SymText(parts)
    r = path_cat(parts)
    return SymText(parts) if r is NotImplemented else r


class SymText(Sym):
    """A text that is only good for messages: whatever depends on it is unsupported."""

    __slots__ = ()

    def __repr__(self):
        return f"<text {self.z!r}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _no(self, *a):
        raise Unsupported(f"a decision that depends on {self!r}")

    __hash__ = __eq__ = __ne__ = __lt__ = __le__ = __bool__ = __len__ = __getitem__ = __iter__ = __contains__ = _no

    def __add__(self, o):
        return SymText([self, o])

    def __radd__(self, o):
        return SymText([o, self])


# ---- replacements of builtins, called by the rewritten code ------------------


def _all_num(xs):
    return all(num(x) is not None for x in xs) and any(isinstance(x, Sym) for x in xs)


def _minmax(args, kw, builtin, pick):
    if len(args) == 1 and not kw:
        args = (list(args[0]),)
        xs = args[0]
    else:
        xs = args
    if not kw and len(xs) > 1 and _all_num(xs):
        r = xs[0]
        for x in xs[1:]:
            a, b = num(r), num(x)
            big = any(getattr(v, "big", False) for v in (r, x))
            for u, w in ((r, x), (x, r)):
                # The comparison int <op> float is exact in Python: no overflow there.
                pass
            ra, rb = a, b
            if a.sort() != b.sort():
                ra = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                rb = z3.ToReal(b) if b.sort() == z3.IntSort() else b
            r = SymNum(z3.If(pick(rb, ra), rb, ra), big and ra.sort() == z3.IntSort())
        return r
    return builtin(*args, **kw)


def sx_min(*args, **kw):
    return _minmax(args, kw, builtins.min, lambda b, a: b < a)


def sx_max(*args, **kw):
    return _minmax(args, kw, builtins.max, lambda b, a: b > a)


def sx_int(*args):
    if len(args) == 1:
        if isinstance(args[0], SymNum):
            return args[0].trunc()
        if isinstance(args[0], SymBool):
            return args[0]._num()
    if any(isinstance(a, Sym) for a in args):
        if len(args) == 1 and isinstance(args[0], SymStr):
            z = args[0].z
            if eng().fork(z3.StrToInt(z) < 0):
                raise ValueError("invalid literal for int()")
            return SymNum(z3.StrToInt(z))
        raise Unsupported("int()")
    return builtins.int(*args)


def sx_float(*args):
    if args and isinstance(args[0], SymNum):
        args[0]._float_guard(0.0)
        x = args[0]
        return SymNum(z3.ToReal(x.z)) if x.is_int else x
    return builtins.float(*args)


def sx_str(*args):
    if len(args) == 1 and isinstance(args[0], (SymStr, SymAtom, SymPath, SymText)):
        return args[0]
    if len(args) == 1 and isinstance(args[0], Sym):
        return opaque_text(args[0])
    if len(args) == 1 and own_str(args[0]):
        return type(args[0]).__str__(args[0])
    return builtins.str(*args)


def own_str(x):
    """Whether converting x runs Python code, which may give a symbolic string."""
    import types

    return isinstance(getattr(type(x), "__str__", None), types.FunctionType)


def opaque_text(x):
    """Text of a symbolic number and the like: only good for messages."""
    return builtins.repr(x)


def sx_len(x):
    if isinstance(x, SymStr):
        return x.length()
    return builtins.len(x)


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for u in ts:
            flat.extend(u if isinstance(u, tuple) else (u,))
        if isinstance(x, (SymStr, SymAtom, SymPath, SymText)):
            return builtins.str in flat or builtins.object in flat
        if isinstance(x, SymBool):
            return builtins.bool in flat or builtins.int in flat
        if isinstance(x, SymNum):
            if x.is_int:
                return builtins.int in flat
            return Fraction in flat or builtins.float in flat
    return builtins.isinstance(x, t)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        value, conv, spec = p
        if isinstance(value, (SymStr, SymAtom, SymPath)) and conv == -1 and not spec:
            out.append(value)
        elif isinstance(value, SymText):
            out.append(value)
        elif isinstance(value, Sym):
            out.append(opaque_text(value))
        elif conv in (-1, 115) and not spec and own_str(value):
            out.append(type(value).__str__(value))
        else:
            if conv == 114:
                value = repr(value)
            elif conv == 115:
                value = str(value)
            elif conv == 97:
                value = ascii(value)
            out.append(format(value, spec))
    return str_cat(out)


def sx_meth(obj, name, *args, **kw):
    if isinstance(obj, str):
        if name == "join" and len(args) == 1:
            xs = list(args[0])
            if any(isinstance(x, Sym) for x in xs):
                parts = []
                for i, x in enumerate(xs):
                    if i:
                        parts.append(obj)
                    parts.append(x)
                return str_cat(parts)
            args = (xs,)
        elif name == "format" and any(isinstance(x, Sym) for x in itertools.chain(args, kw.values())):
            import string

            parts, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(obj):
                parts.append(lit)
                if field is None:
                    continue
                if field == "":
                    v, auto = args[auto], auto + 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    head, *attrs = field.split(".")
                    v = kw[head]
                    for a in attrs:
                        v = getattr(v, a)
                parts.append((v, ord(conv) if conv else -1, spec or ""))
            return sx_fstr(*parts)
        elif name in ("startswith", "endswith") and args and isinstance(args[0], SymStr):
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return mkbool(f(args[0].z, strz(obj)))
    return getattr(obj, name)(*args, **kw)


def sx_mod(a, b):
    if isinstance(a, str):
        xs = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, Sym) for x in xs):
            import re

            parts, i = [], 0
            for piece in re.split(r"(%[srd%])", a):
                if piece == "%%":
                    parts.append("%")
                elif len(piece) == 2 and piece[0] == "%":
                    parts.append((xs[i], 114 if piece[1] == "r" else -1, ""))
                    i += 1
                else:
                    parts.append(piece)
            return sx_fstr(*parts)
    return a % b


def install_math():
    """The functions of `math` that are meaningful on symbolic numbers."""
    import math

    def wrap(name, f):
        g = getattr(math, name)

        def call(*args, **kw):
            if any(isinstance(a, Sym) for a in args):
                return f(*args, **kw)
            return g(*args, **kw)

        call.__name__ = name
        setattr(math, name, call)

    def ldexp(x, e):
        r = sx_float(x) * 2**e
        z = num(r)
        z = z3.ToReal(z) if z.sort() == z3.IntSort() else z
        if eng().fork(z3.Or(z >= _MAXF, z <= -_MAXF)):
            raise OverflowError("math range error")
        return r

    def pow(x, y):
        x = float(x) if isinstance(x, int) else x
        return x**y

    def fabs(x):
        return sx_float(abs(x))

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        d = abs(a - b)
        return Or(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol)

    wrap("isclose", isclose)
    wrap("ldexp", ldexp)
    wrap("pow", pow)
    wrap("fabs", fabs)
    wrap("isinf", lambda x: False)
    wrap("isnan", lambda x: False)
    wrap("isfinite", lambda x: True)


# ---- reading values back -----------------------------------------------------


def concretize(model, x):
    """`x` with every symbolic part replaced by its value in `model`."""
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.z, model_completion=True))
    if isinstance(x, SymAtom):
        return atom_name(core.pyval(model.eval(x.z, model_completion=True)))
    if isinstance(x, SymPath):
        return "/".join(s if isinstance(s, str) else concretize(model, s) for s in x.segs)
    if isinstance(x, Sym):
        return core.pyval(model.eval(x.z, model_completion=True))
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return tuple(concretize(model, y) for y in x)
    if isinstance(x, (list, tuple)):
        return [concretize(model, y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((concretize(model, y) for y in x), key=repr)
    if isinstance(x, dict):
        return sorted(([concretize(model, k), concretize(model, v)] for k, v in x.items()), key=repr)
    return x


def atom_name(i):
    return f"k{i}"


def And(*xs):
    if any(x is False for x in xs):
        return False
    zs = [_b(x) for x in xs if x is not True]
    if not zs:
        return True
    return mkbool(z3.And(*zs)) if len(zs) > 1 else mkbool(zs[0])


def Or(*xs):
    if any(x is True for x in xs):
        return True
    zs = [_b(x) for x in xs if x is not False]
    if not zs:
        return False
    return mkbool(z3.Or(*zs)) if len(zs) > 1 else mkbool(zs[0])


def Not(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    return mkbool(z3.Not(truth(x))) if isinstance(x, Sym) else not x


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.z, _b(a), _b(b)))
    za, zb = num(a), num(b)
    if za.sort() != zb.sort():
        za = z3.ToReal(za) if za.sort() == z3.IntSort() else za
        zb = z3.ToReal(zb) if zb.sort() == z3.IntSort() else zb
    return SymNum(z3.If(c.z, za, zb))


def Eq(a, b):
    """== that is symbolic over tuples and lists too."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return And(*[Eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if isinstance(r, (bool, SymBool)):
        return r
    return bool(r)
