"""Symbolic numbers / booleans that flow through the real vrpy code.

A SymNum wraps a z3 arithmetic term, a SymBool wraps a z3 boolean.  Python
control flow on a SymBool (``if``, ``and``, ``while``, ``sorted`` ...) asks the
current explorer which way to go; the explorer asks z3 which ways are feasible
and re-executes the code once per feasible way (see explore.py).
"""
import math
import sys
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class Steer(BaseException):
    """Path steering; never caught by `except Exception` in the code."""


class Infeasible(Steer):
    pass


class CURRENT:
    """Holder of the active explorer (None when running concretely)."""

    ex = None


_SIMPLE = (int, float, Fraction)
_cache = {}


def num_term(x):
    """python number -> z3 numeral"""
    r = _cache.get((type(x), x))
    if r is not None:
        return r
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        r = z3.IntVal(x)
    elif isinstance(x, Fraction):
        r = z3.IntVal(x.numerator) if x.denominator == 1 else z3.RealVal(str(x))
    elif isinstance(x, float):
        if x.is_integer():
            r = z3.IntVal(int(x))
        else:
            # decimal reading of the float literal (0.3 means 3/10)
            r = z3.RealVal(str(Fraction(repr(x))))
    else:
        # numpy scalars and the like
        return num_term(float(x))
    if len(_cache) < 10000:
        _cache[(type(x), x)] = r
    return r


def is_num(x):
    return type(x) in (int, float, bool, Fraction) or (
        not isinstance_sym(x) and hasattr(x, "__float__") and not isinstance(x, str)
    )


def isinstance_sym(x):
    return type(x) is SymNum or type(x) is SymBool


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CURRENT.ex.decide(self.e)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        return SymBool(self.e == bterm(o))

    def __ne__(self, o):
        return SymBool(self.e != bterm(o))

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.e

    # bools are ints
    def _n(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), kind="int", bin=self.e)

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


def bterm(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymNum:
        return x.e != 0
    return z3.BoolVal(bool(x))


def And(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif isinstance(x, z3.BoolRef):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return SymBool(z3.And(out) if len(out) > 1 else out[0])


def Or(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif isinstance(x, z3.BoolRef):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return SymBool(z3.Or(out) if len(out) > 1 else out[0])


def All(it):
    return And(*list(it))


def Any(it):
    return Or(*list(it))


def Not(x):
    if type(x) is SymBool:
        return SymBool(z3.Not(x.e))
    if isinstance(x, z3.BoolRef):
        return SymBool(z3.Not(x))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = to_real(ta), to_real(tb)
    return SymNum(z3.If(c.e, ta, tb))


def smax(*a, **kw):
    """fork-free max (falls back to the builtin on concrete data)"""
    if kw or not _has_sym(a):
        return max(*a, **kw)
    items = list(a[0]) if len(a) == 1 else list(a)
    if not any(type(x) is SymNum for x in items):
        return max(items)
    r = items[0]
    for x in items[1:]:
        r = Ite(x > r, x, r)
    return r


def smin(*a, **kw):
    if kw or not _has_sym(a):
        return min(*a, **kw)
    items = list(a[0]) if len(a) == 1 else list(a)
    if not any(type(x) is SymNum for x in items):
        return min(items)
    r = items[0]
    for x in items[1:]:
        r = Ite(x < r, x, r)
    return r


def _has_sym(a):
    # cheap: single-iterable arguments are handled (and materialised) anyway
    if len(a) == 1:
        return True
    return any(type(x) is SymNum for x in a)


def to_real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def term(x):
    if type(x) is SymNum:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    return num_term(x)


def _coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    return to_real(a), to_real(b)


class SymNum:
    """A symbolic number.

    kind: "int"/"float": what isinstance() reports.  bin: z3 Bool when the term
    is a 0/1 indicator (product with it is an if-then-else, kept linear).
    origin: solver-solution object to pin down when the code looks at the value.
    """

    __slots__ = ("e", "kind", "bin", "origin", "__weakref__")

    def __init__(self, e, kind="float", bin=None, origin=None):
        self.e = e
        self.kind = kind
        self.bin = bin
        self.origin = origin

    @property
    def __class__(self):
        return int if self.kind == "int" else float

    # ---- arithmetic
    def _k(self, o):
        if self.kind == "int" and (
            (type(o) is SymNum and o.kind == "int") or type(o) in (int, bool, SymBool)
        ):
            return "int"
        return "float"

    def _bin(self, o, f):
        if type(o) is SymNum or type(o) is SymBool:
            b = term(o)
        else:
            if not is_num(o):
                return NotImplemented
            if type(o) is float and math.isinf(o):
                raise OverflowError("symbolic with inf")
            b = num_term(o)
        a, b = _coerce(self.e, b)
        return SymNum(f(a, b), self._k(o))

    def __add__(self, o):
        if type(o) in (int, float) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return SymNum(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e), self.kind)

    def __mul__(self, o):
        if type(o) is SymBool:
            o = o._n()
        if self.bin is not None and type(o) is SymNum:
            return SymNum(
                z3.If(self.bin, o.e, num_term(0) if o.e.sort() == z3.IntSort() else z3.RealVal(0)),
                self._k(o),
            )
        if type(o) is SymNum and o.bin is not None:
            return o * self
        if type(o) in (int, float):
            if o == 0:
                return 0
            if o == 1:
                return self
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is SymNum:
            if bool(o == 0):
                raise ZeroDivisionError("division by zero")
        elif o == 0:
            raise ZeroDivisionError("division by zero")
        return self._bin(o, lambda a, b: to_real(a) / to_real(b))

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("division by zero")
        return self._bin(o, lambda a, b: to_real(b) / to_real(a))

    def __floordiv__(self, o):
        return math.floor(self / o)

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return NotImplemented

    # ---- comparisons
    def _cmp(self, o, f, op):
        if type(o) is SymNum or type(o) is SymBool:
            if type(o) is SymNum and o.origin is not None:
                o.origin.pin()
            b = term(o)
        else:
            if not is_num(o):
                return NotImplemented
            if type(o) is float and math.isinf(o):
                return f(0.0, o)
            b = num_term(o)
        if self.origin is not None:
            self.origin.pin()
        a, b = _coerce(self.e, b)
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, "!=")
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return bool(self != 0)

    # ---- conversions
    def __int__(self):
        return CURRENT.ex.concretize_int(self._trunc_term())

    def _trunc_term(self):
        if self.e.sort() == z3.IntSort():
            return self.e
        fl = z3.ToInt(self.e)
        return z3.If(self.e >= 0, fl, -z3.ToInt(-self.e))

    def __index__(self):
        if self.e.sort() != z3.IntSort():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CURRENT.ex.concretize_int(self.e)

    def __float__(self):
        return CURRENT.ex.concretize_real(self.e)

    def __trunc__(self):
        return SymNum(self._trunc_term(), "int")

    def __floor__(self):
        if self.e.sort() == z3.IntSort():
            return SymNum(self.e, "int")
        return SymNum(z3.ToInt(self.e), "int")

    def __ceil__(self):
        if self.e.sort() == z3.IntSort():
            return SymNum(self.e, "int")
        return SymNum(-z3.ToInt(-self.e), "int")

    def __round__(self, nd=None):
        if self.e.sort() == z3.IntSort():
            return SymNum(self.e, "int")
        if nd:
            s = 10**nd
            return SymNum(to_real(z3.ToInt(self.e * s + z3.RealVal("1/2"))) / s)
        return SymNum(z3.ToInt(self.e + z3.RealVal("1/2")), "int")

    def is_integer(self):
        return SymBool(z3.IsInt(to_real(self.e)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return "sym%d" % (self.e.hash() & 0xFFFFFF)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


def is_sym(x):
    return type(x) is SymNum or type(x) is SymBool
