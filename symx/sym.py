"""Scalars the code under test computes with: Sym (numbers) and SymBool (conditions)."""
from fractions import Fraction
import numbers, math
import numpy as np
from . import expr as X
from .expr import Expr, DomainError

CTX = None            # current path context (set by path.Explorer)


def set_ctx(c):
    global CTX
    CTX = c


class SymBool:
    """Condition tree.  op in lt,le,eq (Expr <,<=,== 0), and, or, not, const"""
    __slots__ = ("op", "a", "b")
    __array_ufunc__ = None

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        if self.op == "const":
            return self.a
        if CTX is None:
            raise DomainError("symbolic condition outside a path")
        return CTX.decide(self)

    def __invert__(self):
        return s_not(self)

    def __and__(self, o):
        return s_and(self, to_bool(o))
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, to_bool(o))
    __ror__ = __or__

    def __xor__(self, o):
        o = to_bool(o)
        return s_or(s_and(self, s_not(o)), s_and(s_not(self), o))

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return s_and(self, to_bool(o))
        return Sym.lift(int(bool(self))) * o
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return s_or(self, to_bool(o))
        return int(bool(self)) + o
    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return id(self)

    def any(self):
        return self
    all = any

    def logical_not(self):
        return s_not(self)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "(%s %r %r)" % (self.op, self.a, self.b)


TRUE = SymBool("const", True)
FALSE = SymBool("const", False)


def to_bool(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, Sym):
        return s_not(o == 0)
    return TRUE if bool(o) else FALSE


def s_not(a):
    if a.op == "const":
        return FALSE if a.a else TRUE
    if a.op == "not":
        return a.a
    return SymBool("not", a)


def s_and(a, b):
    if a.op == "const":
        return b if a.a else FALSE
    if b.op == "const":
        return a if b.a else FALSE
    return SymBool("and", a, b)


def s_or(a, b):
    if a.op == "const":
        return TRUE if a.a else b
    if b.op == "const":
        return TRUE if b.a else a
    return SymBool("or", a, b)


def _cmp(op, e):
    """SymBool for  e op 0"""
    if e.is_const():
        v = e.const_value()
        return TRUE if (v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0) else FALSE
    # closed constants (pi, physical constants, root atoms): decide numerically, 60 digits
    gs = e.gens()
    if all(g in X.CONST_VAL or _closed(g) for g in gs):
        import mpmath
        with mpmath.workdps(60):
            v = e.ev({}, mp=True)
            v = mpmath.re(v)
            if abs(v) > mpmath.mpf(10) ** -40:
                return TRUE if (v < 0 if op in ("lt", "le") else False) else FALSE
        c = e.clear()
        if c.is_zero():
            return FALSE if op == "lt" else TRUE
        # treated as equal
        return FALSE if op == "lt" else TRUE
    if len(e.t) == 1:
        (m, k, x), c = next(iter(e.t.items()))
        if k == 0 and X.pos_mono(m) and (x == 0 or X.EXPS[x].is_real()):
            if op == "eq":
                return FALSE
            return TRUE if c < 0 else FALSE
    if X.TRUNC:
        # power series: the sign for small parameters is the sign at zero
        sg = [g for g in gs if g in X.TRUNC]
        if sg and any(g not in X.TRUNC and g not in X.CONST_VAL and g not in X.SQ and g not in X.INV for g in gs):
            q = e
            try:
                for g in sg:
                    q = X.subst(q, g, X.ZERO) if q is not None else None
            except (ArithmeticError, X.DomainError):
                q = None
            if q is not None and q.t and all(g in X.CONST_VAL or g in X.PRIME for g in q.gens()):
                return _cmp("lt", q) if op != "eq" else FALSE
    # a common positive monomial does not matter (all terms proportional to one length, say)
    com = None
    for (m, k, x) in e.t:
        if k or x:
            return SymBool(op, e)
        d = {g: w for g, w in m if g not in X.PRIME and X.GENS[g].pos}
        com = d if com is None else {g: w for g, w in com.items() if d.get(g) == w}
        if not com:
            return SymBool(op, e)
    q = X.Expr({(tuple(t for t in m if t[0] not in com), 0, 0): c for (m, k, x), c in e.t.items()})
    if all(g in X.CONST_VAL or g in X.PRIME for g in q.gens()):
        return _cmp(op, q)
    return SymBool(op, e)


def _closed(g):
    if g in X.SQ or g in X.INV or g in X.ANG:
        return True       # its own gens are in the set as well
    G = X.GENS[g]
    return isinstance(G.defn, tuple)


def _num(o):
    return isinstance(o, numbers.Number) or isinstance(o, np.number)


class Sym:
    __slots__ = ("e",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e            # Expr, or None for NaN

    @staticmethod
    def lift(o):
        if o.__class__ is Sym:
            return o
        if isinstance(o, SymBool):
            return Sym.lift(int(bool(o)))
        if isinstance(o, (complex, np.complexfloating)):
            if o.imag == 0:
                return Sym(Expr.const(o.real))
            if o.real != o.real or o.imag != o.imag:
                return NAN
            return Sym(Expr.const(o.real) + Expr.const(o.imag) * X.I)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return Sym.lift(o.item())
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            return NAN if o != o else (INF if o > 0 else NINF)
        return Sym(Expr.const(o))

    # -- arithmetic
    def _bin(self, o, f, rev=False):
        if o.__class__ is not Sym:
            if isinstance(o, np.ndarray):
                return NotImplemented
            if not _num(o) and not isinstance(o, SymBool):
                if isinstance(o, Fraction):
                    o = Sym(Expr.const(o))
                else:
                    return NotImplemented
            o = Sym.lift(o)
        if self.e.__class__ is not Expr or o.e.__class__ is not Expr:
            return _special(self, o, f, rev)
        return Sym(f(o.e, self.e) if rev else f(self.e, o.e))

    def __add__(self, o): return self._bin(o, _add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, _sub)
    def __rsub__(self, o): return self._bin(o, _sub, True)
    def __mul__(self, o): return self._bin(o, _mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if o.__class__ is not Sym:
            if isinstance(o, np.ndarray) or not (_num(o) or isinstance(o, SymBool)):
                return NotImplemented
            o = Sym.lift(o)
        return _div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) or not (_num(o) or isinstance(o, SymBool)):
            return NotImplemented
        return _div(Sym.lift(o), self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (Sym.lift(o) / self).floor()

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Sym.lift(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return Sym.lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        if self.e.__class__ is not Expr:
            return NAN if self.e == "nan" else (NINF if self.e == "inf" else INF)
        return Sym(-self.e)

    def __pos__(self): return self

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Sym.lift(o)
        return spow(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return spow(Sym.lift(o), self)

    def __abs__(self):
        return self.absolute()

    def absolute(self):
        if self.e.__class__ is not Expr:
            return NAN if self.e == "nan" else INF
        e = self.e
        if e.is_const():
            return Sym(Expr.const(abs(e.const_value())))
        if e.is_real():
            # |x| of a real: keep the sign information when it is syntactically clear
            if len(e.t) == 1:
                (m, k, x), c = next(iter(e.t.items()))
                if k == 0 and all(X.GENS[g].pos or g in X.SQ for g, _ in m):
                    return Sym(-e) if c < 0 else self
                return Sym(X.absval(e))
            if CTX is not None:
                c = _cmp("lt", e)
                if c.op == "const":
                    return -self if c.a else self
                s = CTX.known_sign(e)
                if s is not None:
                    return -self if s < 0 else self
                if CTX.fork_abs:
                    return -self if bool(c) else self
            return Sym(X.sqrt(e * e))
        return Sym(X.absval(e))

    fabs = absolute

    # -- comparison
    def _c(self, o, op, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list, dict, type)):
            return NotImplemented
        try:
            o = Sym.lift(o)
        except (TypeError, ValueError, DomainError):
            return NotImplemented
        if self.e.__class__ is not Expr or o.e.__class__ is not Expr:
            return _special_cmp(self, o, op, swap)
        d = (o.e - self.e) if swap else (self.e - o.e)
        if op != "eq":
            # numpy orders complex numbers lexicographically; python raises
            if not d.is_real():
                dc = d.clear()
                d = d.real()
        return _cmp(op, d)

    def __lt__(self, o): return self._c(o, "lt")
    def __le__(self, o): return self._c(o, "le")
    def __gt__(self, o): return self._c(o, "lt", True)
    def __ge__(self, o): return self._c(o, "le", True)

    def __eq__(self, o):
        r = self._c(o, "eq")
        if r is NotImplemented:
            return NotImplemented if isinstance(o, np.ndarray) else False
        return r

    def __ne__(self, o):
        r = self._c(o, "eq")
        if r is NotImplemented:
            return NotImplemented if isinstance(o, np.ndarray) else True
        return s_not(r)

    def __hash__(self):
        if self.e.__class__ is Expr and self.e.is_const():
            v = self.e.const_value()
            return hash(v)
        return hash(self.e)

    def __bool__(self):
        return not bool(self == 0)

    # -- conversion
    def is_const(self):
        return self.e.__class__ is Expr and self.e.is_const()

    def __float__(self):
        if self.e.__class__ is not Expr:
            return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[self.e]
        if self.e.is_const():
            v = self.e.const_value()
            return v.numerator / v.denominator
        gs = self.e.gens()
        if all(g in X.CONST_VAL or _closed(g) for g in gs):
            return float(complex(self.e.ev({})).real)
        raise DomainError("float() of a symbolic value reached a C boundary")

    def __complex__(self):
        gs = self.e.gens()
        if all(g in X.CONST_VAL or _closed(g) for g in gs):
            return complex(self.e.ev({}))
        raise DomainError("complex() of a symbolic value reached a C boundary")

    def __int__(self):
        return trunc_int(self)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return trunc_int(self)

    def __round__(self, nd=None):
        if nd is None:
            return round_int(self)
        return self.round(nd)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def floor(self):
        return Sym(Expr.const(floor_int(self)))

    def ceil(self):
        return Sym(Expr.const(-floor_int(-self)))

    def rint(self):
        return Sym(Expr.const(round_int(self)))

    def trunc(self):
        return Sym(Expr.const(trunc_int(self)))

    def round(self, decimals=0):
        p = Fraction(10) ** decimals
        return Sym(Expr.const(Fraction(round_int(self * Sym(Expr.const(p)))) / p))

    def is_integer(self):
        return self.is_const() and self.e.const_value().denominator == 1

    # -- numpy object-ufunc protocol
    @property
    def real(self):
        return Sym(self.e.real()) if self.e.__class__ is Expr else self

    @property
    def imag(self):
        return Sym(self.e.imag()) if self.e.__class__ is Expr else ZERO

    def conjugate(self):
        return Sym(self.e.conj()) if self.e.__class__ is Expr else self
    conj = conjugate

    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        if self.e.__class__ is not Expr:
            return NAN if self.e != "-inf" else ZERO
        return Sym(X.exp(self.e))

    def cos(self): return Sym(X.cos(self.e)) if self.e.__class__ is Expr else NAN
    def sin(self): return Sym(X.sin(self.e)) if self.e.__class__ is Expr else NAN
    def tan(self): return self.sin() / self.cos()

    def cosh(self):
        return Sym((X.exp(self.e) + X.exp(-self.e)).scale(Fraction(1, 2)))

    def sinh(self):
        return Sym((X.exp(self.e) - X.exp(-self.e)).scale(Fraction(1, 2)))

    def tanh(self): return self.sinh() / self.cosh()

    def log(self):
        if self.e.__class__ is not Expr:
            return self if self.e == "inf" else NAN
        if self.e.is_const() and self.e.const_value() == 1:
            return ZERO
        return Sym(X.log(self.e))

    def arcsin(self):
        if self.e.__class__ is not Expr:
            return NAN
        if self.e.is_const() and self.e.const_value() == 0:
            return ZERO
        if self.e.is_const() and abs(self.e.const_value()) == 1:
            return Sym(X.EPI.scale(self.e.const_value() / 2))
        if not bool((self <= 1) & (self >= -1)):
            return NAN
        return Sym(X.fn_atom("arcsin", (self.e,)))

    def arccos(self):
        if self.e.__class__ is not Expr:
            return NAN
        if self.e.is_const() and abs(self.e.const_value()) <= 1 and self.e.const_value() in (0, 1, -1):
            return Sym(X.EPI.scale({0: Fraction(1, 2), 1: Fraction(0), -1: Fraction(1)}[int(self.e.const_value())]))
        if not bool((self <= 1) & (self >= -1)):
            return NAN
        return Sym(X.fn_atom("arccos", (self.e,)))

    def arctan(self):
        if self.e.__class__ is not Expr:
            return NAN if self.isnan() else Sym(X.EPI.scale(Fraction(-1 if self.e == "-inf" else 1, 2)))
        if self.e.is_zero():
            return ZERO
        return Sym(X.fn_atom("arctan", (self.e,)))

    def arctan2(self, o):
        o = Sym.lift(o)
        return Sym(X.angle(o.e + self.e * X.I))

    def isnan(self):
        return self.e.__class__ is not Expr and self.e == "nan"

    def square(self):
        return self * self

    def sign(self):
        if bool(self > 0):
            return ONE
        if bool(self < 0):
            return -ONE
        return ZERO

    def item(self): return self
    def copy(self): return self
    def tolist(self): return self

    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    @property
    def size(self): return 1

    @property
    def dtype(self):
        return np.dtype(np.float64) if self.e.__class__ is not Expr or self.e.is_real() else np.dtype(np.complex128)

    def astype(self, *a, **k): return self

    def max(self): return self
    min = sum = mean = max

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        raise DomainError("pickling a symbolic value")

    def __str__(self):
        if self.e.__class__ is not Expr:
            return self.e
        if self.e.is_const():
            v = self.e.const_value()
            return str(v.numerator / v.denominator)
        return "<%s>" % X._short(self.e, 100000)

    def __repr__(self):
        return str(self)

    def __format__(self, spec):
        if not spec:
            return str(self)
        if self.e.__class__ is Expr and not self.e.is_const() and CTX is not None:
            return CTX.format_sym(self, spec)
        return format(float(self), spec)


def _add(a, b): return a + b
def _sub(a, b): return a - b
def _mul(a, b): return a * b


def _special(a, b, f, rev):
    if a.e == "nan" or b.e == "nan":
        return NAN
    if rev:
        a, b = b, a
    ia, ib = a.e if a.e.__class__ is str else None, b.e if b.e.__class__ is str else None
    if f is _add or f is _sub:
        if ib and f is _sub:
            ib = "-inf" if ib == "inf" else "inf"
        if ia and ib and ia != ib:
            return NAN
        return INF if (ia or ib) == "inf" else NINF
    # mul
    s = 1
    for v, i in ((a, ia), (b, ib)):
        if i:
            s *= 1 if i == "inf" else -1
        else:
            if bool(v == 0):
                return NAN
            if bool(v < 0):
                s = -s
    return INF if s > 0 else NINF


def _special_cmp(a, b, op, swap):
    if a.e == "nan" or b.e == "nan":
        return FALSE
    if swap:
        a, b = b, a
    r = lambda v: (2 if v.e == "inf" else -2 if v.e == "-inf" else 0)
    x, y = r(a), r(b)
    return TRUE if (x < y if op == "lt" else x <= y if op == "le" else x == y) else FALSE


def _div(a, b):
    if a.e.__class__ is not Expr or b.e.__class__ is not Expr:
        if a.e == "nan" or b.e == "nan":
            return NAN
        if b.e.__class__ is str:
            return NAN if a.e.__class__ is str else ZERO
        if b.is_const() and b.e.const_value() == 0:
            return NAN
        return _special(a, b, _mul, False)
    if b.e.is_zero():
        if CTX is not None and not CTX.np_mode:
            raise ZeroDivisionError("float division by zero")
        if a.e.is_zero() or not a.e.is_real():
            return NAN
        return INF if bool(a > 0) else (NINF if bool(a < 0) else NAN)
    be = b.e
    if len(be.t) > 1:
        # a denominator that may vanish: the singular set is excluded from the claim
        if be.clear().is_zero():
            if CTX is not None and not CTX.np_mode:
                raise ZeroDivisionError("float division by zero")
            return NAN
        if CTX is not None:
            CTX.note_nonzero(be)
    elif CTX is not None and not _nonzero_term(be):
        CTX.note_nonzero(be)
    return Sym(a.e * be.inv())


def _nonzero_term(e):
    (m, k, x), c = next(iter(e.t.items()))
    return all(X.GENS[g].nz for g, _ in m)


def spow(a, b):
    if a.e.__class__ is not Expr or b.e.__class__ is not Expr:
        if b.e.__class__ is Expr and b.e.is_const() and a.e.__class__ is str:
            v = b.e.const_value()
            if a.e == "nan":
                return NAN
            return ZERO if v < 0 else (INF if v > 0 else ONE)
        return NAN
    if b.e.is_const():
        v = b.e.const_value()
        if v.denominator == 1:
            n = int(v)
            if n < 0:
                return _div(ONE, Sym(a.e.pow_int(-n)))
            return Sym(a.e.pow_int(n))
        if v == Fraction(1, 2):
            return ssqrt(a)
        if v.denominator == 2 or True:
            if not _known_nonneg(a.e):
                if bool(a < 0):
                    return NAN
            if a.e.is_zero():
                return ZERO if v > 0 else INF
            return Sym(X.rpow(a.e, v))
    if a.is_const() and a.e.const_value() > 0 and b.e.is_real():
        # c**x = exp(x log c)
        return Sym(X.exp(b.e * X.log(a.e)))
    return Sym(X.exp(b.e * X.log(a.e)))


def _known_nonneg(e):
    if len(e.t) == 1:
        (m, k, x), c = next(iter(e.t.items()))
        if k == 0 and c > 0 and all(X.GENS[g].pos or g in X.SQ for g, _ in m):
            return True
    return False


def ssqrt(a):
    if a.e.__class__ is not Expr:
        return NAN if a.e != "inf" else INF
    e = a.e
    if e.is_const() and e.const_value() < 0:
        return NAN
    if e.is_real() and not _known_nonneg(e) and not _sos(e):
        if CTX is not None:
            s = CTX.known_sign(e)
            if s is None:
                if bool(a < 0):
                    return NAN
            elif s < 0:
                return NAN
    elif not e.is_real():
        raise DomainError("complex square root")
    return Sym(X.sqrt(e))


def _sos(e):
    """sum of z z* terms?  (cheap syntactic check used for norms)"""
    for (m, k, x), c in e.t.items():
        if k or x or c < 0:
            return False
        mm = dict(m)
        for g, p in m:
            G = X.GENS[g]
            if G.pos or g in X.SQ:
                continue
            if G.kind == "c":
                if G.conj is None or mm.get(G.conj) != p:
                    return False
            elif p % 2:
                return False
    return True


def floor_int(s):
    if s.e.__class__ is not Expr:
        raise ValueError("cannot convert float NaN to integer")
    if s.e.is_const():
        v = s.e.const_value()
        return v.numerator // v.denominator
    return CTX.choose_floor(s)


def trunc_int(s):
    if s.e.__class__ is not Expr:
        raise ValueError("cannot convert float NaN to integer")
    if s.e.is_const():
        v = s.e.const_value()
        return int(v)
    if bool(s >= 0):
        return floor_int(s)
    return -floor_int(-s)


def round_int(s):
    if s.e.__class__ is not Expr:
        raise ValueError("cannot convert float NaN to integer")
    if s.e.is_const():
        return round(s.e.const_value())
    return floor_int(s + Fraction(1, 2))


ZERO = Sym(X.ZERO)
ONE = Sym(X.ONE)
J = Sym(X.I)
NAN = Sym("nan")
INF = Sym("inf")
NINF = Sym("-inf")
PI = Sym(X.EPI)

numbers.Number.register(Sym)
