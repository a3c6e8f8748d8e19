"""numpy as the code under test sees it: arrays of exact symbolic scalars."""
from fractions import Fraction
import itertools, functools, operator, math, types
import numpy as np
from . import expr as X
from . import sym as S
from .expr import Expr, DomainError
from .sym import Sym, SymBool, to_bool, s_and, s_or, s_not

RANK = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}
REALNP = np


class ComplexWarning(Warning):
    pass


# ------------------------------------------------------------------ dtypes
class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return cls._isinst(o)

    def __eq__(cls, o):
        if cls is o:
            return True
        try:
            return kindof(o) == cls._kind_ and not isinstance(o, str)
        except Exception:
            return False

    def __hash__(cls):
        return hash(cls._kind_)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)


def _mktype(name, kind, conv, isinst, base=None):
    return _TypeMeta(name, (), {"_kind_": kind, "_conv": staticmethod(conv), "_isinst": staticmethod(isinst)})


def _conv_f(x=0.0, *a, **k):
    if isinstance(x, SArr) and x.ndim > 0:
        return x.astype("f")
    if isinstance(x, (list, tuple)):
        return array(x, dtype="f")
    if isinstance(x, str):
        t = x.strip().lower().lstrip("+-")
        if t in ("nan", "inf", "infinity"):
            return Sym.lift(float(x))
        try:
            return Sym(Expr.const(Fraction(x.strip())))
        except ValueError:
            return Sym.lift(float(x))
    if isinstance(x, bytes):
        return _conv_f(x.decode())
    if x is None or isinstance(x, (dict, type)):
        raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
    x = _scalar(x)
    s = Sym.lift(x)
    if s.e.__class__ is Expr and not s.e.is_real():
        raise TypeError("can't convert complex to float")
    return s


def _scalar(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return np.ndarray.item(x)
    return x


def _conv_c(x=0, y=None, *a, **k):
    if isinstance(x, np.ndarray) and x.ndim > 0:
        return asarr(x).astype("c")
    if isinstance(x, (list, tuple)):
        return array(x, dtype="c")
    s = Sym.lift(_scalar(x)) if not isinstance(x, str) else Sym.lift(complex(x))
    if y is not None:
        s = s + Sym.lift(_scalar(y)) * S.J
    return s


def _conv_i(x=0, *a, **k):
    if isinstance(x, np.ndarray) and x.ndim > 0:
        return asarr(x).astype("i")
    if isinstance(x, (str, bytes)):
        return int(x, *a)
    if x is None:
        raise TypeError("int() argument must be a string or a real number, not 'NoneType'")
    x = _scalar(x)
    if isinstance(x, Sym):
        if x.e.__class__ is Expr and not x.e.is_real():
            raise TypeError("int() argument must be a real number, not 'complex'")
        return S.trunc_int(x)
    return int(x)


def _conv_b(x=False, *a, **k):
    if isinstance(x, np.ndarray) and x.ndim > 0:
        return asarr(x).astype("b")
    return bool(x)


def _is_f(o):
    return (isinstance(o, Sym) and (o.e.__class__ is not Expr or o.e.is_real())) or isinstance(o, (float, np.floating))


def _is_c(o):
    return (isinstance(o, Sym) and o.e.__class__ is Expr and not o.e.is_real()) or isinstance(o, (complex, np.complexfloating))


def _is_i(o):
    return isinstance(o, (int, np.integer)) and True


def _is_b(o):
    return isinstance(o, (bool, np.bool_, SymBool))


PyFloat = _mktype("float", "f", _conv_f, _is_f)
PyInt = _mktype("int", "i", _conv_i, _is_i)
PyComplex = _mktype("complex", "c", _conv_c, _is_c)
PyBool = bool

float64 = _mktype("float64", "f", _conv_f, _is_f)
complex128 = _mktype("complex128", "c", _conv_c, lambda o: isinstance(o, (Sym, complex, np.complexfloating)))
int64 = _mktype("int64", "i", _conv_i, _is_i)
bool_ = _mktype("bool_", "b", _conv_b, _is_b)


def kindof(dt):
    if dt is None:
        return "f"
    if isinstance(dt, str) and dt in RANK:
        return dt
    if isinstance(dt, _TypeMeta):
        return dt._kind_
    if dt is bool:
        return "b"
    d = np.dtype(dt)
    k = d.kind
    if k == "u":
        k = "i"
    if k in "SU":
        return "O"
    if k not in RANK:
        raise DomainError("dtype %r" % (dt,))
    return k


def scalar_kind(x):
    if x.__class__ is Sym:
        return "f" if x.e.__class__ is not Expr or x.e.is_real() else "c"
    if isinstance(x, (bool, np.bool_, SymBool)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    if isinstance(x, Fraction):
        return "f"
    return "O"


def kmax(*ks):
    return max(ks, key=RANK.get)


def infer_kind(flat):
    k = None
    for x in flat:
        kk = scalar_kind(x)
        k = kk if k is None else kmax(k, kk)
    return k or "f"


def conv_elem(x, k):
    """element x stored in an array of kind k"""
    if k == "c":
        return x if x.__class__ is Sym else Sym.lift(x)
    if k == "f":
        if x.__class__ is not Sym:
            x = Sym.lift(x)
        return x if x.e.__class__ is not Expr or x.e.is_real() else x.real
    if k == "i":
        if isinstance(x, Sym):
            return Sym.lift(S.trunc_int(x.real))
        return Sym.lift(int(x))
    if k == "b":
        return to_bool(x)
    return x


def from_elem(x, k):
    if k == "i" and x.__class__ is Sym:
        return int(x.e.const_value())
    if k == "b" and x.__class__ is SymBool and x.op == "const":
        return np.bool_(x.a)
    return x


# ------------------------------------------------------------------ arrays
class SArr(np.ndarray):
    _k = "f"

    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if isinstance(shape, Sym):
            shape = operator.index(shape)
        k = kindof(dtype)
        if buffer is not None:
            raise DomainError("ndarray(buffer=...)")
        a = np.ndarray.__new__(cls, _shape(shape), object)
        a._k = k
        fillv = S.FALSE if k == "b" else (S.ZERO if k == "i" else S.NAN)
        np.ndarray.fill(a.view(np.ndarray), fillv)
        return a

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, "_k", "O")

    @property
    def dtype(self):
        return np.dtype({"f": np.float64, "c": np.complex128, "i": np.int64, "b": np.bool_, "O": object}[self._k])

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def _raw(self):
        return self.view(np.ndarray)

    # ---- item access
    def __getitem__(self, idx):
        i = _index(idx)
        r = np.ndarray.__getitem__(self, i)
        if isinstance(r, SArr):
            return r
        return from_elem(r, self._k)

    def __setitem__(self, idx, val):
        i = _index(idx)
        k = self._k
        raw = self._raw()
        if isinstance(val, np.ndarray):
            v = asarr(val)
            if v._k != k and k != "O":
                v = _convarr(v, k)
            raw[i] = v._raw() if v.ndim else v._raw()[()]
            return
        if isinstance(val, (list, tuple, range)):
            v = asarr(val)
            raw[i] = _convarr(v, k)._raw()
            return
        if val is None and k != "O":
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        raw[i] = conv_elem(val, k)

    def __iter__(self):
        for i in range(self.shape[0]) if self.ndim else _zerod():
            yield self[i]

    def item(self, *a):
        return from_elem(np.ndarray.item(self, *a), self._k)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, SArr) else (bool(x) if self._k == "b" else x) for x in self]

    def __bool__(self):
        if self.size == 1:
            x = self._raw().ravel()[0]
            return bool(x)
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(Sym.lift(_scalar(self)))

    def __int__(self):
        return int(_conv_i(_scalar(self)))

    def __index__(self):
        if self.size == 1 and self._k == "i" and self.ndim == 0:
            return int(self.item())
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, v):
        return bool((self == v).any())

    # ---- parts
    @property
    def real(self):
        if self._k != "c":
            return self
        return _RealView(self, False)

    @real.setter
    def real(self, v):
        self[...] = asarr_like(v, self) + self._imag() * S.J

    @property
    def imag(self):
        return self._imag()

    @imag.setter
    def imag(self, v):
        self[...] = map1(lambda x: x.real, self, "f") + asarr_like(v, self) * S.J

    def _imag(self):
        if self._k != "c":
            return zeros(self.shape)
        return map1(lambda x: x.imag, self, "f")

    def conj(self):
        if self._k != "c":
            return self.copy()
        return map1(lambda x: x.conjugate(), self, "c")

    conjugate = conj

    def copy(self, order="C"):
        r = np.ndarray.copy(self._raw()).view(SArr)
        r._k = self._k
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **kw):
        return _convarr(self, kindof(dt), True)

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        k0 = "i" if self._k == "b" else self._k
        a = _convarr(self, "i") if self._k == "b" else self
        return _store(reduce_(operator.add, a, axis, keepdims, init=S.ZERO, kind=k0), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(operator.mul, self, axis, keepdims, init=S.ONE, kind=self._k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else _nred(self, axis)
        if n == 0:
            return S.NAN
        return _store(asx(s) / Sym.lift(n), out)

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        s = (d * conj(d)).real.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else _nred(self, axis)
        return asx(s) / Sym.lift(n - ddof)

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return NP.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, initial=None, **k):
        if self.size == 0:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return reduce_(_max2, self, axis, keepdims, kind=self._k)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **k):
        if self.size == 0:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return reduce_(_min2, self, axis, keepdims, kind=self._k)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a < b)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(s_or, _convarr(self, "b"), axis, keepdims, init=S.FALSE, kind="b")

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(s_and, _convarr(self, "b"), axis, keepdims, init=S.TRUE, kind="b")

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(asarr(o), self)

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)

    def round(self, decimals=0, **k):
        return map1(lambda x: x.round(decimals), self, self._k)

    def sort(self, axis=-1, **k):
        self[...] = sort(self)

    def argsort(self, *a, **k):
        return argsort(self)

    def nonzero(self):
        m = _mask(self)
        return tuple(mkarr(list(map(int, z)), "i") for z in np.nonzero(m))

    def fill(self, v):
        self[...] = v

    def repeat(self, n, axis=None):
        return _keep(np.repeat(self._raw(), n, axis), self._k)

    def take(self, idx, axis=None, **k):
        return _keep(np.take(self._raw(), _index(idx), axis), self._k)

    def trace(self, *a, **k):
        return _total(operator.add, np.diagonal(self._raw()).tolist(), S.ZERO)

    def reshape(self, *a, **k):
        a = tuple(_shape(x) if isinstance(x, (tuple, list)) else operator.index(x) for x in a)
        return np.ndarray.reshape(self, *a, **k)

    # arithmetic operators: go through our own ufunc protocol
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return ufunc_call(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(NP, func.__name__, None)
        mod = getattr(func, "__module__", "") or ""
        if "linalg" in mod:
            f = getattr(NP.linalg, func.__name__, f)
        if "fft" in mod:
            f = getattr(NP.fft, func.__name__, f)
        if f is not None and f is not func:
            return f(*args, **kwargs)
        raise DomainError("numpy function %s on symbolic arrays" % func.__name__)

    def __repr__(self):
        return "SArr<%s>%s" % (self._k, [repr(x)[:60] for x in self._raw().ravel().tolist()[:6]])

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise DomainError("pickling a symbolic array")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def tobytes(self, *a):
        return repr([str(x) for x in self._raw().ravel().tolist()]).encode()

    tostring = tobytes


def _mkops():
    names = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide", "floordiv": "floor_divide",
             "mod": "remainder", "pow": "power", "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"}
    bad = (str, dict, type(None), type, types.FunctionType)

    def fwd(u):
        def f(self, o):
            if isinstance(o, bad):
                raise TypeError("unsupported operand type(s)")
            return ufunc_call(u, "__call__", (self, o), None, {})
        return f

    def rev(u):
        def f(self, o):
            if isinstance(o, bad):
                raise TypeError("unsupported operand type(s)")
            return ufunc_call(u, "__call__", (o, self), None, {})
        return f

    def inp(u):
        def f(self, o):
            if isinstance(o, bad):
                raise TypeError("unsupported operand type(s)")
            return ufunc_call(u, "__call__", (self, o), (self,), {})
        return f
    for k, v in names.items():
        u = getattr(np, v)
        setattr(SArr, "__%s__" % k, fwd(u))
        setattr(SArr, "__r%s__" % k, rev(u))
        setattr(SArr, "__i%s__" % k, inp(u))
    for k, v in {"lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal"}.items():
        setattr(SArr, "__%s__" % k, fwd(getattr(np, v)))

    def eqop(u, dflt):
        def f(self, o):
            if isinstance(o, bad):
                return dflt
            return ufunc_call(u, "__call__", (self, o), None, {})
        return f
    SArr.__eq__ = eqop(np.equal, False)
    SArr.__ne__ = eqop(np.not_equal, True)
    for k, v in {"neg": "negative", "pos": "positive", "abs": "absolute", "invert": "invert"}.items():
        def un(self, u=getattr(np, v)):
            return ufunc_call(u, "__call__", (self,), None, {})
        setattr(SArr, "__%s__" % k, un)


_mkops()


def _zerod():
    raise TypeError("iteration over a 0-d array")


def _RealView(a, imag):
    """.real of a complex array: numpy returns a writable view; reads are what the code uses"""
    return RealPart(a)


class _RealPart(SArr):
    """real part that writes through to its parent"""
    _parent = None

    def __setitem__(self, idx, val):
        SArr.__setitem__(self, idx, val)
        p = self._parent
        if p is not None and not isinstance(p, np.ndarray):
            return
        if p is not None:
            i = _index(idx)
            cur = p._raw()
            new = np.frompyfunc(lambda z, x: Sym(x.e) + Sym(z.imag.e) * S.J, 2, 1)(cur[i], self._raw()[i])
            cur[i] = new


def RealPart(a):
    r = map1(lambda x: x.real, a, "f")
    v = np.ndarray.view(r, _RealPart)
    v._k = "f"
    v._parent = a
    return v


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_dim(x) for x in s)
    if isinstance(s, SArr):
        return tuple(_dim(x) for x in s)
    return (_dim(s),)


def _dim(x):
    if isinstance(x, Sym):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return operator.index(x)


def _mask(a):
    raw = a._raw()
    out = np.empty(raw.shape, dtype=bool)
    it = np.nditer(out, flags=["multi_index"]) if raw.ndim else None
    if raw.ndim == 0:
        return np.bool_(bool(raw[()]))
    for i in np.ndindex(*raw.shape):
        out[i] = bool(raw[i])
    return out


def _index1(i):
    if isinstance(i, SArr):
        if i._k == "b":
            return _mask(i)
        if i._k == "i":
            if i.ndim == 0:
                return int(i.item())
            return np.array([int(x.e.const_value()) for x in i._raw().ravel().tolist()], dtype=int).reshape(i.shape)
        if i.size == 0:
            return np.array([], dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, Sym):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        def f(x):
            if isinstance(x, Sym):
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            return x
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list):
        return _index1(asarr(i))
    return i


def _index(idx):
    if isinstance(idx, tuple):
        return tuple(_index1(i) for i in idx)
    return _index1(idx)


def _keep(raw, k):
    r = np.asarray(raw, dtype=object).view(SArr)
    r._k = k
    return r


def mkarr(xs, kind=None):
    """array of scalars / nested lists"""
    if isinstance(xs, SArr):
        return xs if kind is None else _convarr(xs, kind)
    shp = _nested_shape(xs)
    flat = list(_flatten(xs, len(shp)))
    k = kind or infer_kind(flat)
    raw = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        raw[i] = conv_elem(x, k) if k != "O" else x
    return _keep(raw.reshape(shp), k)


def _nested_shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return (0,)
        s0 = _nested_shape(x[0])
        for y in x[1:]:
            if _nested_shape(y) != s0:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + s0
    return ()


def _flatten(x, d):
    if d == 0:
        if isinstance(x, np.ndarray):
            yield x.item()
        else:
            yield x
    elif isinstance(x, SArr):
        k = x._k
        for y in x._raw().ravel().tolist():
            yield from_elem(y, k)
    elif isinstance(x, np.ndarray):
        for y in x.ravel().tolist():
            yield y
    else:
        for y in x:
            yield from _flatten(y, d - 1)


def asarr(x):
    """anything array-like -> SArr (no copy when already one)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return mkarr(x.tolist()) if x.ndim else mkarr(x.item())
        k = kindof(x.dtype)
        raw = np.empty(x.size, dtype=object)
        for i, v in enumerate(x.ravel().tolist()):
            raw[i] = conv_elem(v, k)
        return _keep(raw.reshape(x.shape), k)
    if isinstance(x, (list, tuple, range)):
        return mkarr(x)
    if hasattr(x, "__array__") and not isinstance(x, (Sym, SymBool, np.generic)):
        return asarr(x.__array__())
    k = scalar_kind(x)
    raw = np.empty((), dtype=object)
    raw[()] = conv_elem(x, k)
    return _keep(raw, k)


def asarr_like(v, a):
    return asarr(v)


def asx(x):
    """array or scalar Sym"""
    if isinstance(x, np.ndarray):
        return asarr(x)
    if isinstance(x, (list, tuple)):
        return mkarr(x)
    return Sym.lift(x)


def _convarr(a, k, force=False):
    if a._k == k and not force:
        return a
    raw = a._raw()
    if a._k == k:
        return a.copy()
    out = np.empty(raw.shape, dtype=object)
    for i in np.ndindex(*raw.shape):
        v = raw[i]
        if a._k == "b" and k != "b":
            v = (S.ONE if v.a else S.ZERO) if v.op == "const" else (S.ONE if bool(v) else S.ZERO)
        out[i] = conv_elem(v, k) if k != "O" else v
    return _keep(out, k)


def map1(f, a, kind):
    raw = a._raw()
    out = np.empty(raw.shape, dtype=object)
    if raw.ndim == 0:
        out[()] = f(raw[()])
    else:
        fo = out.reshape(-1)
        for j, v in enumerate(raw.ravel().tolist()):
            fo[j] = f(v)
    return _keep(out, kind)


def _total(op, xs, init=None):
    r = init
    for x in xs:
        r = x if r is None else op(r, x)
    return r


def _nred(a, axis):
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def reduce_(op, a, axis, keepdims, init=None, kind="f"):
    raw = a._raw()
    if axis is None:
        r = _total(op, raw.ravel().tolist(), init)
        if keepdims:
            o = np.empty((1,) * raw.ndim, dtype=object)
            o[...] = r
            return _keep(o, kind)
        return from_elem(r, kind)
    if isinstance(axis, tuple):
        axes = sorted((x % raw.ndim for x in axis), reverse=True)
        for x in axes:
            a = reduce_(op, a, x, keepdims, init, kind)
            if not isinstance(a, SArr):
                return a
        return a
    ax = operator.index(axis)
    if not -raw.ndim <= ax < raw.ndim:
        raise np.AxisError("axis %d is out of bounds for array of dimension %d" % (ax, raw.ndim))
    m = np.moveaxis(raw, ax, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = _total(op, m[i].tolist(), init)
    if keepdims:
        out = np.expand_dims(out, ax)
    r = _keep(out, kind)
    if r.ndim == 0:
        return from_elem(r._raw()[()], kind)
    return r


def _store(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    out[...] = r
    return out


def _max2(a, b):
    if a.__class__ is Sym and a.isnan():
        return a
    if b.__class__ is Sym and b.isnan():
        return b
    if LAZY_MAX:
        x, y = Sym.lift(a), Sym.lift(b)
        if not (x.e - y.e).is_const():
            return Sym(X.fn_atom("max", (x.e, y.e)))
    return a if bool(a >= b) else b


LAZY_MAX = False      # np.max gives a max(...) atom instead of one path per order (harness option lazy_max)


def _min2(a, b):
    if a.__class__ is Sym and a.isnan():
        return a
    if b.__class__ is Sym and b.isnan():
        return b
    return a if bool(a <= b) else b


def _arg(a, axis, better):
    raw = a._raw()

    def one(xs):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        bi = 0
        for i in range(1, len(xs)):
            if bool(better(xs[i], xs[bi])):
                bi = i
        return bi
    if axis is None:
        return one(raw.ravel().tolist())
    m = np.moveaxis(raw, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = Sym.lift(one(m[i].tolist()))
    r = _keep(out, "i")
    return r.item() if r.ndim == 0 else r


# ------------------------------------------------------------------ ufuncs
def _true_div(a, b):
    return Sym.lift(a) / Sym.lift(b)


def _bitand(a, b):
    return s_and(to_bool(a), to_bool(b))


def _bitor(a, b):
    return s_or(to_bool(a), to_bool(b))


def _hypot(a, b):
    return S.ssqrt(a * a + b * b)


def _heaviside(a, b):
    if bool(a < 0):
        return S.ZERO
    return S.ONE if bool(a > 0) else b


def _expm1(x):
    return x.exp() - 1


def _log10(x):
    return x.log() / Sym.lift(10).log()


def _log2(x):
    return x.log() / Sym.lift(2).log()


def _sinc(x):
    if bool(x == 0):
        return S.ONE
    y = S.PI * x
    return y.sin() / y


def _isfinite(x):
    return S.TRUE if x.e.__class__ is Expr else S.FALSE


def _angle1(z):
    if z.e.__class__ is not Expr:
        return S.NAN
    if z.e.is_zero():
        return S.ZERO
    if z.e.is_real():
        if bool(z < 0):
            return S.PI
        return S.ZERO
    th = X.angle(z.e)
    if th.gens() and not _is_angle_atom(th) and not th.is_const():
        return Sym(th + X.wrapn(th))
    return Sym(th)


def _is_angle_atom(th):
    if len(th.t) != 1:
        return False
    (m, k, e), c = next(iter(th.t.items()))
    return c == 1 and len(m) == 1 and m[0][0] in X.ANG


UN = {
    "negative": (lambda x: -x, "same"), "positive": (lambda x: x, "same"),
    "exp": (lambda x: x.exp(), "float"), "sqrt": (lambda x: x.sqrt(), "float"),
    "cos": (lambda x: x.cos(), "float"), "sin": (lambda x: x.sin(), "float"), "tan": (lambda x: x.tan(), "float"),
    "cosh": (lambda x: x.cosh(), "float"), "sinh": (lambda x: x.sinh(), "float"), "tanh": (lambda x: x.tanh(), "float"),
    "arcsin": (lambda x: x.arcsin(), "float"), "arccos": (lambda x: x.arccos(), "float"), "arctan": (lambda x: x.arctan(), "float"),
    "log": (lambda x: x.log(), "float"), "log10": (_log10, "float"), "log2": (_log2, "float"),
    "expm1": (_expm1, "float"), "log1p": (lambda x: (x + 1).log(), "float"),
    "exp2": (lambda x: (x * Sym.lift(2).log()).exp(), "float"),
    "absolute": (lambda x: x.absolute(), "abs"), "fabs": (lambda x: x.absolute(), "abs"),
    "conjugate": (lambda x: x.conjugate(), "same"), "square": (lambda x: x * x, "same"),
    "reciprocal": (lambda x: S.ONE / x, "float"), "sign": (lambda x: x.sign(), "same"),
    "floor": (lambda x: x.floor(), "float"), "ceil": (lambda x: x.ceil(), "float"),
    "rint": (lambda x: x.rint(), "float"), "trunc": (lambda x: x.trunc(), "float"),
    "isnan": (lambda x: S.TRUE if x.isnan() else S.FALSE, "bool"), "isfinite": (_isfinite, "bool"),
    "isinf": (lambda x: S.TRUE if x.e in ("inf", "-inf") else S.FALSE, "bool"),
    "logical_not": (lambda x: s_not(to_bool(x)), "bool"), "invert": (lambda x: s_not(to_bool(x)), "bool"),
    "deg2rad": (lambda x: x * S.PI / 180, "float"), "radians": (lambda x: x * S.PI / 180, "float"),
    "rad2deg": (lambda x: x * 180 / S.PI, "float"), "degrees": (lambda x: x * 180 / S.PI, "float"),
    "cbrt": (lambda x: S.spow(x, Sym(Expr.const(Fraction(1, 3)))), "float"),
}
BIN = {
    "add": (operator.add, "num"), "subtract": (operator.sub, "num"), "multiply": (operator.mul, "num"),
    "true_divide": (_true_div, "float"), "divide": (_true_div, "float"),
    "floor_divide": (operator.floordiv, "num"), "remainder": (operator.mod, "num"), "mod": (operator.mod, "num"),
    "power": (lambda a, b: S.spow(a, b), "num"), "float_power": (lambda a, b: S.spow(a, b), "float"),
    "less": (operator.lt, "bool"), "less_equal": (operator.le, "bool"), "greater": (operator.gt, "bool"),
    "greater_equal": (operator.ge, "bool"), "equal": (operator.eq, "bool"), "not_equal": (operator.ne, "bool"),
    "logical_and": (_bitand, "bool"), "logical_or": (_bitor, "bool"),
    "logical_xor": (lambda a, b: to_bool(a) ^ to_bool(b), "bool"),
    "bitwise_and": (_bitand, "bool"), "bitwise_or": (_bitor, "bool"), "bitwise_xor": (lambda a, b: to_bool(a) ^ to_bool(b), "bool"),
    "maximum": (_max2, "num"), "minimum": (_min2, "num"), "fmax": (_max2, "num"), "fmin": (_min2, "num"),
    "arctan2": (lambda a, b: a.arctan2(b), "float"), "hypot": (_hypot, "float"), "heaviside": (_heaviside, "float"),
    "fmod": (operator.mod, "num"),
}


def _out_kind(rule, ks):
    k = kmax(*ks)
    if rule == "same" or rule == "num":
        return "i" if k == "b" and rule == "num" else k
    if rule == "float":
        return k if k in "cO" else "f"
    if rule == "abs":
        return "f" if k == "c" else k
    return "b"


def ufunc_call(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if name == "matmul":
        return dot(inputs[0], inputs[1])
    if method == "__call__":
        arrs = [asarr(x) for x in inputs]
        ks = [a._k for a in arrs]
        where = kw.get("where", True)
        if len(arrs) == 1 and name in UN:
            f, rule = UN[name]
        elif len(arrs) == 2 and name in BIN:
            f, rule = BIN[name]
            if rule == "bool" and False:
                pass
        else:
            raise DomainError("ufunc %s" % name)
        k = _out_kind(rule, ks)
        if rule == "num" and ks == ["b", "b"] and name in ("add", "multiply", "maximum", "minimum"):
            f = _bitor if name in ("add", "maximum") else _bitand
            k = "b"
        else:
            arrs = [_convarr(a, "i") if a._k == "b" and rule not in ("bool",) else a for a in arrs]
        if rule == "bool" and name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal") and "b" in ks:
            arrs = [_convarr(a, "i") if a._k == "b" else a for a in arrs]
        if name in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert") and any(x not in "b" for x in ks):
            if all(x in "bi" for x in ks):
                iv = {"bitwise_and": operator.and_, "bitwise_or": operator.or_, "bitwise_xor": operator.xor, "invert": operator.invert}[name]
                f = lambda *z: Sym.lift(iv(*[int(S.trunc_int(Sym.lift(y))) for y in z]))
                k = "i"
            else:
                raise TypeError("ufunc '%s' not supported for the input types" % name)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if not isinstance(o, SArr):
                    raise DomainError("ufunc output into a plain array")
                if RANK[k] > RANK[o._k] and not (o._k == "O"):
                    raise TypeError("Cannot cast ufunc '%s' output from %s to %s with casting rule 'same_kind'" % (name, k, o._k))
        if len(arrs) == 1:
            r = map1(f, arrs[0], k)
        else:
            r = _binmap(f, arrs[0], arrs[1], k)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if np.shape(r._raw()) != o.shape and r.size > o.size:
                    raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (o.shape, r.shape))
                if where is not True:
                    m = _mask(_convarr(asarr(where), "b"))
                    b = np.broadcast_to(r._raw(), o.shape)
                    m = np.broadcast_to(m, o.shape)
                    o._raw()[m] = b[m]
                    return o
                o[...] = r
                return o
        if where is not True:
            raise DomainError("ufunc where= without out=")
        if r.ndim == 0:
            return from_elem(r._raw()[()], k)
        return r
    if method == "reduce":
        a = asarr(inputs[0])
        axis = kw.get("axis", 0)
        kd = kw.get("keepdims", False)
        meth = {"add": a.sum, "multiply": a.prod, "maximum": a.max, "minimum": a.min, "logical_and": a.all, "logical_or": a.any}.get(name)
        if meth is None:
            raise DomainError("reduce of %s" % name)
        return _store(meth(axis=axis, keepdims=kd), out)
    if method == "accumulate":
        a = asarr(inputs[0])
        f = BIN[name][0]
        return _accum(f, a, kw.get("axis", 0), a._k)
    if method == "outer":
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return ufunc_call(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), None, {})
    raise DomainError("ufunc method %s.%s" % (name, method))


def _binmap(f, a, b, k):
    ra, rb = a._raw(), b._raw()
    if ra.shape == rb.shape:
        shp = ra.shape
        la, lb = ra.ravel().tolist(), rb.ravel().tolist()
    elif rb.ndim == 0:
        shp = ra.shape
        la = ra.ravel().tolist()
        lb = itertools.repeat(rb[()], len(la))
    elif ra.ndim == 0:
        shp = rb.shape
        lb = rb.ravel().tolist()
        la = itertools.repeat(ra[()], len(lb))
    else:
        A, B = np.broadcast_arrays(ra, rb)
        shp = A.shape
        la, lb = A.ravel().tolist(), B.ravel().tolist()
    n = 1
    for d in shp:
        n *= d
    out = np.empty(n, dtype=object)
    for i, (x, y) in enumerate(zip(la, lb)):
        out[i] = f(x, y)
    return _keep(out.reshape(shp), k)


def _accum(f, a, axis, kind):
    raw = a._raw()
    if axis is None:
        raw = raw.ravel()
        axis = 0
    m = np.moveaxis(raw, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        acc = None
        for j in range(m.shape[-1]):
            acc = m[i + (j,)] if acc is None else f(acc, m[i + (j,)])
            out[i + (j,)] = acc
    return _keep(np.moveaxis(out, -1, axis), kind)


class UF:
    """callable standing for a numpy ufunc"""
    def __init__(self, name):
        self.uf = getattr(np, name)
        self.__name__ = name

    def __call__(self, *inputs, out=None, **kw):
        if len(inputs) == self.uf.nin + 1:
            out = inputs[-1]
            inputs = inputs[:-1]
        kw.pop("dtype", None)
        kw.pop("casting", None)
        return ufunc_call(self.uf, "__call__", inputs, out, kw)

    def reduce(self, a, axis=0, out=None, **kw):
        kw["axis"] = axis
        return ufunc_call(self.uf, "reduce", (a,), out, kw)

    def accumulate(self, a, axis=0, **kw):
        return ufunc_call(self.uf, "accumulate", (a,), None, {"axis": axis})

    def outer(self, a, b, **kw):
        return ufunc_call(self.uf, "outer", (a, b), None, {})

    @property
    def nin(self):
        return self.uf.nin


# ------------------------------------------------------------------ functions
FUN = {}


def reg(f, *names):
    for n in names or (f.__name__,):
        FUN[n] = f
    return f


def fn(*names):
    def d(f):
        return reg(f, *names)
    return d


def zeros(shape, dtype=None, order="C", **k):
    kd = kindof(dtype)
    a = SArr(shape, dtype=kd)
    a._raw().fill(S.FALSE if kd == "b" else S.ZERO)
    return a


def ones(shape, dtype=None, order="C", **k):
    kd = kindof(dtype)
    a = SArr(shape, dtype=kd)
    a._raw().fill(S.TRUE if kd == "b" else S.ONE)
    return a


reg(zeros)
reg(ones)


@fn("empty")
def empty(shape, dtype=None, order="C", **k):
    return SArr(shape, dtype=kindof(dtype))


@fn("full")
def full(shape, v, dtype=None, **k):
    a = SArr(shape, dtype=kindof(dtype) if dtype is not None else asarr(v)._k)
    a[...] = v
    return a


@fn("zeros_like")
def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return zeros(a.shape, dtype or a._k)


@fn("ones_like")
def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape, dtype or a._k)


@fn("empty_like")
def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return SArr(a.shape, dtype=dtype or a._k)


@fn("full_like")
def full_like(a, v, dtype=None, **k):
    r = empty_like(a, dtype)
    r[...] = v
    return r


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, **k):
    if not isinstance(x, (list, tuple, range, np.ndarray, Sym, SymBool)) and hasattr(x, "__iter__") and not isinstance(x, (str, bytes)):
        x = list(x)
    a = asarr(x)
    if isinstance(x, np.ndarray) or a is x:
        a = a.copy()
    if type(a) is not SArr:
        a = a.view(SArr)
    if dtype is not None:
        a = _convarr(a, kindof(dtype))
    while a.ndim < ndmin:
        a = a[None]
    return a


reg(array)


@fn("asarray", "asanyarray", "ascontiguousarray", "asfarray")
def asarray(x, dtype=None, **k):
    a = asarr(x)
    if dtype is not None:
        a = _convarr(a, kindof(dtype))
    return a


@fn("copy")
def copy_(a, **k):
    return asarr(a).copy()


def _n_of(v):
    if isinstance(v, Sym):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return operator.index(v)


@fn("linspace")
def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = _n_of(num)
    if n < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % n)
    a, b = asx(a), asx(b)
    if isinstance(a, SArr) and a.ndim == 0:
        a = Sym.lift(a.item())
    if isinstance(b, SArr) and b.ndim == 0:
        b = Sym.lift(b.item())
    if isinstance(a, SArr) or isinstance(b, SArr):
        raise DomainError("array linspace")
    div = (n - 1) if endpoint else n
    step = (b - a) / Sym.lift(div) if div > 0 else S.NAN
    xs = [a + (b - a) * Sym(Expr.const(Fraction(i, div))) if div > 0 else a for i in range(n)]
    r = mkarr(xs, kmax("f", scalar_kind(a), scalar_kind(b)) if dtype is None else kindof(dtype))
    return (r, step) if retstep else r


@fn("logspace")
def logspace(a, b, num=50, endpoint=True, base=10, dtype=None):
    return FUN_power(Sym.lift(base), linspace(a, b, num, endpoint))


@fn("arange")
def arange(*a, dtype=None, **k):
    a = [x.item() if isinstance(x, np.ndarray) else x for x in a]
    allint = all(isinstance(x, (int, np.integer)) for x in a)
    if len(a) == 1:
        st, en, sp = 0, a[0], 1
    elif len(a) == 2:
        st, en, sp = a[0], a[1], 1
    else:
        st, en, sp = a[:3]
    n = -S.floor_int(-((Sym.lift(en) - Sym.lift(st)) / Sym.lift(sp)))
    n = max(0, n)
    xs = [Sym.lift(st) + Sym.lift(sp) * i for i in range(n)]
    return mkarr(xs, kindof(dtype) if dtype is not None else ("i" if allint else "f"))


@fn("eye", "identity")
def eye(n, m=None, k=0, dtype=None):
    m = m or n
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


@fn("tri")
def tri(n, m=None, k=0, dtype=None):
    m = m or n
    return mkarr([[Sym.lift(1 if j <= i + k else 0) for j in range(m)] for i in range(n)], kindof(dtype))


@fn("diag")
def diag(v, k=0):
    v = asarr(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = zeros((n, n), v._k)
        for i in range(len(v)):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return r
    return _keep(np.diagonal(v._raw(), k).copy(), v._k)


def _join(f):
    def g(xs, *a, **k):
        if isinstance(xs, SArr):
            xs = [x for x in xs]
        arrs = [asarr(x) for x in xs]
        kd = kmax(*[x._k for x in arrs])
        k.pop("dtype", None)
        return _keep(f([_convarr(x, kd)._raw() for x in arrs], *a, **k), kd)
    return g


for _n in ("hstack", "vstack", "dstack", "concatenate", "stack", "column_stack"):
    reg(_join(getattr(np, _n)), _n)
reg(FUN["vstack"], "row_stack")


@fn("append")
def append(a, b, axis=None):
    if axis is None:
        return FUN["concatenate"]([asarr(a).ravel(), asarr(b).ravel()])
    return FUN["concatenate"]([asarr(a), asarr(b)], axis=axis)


def _reshaper(name):
    f = getattr(np, name)

    def g(a, *args, **k):
        a = asarr(a)
        r = f(a._raw(), *args, **k)
        if isinstance(r, (list, tuple)):
            return [_keep(x, a._k) for x in r]
        return _keep(r, a._k)
    return g


for _n in ("transpose", "reshape", "ravel", "roll", "flip", "fliplr", "flipud", "squeeze", "expand_dims", "tile", "repeat",
           "atleast_1d", "atleast_2d", "atleast_3d", "moveaxis", "swapaxes", "rot90", "broadcast_to", "resize", "split",
           "array_split", "hsplit", "vsplit", "diagonal", "delete", "triu", "tril"):
    reg(_reshaper(_n), _n)


@fn("roll")
def roll(a, shift, axis=None):
    a = asarr(a)
    if isinstance(shift, Sym):
        # numpy accepts floats only when they are integers after casting
        if not shift.is_integer():
            raise TypeError("roll by a non-integer")
        shift = int(shift.e.const_value())
    return _keep(np.roll(a._raw(), shift, axis), a._k)


@fn("pad")
def pad(a, width, mode="constant", **k):
    a = asarr(a)
    if mode == "constant":
        cv = k.get("constant_values", 0)
        return _keep(np.pad(a._raw(), width, mode="constant", constant_values=Sym.lift(cv)), a._k)
    return _keep(np.pad(a._raw(), width, mode=mode, **k), a._k)


@fn("insert")
def insert(a, i, v, axis=None):
    a = asarr(a)
    v = asarr(v)
    kd = a._k
    return _keep(np.insert(a._raw(), _index(i), _convarr(v, kd)._raw(), axis), kd)


@fn("meshgrid")
def meshgrid(*xs, indexing="xy", **k):
    arrs = [asarr(x) for x in xs]
    rs = np.meshgrid(*[a._raw() for a in arrs], indexing=indexing)
    return [_keep(r, a._k) for r, a in zip(rs, arrs)]


@fn("broadcast_arrays")
def broadcast_arrays(*xs):
    arrs = [asarr(x) for x in xs]
    rs = np.broadcast_arrays(*[a._raw() for a in arrs])
    return [_keep(r.copy(), a._k) for r, a in zip(rs, arrs)]


for _n in ("sum", "prod", "mean", "var", "std", "any", "all", "argmax", "argmin"):
    def _mk(n):
        def g(a, axis=None, *args, **k):
            if n in ("sum", "any", "all") and not isinstance(a, (np.ndarray, list, tuple)) and hasattr(a, "__next__"):
                a = list(a)
            k.pop("dtype", None)
            return getattr(asarr(a), n)(axis=axis, **k)
        g.__name__ = n
        return g
    reg(_mk(_n), _n)
for _n, _m in (("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min"), ("nanmax", "max"), ("nanmin", "min"), ("nansum", "sum"),
               ("nanmean", "mean"), ("ptp", "ptp")):
    def _mk(n):
        def g(a, axis=None, *args, **k):
            return getattr(asarr(a), n)(axis=axis, **k)
        return g
    reg(_mk(_m), _n)


@fn("average")
def average(a, axis=None, weights=None, returned=False, **k):
    a = asarr(a)
    if weights is None:
        return a.mean(axis=axis)
    w = asarr(weights)
    return (a * w).sum(axis=axis) / asx(w.sum(axis=axis if w.ndim == a.ndim else None))


@fn("median")
def median(a, axis=None):
    s = sort(asarr(a).ravel())
    n = len(s)
    return (s[(n - 1) // 2] + s[n // 2]) / Sym.lift(2)


@fn("count_nonzero")
def count_nonzero(a, axis=None):
    return int(_mask(_convarr(asarr(a), "b")).sum())


@fn("cumsum")
def cumsum(a, axis=None, **k):
    a = asarr(a)
    return _accum(operator.add, a, axis, a._k)


@fn("cumprod")
def cumprod(a, axis=None, **k):
    a = asarr(a)
    return _accum(operator.mul, a, axis, a._k)


@fn("diff")
def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    for _ in range(n):
        raw = np.moveaxis(a._raw(), axis, -1)
        r = _keep(raw[..., 1:], a._k) - _keep(raw[..., :-1], a._k)
        a = _keep(np.moveaxis(r._raw(), -1, axis), a._k)
    return a


@fn("ediff1d")
def ediff1d(a):
    return diff(asarr(a).ravel())


@fn("gradient")
def gradient(f, *h, axis=None, edge_order=1):
    f = asarr(f)
    if f.ndim != 1:
        raise DomainError("gradient of nd array")
    n = len(f)
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient")
    if not h:
        x = mkarr([Sym.lift(i) for i in range(n)])
        uniform = S.ONE
    elif isinstance(h[0], np.ndarray) and h[0].ndim == 1:
        x = asarr(h[0])
        uniform = None
        d = diff(x)
        if all(d[i].e.same(d[0].e) if isinstance(d[i], Sym) else d[i] == d[0] for i in range(n - 1)):
            uniform = Sym.lift(d[0])
    else:
        uniform = Sym.lift(_scalar(h[0]) if isinstance(h[0], np.ndarray) else h[0])
    out = []
    for i in range(n):
        if i == 0:
            hh = uniform if uniform is not None else x[1] - x[0]
            out.append((f[1] - f[0]) / Sym.lift(hh))
        elif i == n - 1:
            hh = uniform if uniform is not None else x[n - 1] - x[n - 2]
            out.append((f[n - 1] - f[n - 2]) / Sym.lift(hh))
        elif uniform is not None:
            out.append((f[i + 1] - f[i - 1]) / (2 * uniform))
        else:
            hd, hs = Sym.lift(x[i + 1] - x[i]), Sym.lift(x[i] - x[i - 1])
            out.append((hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i] - hd * hd * f[i - 1]) / (hs * hd * (hd + hs)))
    return mkarr(out, kmax("f", f._k))


@fn("trapz", "trapezoid")
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    raw = np.moveaxis(y._raw(), axis, -1)
    a = _keep(raw[..., 1:], y._k) + _keep(raw[..., :-1], y._k)
    if x is None:
        return asx(a.sum(axis=-1)) * Sym.lift(dx) / 2
    x = asarr(x)
    d = diff(x)
    return asx((a * d).sum(axis=-1)) / 2


@fn("where")
def where(c, *ab):
    c = _convarr(asarr(c), "b")
    if not ab:
        return c.nonzero()
    a, b = asarr(ab[0]), asarr(ab[1])
    kd = kmax(a._k, b._k)
    m = _mask(c)
    A, B, M = np.broadcast_arrays(_convarr(a, kd)._raw(), _convarr(b, kd)._raw(), m)
    out = np.empty(M.shape, dtype=object)
    for i in np.ndindex(*M.shape):
        out[i] = A[i] if M[i] else B[i]
    r = _keep(out, kd)
    return r


@fn("nonzero")
def nonzero(a):
    return asarr(a).nonzero()


@fn("flatnonzero")
def flatnonzero(a):
    return asarr(a).ravel().nonzero()[0]


@fn("argwhere")
def argwhere(a):
    return FUN["transpose"](FUN["vstack"](list(asarr(a).nonzero())))


@fn("extract", "compress")
def compress(c, a, **k):
    return asarr(a)[_convarr(asarr(c), "b")]


@fn("take")
def take(a, idx, axis=None, **k):
    return asarr(a).take(idx, axis)


@fn("select")
def select(conds, choices, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


@fn("clip")
def clip(a, lo=None, hi=None, **k):
    if lo is not None:
        a = NP.maximum(a, lo)
    if hi is not None:
        a = NP.minimum(a, hi)
    return a


def argsort(a, *args, **k):
    a = asarr(a)
    xs = a._raw().tolist()
    idx = list(range(len(xs)))
    idx.sort(key=functools.cmp_to_key(lambda i, j: -1 if bool(xs[i] < xs[j]) else (1 if bool(xs[j] < xs[i]) else 0)))
    return mkarr(idx, "i")


reg(argsort)


def sort(a, axis=-1, **k):
    a = asarr(a)
    if a.ndim != 1:
        raise DomainError("sort of nd array")
    return a[argsort(a)]


reg(sort)


@fn("unique")
def unique(a, **k):
    s = sort(asarr(a).ravel())
    out = []
    for x in s:
        if not out or not bool(Sym.lift(out[-1]) == x):
            out.append(x)
    return mkarr(out, s._k)


@fn("searchsorted")
def searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    v_ = asarr(v)

    def one(x):
        n = 0
        for y in a:
            if bool(Sym.lift(y) < x) or (side == "right" and bool(Sym.lift(y) <= x)):
                n += 1
            else:
                break
        return n
    if v_.ndim == 0:
        return one(Sym.lift(v_.item()))
    return mkarr([one(Sym.lift(x)) for x in v_], "i")


@fn("digitize")
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


@fn("interp")
def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = asarr(xp), asarr(fp)
    n = len(xp)

    def one(v):
        if bool(v < xp[0]):
            return Sym.lift(fp[0] if left is None else left)
        if bool(v > xp[n - 1]):
            return Sym.lift(fp[n - 1] if right is None else right)
        for i in range(1, n):
            if bool(v <= xp[i]):
                t = (v - xp[i - 1]) / (Sym.lift(xp[i]) - xp[i - 1])
                return Sym.lift(fp[i - 1]) + (Sym.lift(fp[i]) - fp[i - 1]) * t
        return Sym.lift(fp[n - 1])
    if isinstance(x, np.ndarray) and x.ndim or isinstance(x, (list, tuple)):
        return mkarr([one(Sym.lift(v)) for v in asarr(x)], fp._k if fp._k == "c" else "f")
    return one(Sym.lift(_scalar(x)))


@fn("angle")
def angle(z, deg=False):
    a = asarr(z)
    r = map1(lambda v: _angle1(v), _convarr(a, kmax("f", a._k)), "f")
    if deg:
        r = r * Sym.lift(180) / S.PI
    return r if a.ndim else r.item()


@fn("unwrap")
def unwrap(p, discont=None, axis=-1, period=None):
    p = asarr(p)
    raw = np.moveaxis(p._raw(), axis, -1)
    out = np.empty(raw.shape, dtype=object)
    for i in np.ndindex(*raw.shape[:-1]):
        row = raw[i].tolist()
        prev = None
        for j, v in enumerate(row):
            th, n = X.split_wrap(v.e)
            if j == 0:
                n0 = n
                out[i + (j,)] = v
                prev = th
                continue
            if any(g in X.ANG for g in th.gens()) or any(g in X.ANG for g in prev.gens()):
                out[i + (j,)] = Sym(th + X.unwrap_n(th, v.e))
            else:
                d = Sym(th - prev)
                if not (bool(d < S.PI) and bool(d > -S.PI)):
                    raise DomainError("unwrap: neighbouring phases differ by more than pi")
                out[i + (j,)] = Sym(th + n0)
            prev = th
    return _keep(np.moveaxis(out, -1, axis), "f")


def _affine(xs):
    """xs[i] = a + d*k_i with rational k_i, or None"""
    a = xs[0]
    d = None
    ks = [Fraction(0)]
    for x in xs[1:]:
        y = x - a
        if y.is_zero():
            ks.append(Fraction(0))
            continue
        if d is None:
            d = y
            ks.append(Fraction(1))
            continue
        k0 = next(iter(d.t))
        if k0 not in y.t:
            return None
        q = y.t[k0] / d.t[k0]
        if not d.scale(q).same(y):
            return None
        ks.append(q)
    return a, d, ks


def solve_frac(A, B):
    """exact Gaussian elimination; A list of lists of Fraction, B list of lists"""
    n = len(A)
    M = [list(r) + list(b) for r, b in zip(A, B)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [v * iv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return [r[n:] for r in M]


@fn("polyfit")
def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    x, y = asarr(x), asarr(y)
    deg = _n_of(deg)
    m = len(x)
    if m == 0:
        raise TypeError("expected non-empty vector for x")
    if m != len(y):
        raise TypeError("expected x and y to have same length")
    af = _affine([Sym.lift(v).e for v in x])
    if af is None:
        raise DomainError("polyfit on abscissae that are not an affine image of rationals")
    a, d, ks = af
    nd = deg + 1
    # rank-deficient fits use the minimum-norm solution of LAPACK: outside the model
    if len(set(ks)) < nd:
        raise DomainError("rank-deficient polyfit")
    W = [Fraction(1)] * m if w is None else [Sym.lift(v).e.const_value() ** 2 for v in asarr(w)]
    V = [[k ** j for j in range(nd)] for k in ks]
    G = [[sum(W[i] * V[i][p] * V[i][q] for i in range(m)) for q in range(nd)] for p in range(nd)]
    P = solve_frac(G, [[W[i] * V[i][p] for i in range(m)] for p in range(nd)])
    ys = [Sym.lift(v) for v in y]
    co = []
    for p in range(nd):
        s = S.ZERO
        for i in range(m):
            if P[p][i]:
                s = s + ys[i] * Sym(Expr.const(P[p][i]))
        co.append(s)
    # substitute u = (x-a)/d
    if d is None:
        d = X.ONE
    di = Sym(d).__rtruediv__(1)
    out = [S.ZERO] * nd
    for j in range(nd):
        cj = co[j] * di ** j
        for r in range(j + 1):
            out[r] = out[r] + cj * Sym(Expr.const(math.comb(j, r))) * (-Sym(a)) ** (j - r)
    return mkarr(list(reversed(out)), kmax("f", y._k))


@fn("polyval")
def polyval(p, x):
    if isinstance(p, poly1d):
        p = p.c
    r = None
    x = asx(x)
    for c in asarr(p):
        r = Sym.lift(c) + (x * S.ZERO if isinstance(x, SArr) else S.ZERO) if r is None else r * x + c
    return r if r is not None else S.ZERO


class poly1d:
    def __init__(self, c, r=False, variable=None):
        if isinstance(c, poly1d):
            c = c.c
        self.c = asarr(c).ravel() if not r else NP.poly(c)
        while len(self.c) > 1 and Sym.lift(self.c[0]).e.is_zero():
            self.c = self.c[1:]
        self.coeffs = self.coef = self.coefficients = self.c

    @property
    def order(self):
        return len(self.c) - 1
    o = order

    def __call__(self, x):
        return polyval(self.c, x)

    def deriv(self, m=1):
        return poly1d(polyder(self.c, m))

    def __getitem__(self, k):
        return self.c[self.order - k] if 0 <= k <= self.order else S.ZERO

    def __len__(self):
        return self.order

    def _bin(self, o, f):
        a, b = list(self.c), list(o.c if isinstance(o, poly1d) else asarr(o).ravel())
        n = max(len(a), len(b))
        a = [S.ZERO] * (n - len(a)) + a
        b = [S.ZERO] * (n - len(b)) + b
        return poly1d(mkarr([f(x, y) for x, y in zip(a, b)]))

    def __add__(self, o): return self._bin(o, operator.add)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __neg__(self): return poly1d(-self.c)

    def __mul__(self, o):
        if not isinstance(o, poly1d):
            return poly1d(self.c * o)
        return poly1d(NP.convolve(self.c, o.c))
    __rmul__ = __mul__


reg(poly1d)


@fn("polyder")
def polyder(p, m=1):
    c = list(asarr(p.c if isinstance(p, poly1d) else p))
    for _ in range(m):
        n = len(c) - 1
        c = [x * (n - i) for i, x in enumerate(c[:-1])]
    r = mkarr(c or [S.ZERO])
    return poly1d(r) if isinstance(p, poly1d) else r


@fn("convolve")
def convolve(a, v, mode="full"):
    a, v = [Sym.lift(x) for x in asarr(a)], [Sym.lift(x) for x in asarr(v)]
    if len(v) > len(a):
        a, v = v, a
    full_ = [S.ZERO] * (len(a) + len(v) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(v):
            full_[i + j] = full_[i + j] + x * y
    return mkarr(_mode(full_, len(a), len(v), mode))


def _mode(full_, n, m, mode):
    if mode == "full":
        return full_
    if mode == "same":
        l = max(n, m)
        s = (len(full_) - l) // 2
        return full_[s:s + l]
    l = max(n, m) - min(n, m) + 1
    s = min(n, m) - 1
    return full_[s:s + l]


@fn("correlate")
def correlate(a, v, mode="valid"):
    a, v = [Sym.lift(x) for x in asarr(a)], [Sym.lift(x).conjugate() for x in asarr(v)]
    n, m = len(a), len(v)
    # numpy: c_k = sum_n a_{n+k} conj(v_n); for m > n it swaps and reverses
    full_ = []
    for k in range(-(m - 1), n):
        s = S.ZERO
        for j in range(m):
            if 0 <= j + k < n:
                s = s + a[j + k] * v[j]
        full_.append(s)
    if mode == "same":
        l = max(n, m)
        st = (min(n, m) - 1) - (min(n, m)) // 2 + (1 if False else 0)
        # determine offset from real numpy once per shape
        st = _corr_off(n, m)
        return mkarr(full_[st:st + l])
    return mkarr(_mode(full_, n, m, mode))


@functools.lru_cache(None)
def _corr_off(n, m):
    r = np.random.RandomState(1)
    a, v = r.rand(n), r.rand(m)
    f = np.correlate(a, v, "full")
    s = np.correlate(a, v, "same")
    for st in range(len(f) - len(s) + 1):
        if np.allclose(f[st:st + len(s)], s):
            return st
    raise DomainError("correlate offset")


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    kd = kmax(a._k, b._k)
    A, B = a._raw(), b._raw()
    if b.ndim == 1:
        r = (a * b).sum(axis=-1)
        return r
    if a.ndim == 1:
        return (_keep(np.moveaxis(B, -2, -1), b._k) * a).sum(axis=-1)
    if a.ndim == 2 and b.ndim == 2:
        if A.shape[1] != B.shape[0]:
            raise ValueError("shapes not aligned")
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = _total(operator.add, [A[i, k] * B[k, j] for k in range(A.shape[1])], S.ZERO)
        return _keep(out, kd)
    raise DomainError("dot of nd arrays")


reg(dot, "dot", "matmul", "inner")


@fn("vdot")
def vdot(a, b):
    return (conj(asarr(a).ravel()) * asarr(b).ravel()).sum()


@fn("outer")
def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a[:, None] * b[None, :]


@fn("einsum")
def einsum(*a, **k):
    raise DomainError("einsum")


def conj(z):
    if isinstance(z, np.ndarray) or isinstance(z, (list, tuple)):
        return asarr(z).conj()
    return Sym.lift(z).conjugate()


reg(conj, "conj", "conjugate")


@fn("real")
def real(z):
    if isinstance(z, (np.ndarray, list, tuple)):
        return asarr(z).real
    return Sym.lift(z).real


@fn("imag")
def imag(z):
    if isinstance(z, (np.ndarray, list, tuple)):
        return asarr(z).imag
    return Sym.lift(z).imag


@fn("real_if_close")
def real_if_close(z, tol=100):
    z = asarr(z)
    if all(x.e.is_real() for x in z._raw().ravel().tolist()):
        return z.real
    return z


@fn("sinc")
def sinc(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        return map1(_sinc, _convarr(asarr(x), "f"), "f")
    return _sinc(Sym.lift(x))


@fn("round", "around", "round_")
def round_(x, decimals=0, out=None):
    if isinstance(x, (np.ndarray, list, tuple)):
        return asarr(x).round(decimals)
    return Sym.lift(x).round(decimals)


@fn("fix")
def fix(x):
    return NP.trunc(x)


@fn("isscalar")
def isscalar(x):
    return isinstance(x, (Sym, SymBool, int, float, complex, str, np.generic))


@fn("isreal")
def isreal(x):
    a = asarr(x)
    return map1(lambda v: to_bool(v.imag == 0), _convarr(a, "c"), "b")


@fn("isrealobj")
def isrealobj(x):
    return asarr(x)._k != "c"


@fn("iscomplexobj")
def iscomplexobj(x):
    return asarr(x)._k == "c"


@fn("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = NP.absolute(asarr(a) - asarr(b))
    return d <= Sym.lift(atol) + NP.absolute(asarr(b)) * Sym.lift(rtol)


@fn("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = isclose(a, b, rtol, atol)
    return bool(r.all()) if isinstance(r, SArr) else bool(r)


@fn("array_equal")
def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    r = a == b
    return bool(r.all()) if isinstance(r, SArr) else bool(r)


@fn("shape")
def shape(a):
    if isinstance(a, np.ndarray):
        return a.shape
    return asarr(a).shape if not isinstance(a, (Sym, SymBool)) else ()


@fn("size")
def size(a, axis=None):
    return asarr(a).size if axis is None else asarr(a).shape[axis]


@fn("ndim")
def ndim(a):
    return asarr(a).ndim


@fn("alen")
def alen(a):
    return len(a)


@fn("finfo")
def finfo(t=None):
    r = np.finfo(np.float64)
    return types.SimpleNamespace(eps=Sym.lift(float(r.eps)), max=Sym.lift(float(r.max)), min=Sym.lift(float(r.min)),
                                 tiny=Sym.lift(float(r.tiny)), resolution=Sym.lift(1e-15), dtype=r.dtype)


@fn("seterr")
def seterr(*a, **k):
    return {}


@fn("errstate")
class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


@fn("savetxt")
def savetxt(fname, X_, *a, **k):
    X_ = asarr(X_)
    if X_.ndim == 1:
        X_ = X_.reshape(-1, 1)
    STUBFILES[str(fname)] = [[X_[i, j] for j in range(X_.shape[1])] for i in range(X_.shape[0])]
    STUBSEP[str(fname)] = None if k.get("delimiter", " ") == " " else k["delimiter"]


@fn("set_printoptions", "save", "savez")
def _noop(*a, **k):
    pass


@fn("nan_to_num")
def nan_to_num(a, copy=True, nan=0.0, **k):
    big = Sym.lift(float(np.finfo(float).max))

    def f(x):
        if x.e.__class__ is Expr:
            return x
        return Sym.lift(nan) if x.e == "nan" else (big if x.e == "inf" else -big)
    a_ = asarr(a)
    r = map1(f, a_, a_._k)
    return r if a_.ndim else r.item()


@fn("vectorize")
class vectorize:
    def __init__(self, pyfunc, otypes=None, **k):
        self.f = pyfunc
        self.ot = otypes

    def __call__(self, *args, **kw):
        arrs = [asarr(a) for a in args]
        bs = np.broadcast_arrays(*[a._raw() for a in arrs]) if arrs else []
        shp = bs[0].shape
        outs = []
        for i in np.ndindex(*shp):
            outs.append(self.f(*[from_elem(b[i], a._k) for b, a in zip(bs, arrs)], **kw))
        if not outs:
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        if isinstance(outs[0], tuple):
            return tuple(mkarr([o[j] for o in outs]).reshape(shp) for j in range(len(outs[0])))
        k = kindof(self.ot[0]) if self.ot else infer_kind(outs)
        r = mkarr(outs, k).reshape(shp)
        return r


@fn("apply_along_axis")
def apply_along_axis(f, axis, a, *args, **k):
    a = asarr(a)
    m = np.moveaxis(a._raw(), axis, -1)
    rows = [f(_keep(m[i], a._k), *args, **k) for i in np.ndindex(*m.shape[:-1])]
    r = mkarr(rows).reshape(m.shape[:-1] + _nested_shape(rows[0]))
    return r


@fn("fromiter")
def fromiter(it, dtype=None, count=-1):
    return array(list(it), dtype)


@fn("fromfunction")
def fromfunction(f, shape_, dtype=None, **k):
    g = np.indices(shape_)
    return f(*[asarr(x) for x in g])


@fn("may_share_memory", "shares_memory")
def may_share(a, b):
    return np.may_share_memory(a, b)


@fn("iterable")
def iterable(a):
    return np.iterable(a)


@fn("result_type", "promote_types", "common_type")
def result_type(*a):
    k = kmax(*[asarr(x)._k if isinstance(x, np.ndarray) else kindof(x) for x in a])
    return {"f": float64, "c": complex128, "i": int64, "b": bool_}[k]


@fn("dtype")
def dtype_(x, *a, **k):
    if isinstance(x, _TypeMeta):
        return np.dtype({"f": "f8", "c": "c16", "i": "i8", "b": "?"}[x._kind_])
    return np.dtype(x, *a, **k)


STUBFILES = {}
STUBSEP = {}


def _table(fname, skip, delimiter, comments, strict):
    """rows of a stand-in data file as numpy's text readers see them"""
    rows = STUBFILES.get(str(fname))
    if rows is None:
        raise FileNotFoundError("%s not found." % fname)
    sep = STUBSEP.get(str(fname))
    rows = [list(r) for r in rows][int(skip):]
    rows = [r for r in rows if not (r and isinstance(r[0], str) and comments and r[0].startswith(comments))]
    d = None if delimiter in (None, " ") else delimiter
    if d != sep and any(len(r) > 1 for r in rows):
        if strict:
            raise ValueError("could not convert string to float64")
        rows = [["?"] for r in rows] if d is not None else [["?"] * len(r) for r in rows]
    if any(isinstance(v, str) for r in rows for v in r):
        if strict:
            raise ValueError("could not convert string to float64")
        rows = [[S.NAN if isinstance(v, str) else v for v in r] for r in rows]
    return array(rows)


@fn("genfromtxt")
def genfromtxt(fname, dtype=float, comments="#", delimiter=None, skip_header=0, skip_footer=0, usecols=None, unpack=False, **k):
    for q in k:
        raise TypeError("genfromtxt() got an unexpected keyword argument %r" % q) if q in ("skiprows", "skip_rows") else DomainError("genfromtxt(%s=)" % q)
    r = _table(fname, skip_header, delimiter, comments, False)
    if skip_footer:
        r = r[:-int(skip_footer)]
    if usecols is not None:
        r = FUN["transpose"](FUN["vstack"]([r[:, j] for j in usecols]))
    return r.T if unpack else r.copy()


@fn("loadtxt")
def loadtxt(fname, dtype=float, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0, **k):
    r = _table(fname, skiprows, delimiter, comments, True)
    if usecols is not None:
        r = FUN["transpose"](FUN["vstack"]([r[:, j] for j in usecols]))
    return r.T if unpack else r.copy()


FUN_power = UF("power")


# ------------------------------------------------------------------ fft
def _dft1(xs, sign, scale):
    n = len(xs)
    if X.FULL % n:
        raise DomainError("DFT length %d" % n)
    st = X.FULL // n
    out = []
    rows = _dft_rows(n, sign)
    for k in range(n):
        acc = X.ZERO
        rk = rows[k]
        for j in range(n):
            e = xs[j].e
            if e.__class__ is not Expr:
                return [S.NAN] * n
            if e.t:
                acc = acc + e * rk[j]
        out.append(Sym(acc.scale(scale)))
    return out


@functools.lru_cache(None)
def _dft_rows(n, sign):
    st = X.FULL // n
    return [[X._mk((), (sign * j * k * st) % X.FULL, 0, Fraction(1)) for j in range(n)] for k in range(n)]


def _dft(a, n=None, axis=-1, sign=-1, norm=None, inverse=False):
    a = asarr(a)
    raw = np.moveaxis(_convarr(a, "c")._raw(), axis, -1)
    if n is not None and n != raw.shape[-1]:
        n = _n_of(n)
        if n < raw.shape[-1]:
            raw = raw[..., :n]
        else:
            z = np.empty(raw.shape[:-1] + (n - raw.shape[-1],), dtype=object)
            z.fill(S.ZERO)
            raw = np.concatenate([raw, z], axis=-1)
    N = raw.shape[-1]
    if N < 1:
        raise ValueError("Invalid number of FFT data points (0) specified.")
    sc = Fraction(1)
    if norm == "ortho":
        raise DomainError("ortho fft")
    if (inverse and norm in (None, "backward")) or (not inverse and norm == "forward"):
        sc = Fraction(1, N)
    out = np.empty(raw.shape, dtype=object)
    for i in np.ndindex(*raw.shape[:-1]):
        out[i] = _dft1(raw[i].tolist(), sign, sc)
    return _keep(np.moveaxis(out, -1, axis), "c")


class FFTmod(types.ModuleType):
    pass


def _fft(a, n=None, axis=-1, norm=None, **k):
    return _dft(a, n, axis, -1, norm, False)


def _ifft(a, n=None, axis=-1, norm=None, **k):
    return _dft(a, n, axis, 1, norm, True)


def _fftshift(x, axes=None):
    x = asarr(x)
    return _keep(np.fft.fftshift(x._raw(), axes), x._k)


def _ifftshift(x, axes=None):
    x = asarr(x)
    return _keep(np.fft.ifftshift(x._raw(), axes), x._k)


def _fftfreq(n, d=1.0):
    n = _n_of(n)
    ks = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    return mkarr([Sym.lift(k) / (Sym.lift(n) * Sym.lift(d)) for k in ks], "f")


def _rfftfreq(n, d=1.0):
    return mkarr([Sym.lift(k) / (Sym.lift(n) * Sym.lift(d)) for k in range(n // 2 + 1)], "f")


def _rfft(a, n=None, axis=-1, norm=None):
    r = _fft(a, n, axis, norm)
    N = r.shape[axis]
    return _keep(np.moveaxis(np.moveaxis(r._raw(), axis, -1)[..., :N // 2 + 1], -1, axis), "c")


def _irfft(a, n=None, axis=-1, norm=None):
    a = asarr(a)
    raw = np.moveaxis(_convarr(a, "c")._raw(), axis, -1)
    m = raw.shape[-1]
    N = n if n is not None else 2 * (m - 1)
    full_ = np.empty(raw.shape[:-1] + (N,), dtype=object)
    for i in np.ndindex(*raw.shape[:-1]):
        row = raw[i].tolist()
        for j in range(N):
            full_[i + (j,)] = row[j] if j < m and j <= N // 2 else row[N - j].conjugate()
        full_[i + (0,)] = row[0].real
        if N % 2 == 0:
            full_[i + (N // 2,)] = row[N // 2].real
    r = _dft(_keep(full_, "c"), None, -1, 1, norm, True)
    return _keep(np.moveaxis(r.real._raw(), -1, axis), "f")


fftmod = types.ModuleType("numpy.fft")
fftmod.fft, fftmod.ifft = _fft, _ifft
fftmod.fftshift, fftmod.ifftshift, fftmod.fftfreq, fftmod.rfftfreq = _fftshift, _ifftshift, _fftfreq, _rfftfreq
fftmod.rfft, fftmod.irfft = _rfft, _irfft

# ------------------------------------------------------------------ linalg
linalg = types.ModuleType("numpy.linalg")
linalg.LinAlgError = np.linalg.LinAlgError


def _norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if ord in (None, 2, "fro") or (hasattr(ord, "e") and ord.is_const() and ord.e.const_value() == 2):
        z = (x * conj(x)).sum(axis=axis, keepdims=keepdims)
        if isinstance(z, SArr):
            return map1(lambda v: Sym(X.sqrt(v.e)), z, "f")
        z = Sym.lift(z)
        return S.ssqrt(z) if z.e.__class__ is not Expr or not z.e.is_real() else Sym(X.sqrt(z.e))
    if ord == np.inf or ord is INF_:
        return NP.absolute(x).max(axis=axis)
    if ord == 1:
        return NP.absolute(x).sum(axis=axis)
    raise DomainError("norm ord")


def _solve_sym(A, b):
    A, b = asarr(A), asarr(b)
    n = A.shape[0]
    B = b if b.ndim == 2 else b[:, None]
    M = [[Sym.lift(v) for v in A[i]] + [Sym.lift(v) for v in B[i]] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if not M[r][c].e.clear().is_zero()), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        pv = M[c][c]
        M[c] = [v / pv for v in M[c]]
        for r in range(n):
            if r != c and not M[r][c].e.is_zero():
                f = M[r][c]
                M[r] = [a - f * q for a, q in zip(M[r], M[c])]
    out = mkarr([r[n:] for r in M])
    return out if b.ndim == 2 else out[:, 0]


linalg.norm = _norm
linalg.solve = _solve_sym
linalg.inv = lambda A: _solve_sym(A, eye(asarr(A).shape[0]))


# ------------------------------------------------------------------ random
class _Rng:
    """random numbers are unknowns; the k-th draw after seed(s) is the same unknown every time"""
    def __init__(self, tag=None):
        self.tag = tag
        self.k = 0

    def _draw(self, kind, n):
        ctx = S.CTX
        out = []
        for _ in range(n):
            if self.tag is None:
                nm = "rnd!%d" % ctx.rnd_count
                ctx.rnd_count += 1
            else:
                nm = "rnd!s%s!%d" % (self.tag, self.k)
                self.k += 1
            out.append(ctx.real(nm, *((0, 1) if kind == "u" else (-3, 3))))
        return out

    def _mk(self, kind, size, f=lambda x: x):
        if size is None:
            return f(self._draw(kind, 1)[0])
        shp = _shape(size)
        n = int(np.prod(shp)) if shp else 1
        return mkarr([f(x) for x in self._draw(kind, n)], "f").reshape(shp)

    def uniform(self, low=0, high=1, size=None):
        lo, hi = asx(low), asx(high)
        return self._mk("u", size, lambda x: lo + (hi - lo) * x)

    def normal(self, loc=0, scale=1, size=None):
        return self._mk("n", size, lambda x: x * scale + loc)

    def rand(self, *d):
        return self._mk("u", d if d else None)

    def randn(self, *d):
        return self._mk("n", d if d else None)

    def random(self, size=None):
        return self._mk("u", size)

    random_sample = sample = ranf = random

    def standard_normal(self, size=None):
        return self._mk("n", size)

    def seed(self, s=None):
        self.tag = None if s is None else str(s)
        self.k = 0

    def get_state(self, *a, **k):
        return (self.tag, self.k)

    def set_state(self, st):
        self.tag, self.k = st

    def randint(self, *a, **k):
        raise DomainError("randint")
    permutation = shuffle = choice = randint


def new_random():
    m = types.ModuleType("numpy.random")
    g = _Rng()
    for n in dir(g):
        if not n.startswith("_"):
            setattr(m, n, getattr(g, n))
    m.RandomState = lambda seed=None: _Rng(None if seed is None else str(seed))
    m.default_rng = lambda seed=None: _Rng(None if seed is None else "g" + str(seed))
    return m


# ------------------------------------------------------------------ less common functions
@fn("copyto")
def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = FUN["where"](where, src, dst)


@fn("iscomplex")
def iscomplex(a):
    return NP.imag(a) != 0


@fn("isneginf")
def isneginf(a):
    return NP.isinf(a) & (asarr(a) < 0)


@fn("isposinf")
def isposinf(a):
    return NP.isinf(a) & (asarr(a) > 0)


@fn("trace")
def trace(a, offset=0, **k):
    return diag(a, offset).sum()


@fn("diagflat")
def diagflat(v, k=0):
    return diag(asarr(v).ravel(), k)


@fn("fill_diagonal")
def fill_diagonal(a, val, wrap=False):
    v = asarr(val)
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v if v.ndim == 0 else v[i % len(v)]


@fn("ix_")
def ix_(*a):
    return np.ix_(*[np.asarray([int(x) for x in asarr(v)]) if isinstance(v, SArr) else v for v in a])


@fn("isin", "in1d")
def isin(a, test, invert=False, **k):
    a, t = asarr(a), asarr(test).ravel()
    r = None
    for x in t:
        q = a == x
        r = q if r is None else r | q
    if r is None:
        r = zeros(a.shape, "b")
    return ~r if invert else r


@fn("piecewise")
def piecewise(x, condlist, funclist, *args, **kw):
    x = asarr(x)
    cs = [_convarr(asarr(c), "b") for c in (condlist if isinstance(condlist, (list, tuple)) else [condlist])]
    fs = list(funclist)
    if len(fs) == len(cs) + 1:
        rest = cs[0]
        for c in cs[1:]:
            rest = rest | c
        cs.append(~rest)
    y = zeros(x.shape, x._k)
    for c, f in zip(cs, fs):
        if callable(f):
            v = x[c]
            if v.size:
                y[c] = f(v, *args, **kw)
        else:
            y[c] = f
    return y


@fn("put")
def put(a, ind, v, mode="raise"):
    fl = asarr(v).ravel()
    for j, i in enumerate(np.atleast_1d(np.asarray(ind if not isinstance(ind, SArr) else [int(x) for x in ind]))):
        a[np.unravel_index(int(i) % a.size, a.shape)] = fl[j % len(fl)]


@fn("putmask", "place")
def putmask(a, mask, v):
    m = _mask(_convarr(asarr(mask), "b"))
    fl = asarr(v).ravel()
    for j, i in enumerate(zip(*np.nonzero(m))):
        a[i] = fl[j % len(fl)]


@fn("rollaxis")
def rollaxis(a, axis, start=0):
    a = asarr(a)
    return _keep(np.rollaxis(a._raw(), axis, start), a._k)


@fn("tensordot")
def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
    la = [i for i in range(a.ndim) if i not in [x % a.ndim for x in ax]]
    lb = [i for i in range(b.ndim) if i not in [x % b.ndim for x in bx]]
    A = a.transpose(la + [x % a.ndim for x in ax])
    B = b.transpose([x % b.ndim for x in bx] + lb)
    sa, sb = A.shape[:len(la)], B.shape[len(bx):]
    n = int(np.prod([a.shape[x] for x in ax])) if ax else 1
    return FUN["dot"](A.reshape(-1, n), B.reshape(n, -1)).reshape(sa + sb)


@fn("kron")
def kron(a, b):
    a, b = asarr(a), asarr(b)
    return mkarr([x * y for x in a.ravel() for y in b.ravel()]) if a.ndim == 1 and b.ndim == 1 else _unsup("kron")


def _unsup(n):
    raise DomainError("numpy function %s is not encoded for these arguments" % n)


@fn("cross")
def cross(a, b, **k):
    a, b = asarr(a), asarr(b)
    return mkarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]) if a.shape == b.shape == (3,) else _unsup("cross")


@fn("vander")
def vander(x, N=None, increasing=False):
    x = asarr(x)
    n = len(x) if N is None else N
    ps = range(n) if increasing else range(n - 1, -1, -1)
    return FUN["stack"]([x**p if p else x * 0 + 1 for p in ps], axis=1)


@fn("polyadd")
def polyadd(a, b):
    return (poly1d(a) + poly1d(b)).c


@fn("polysub")
def polysub(a, b):
    return (poly1d(a) - poly1d(b)).c


@fn("polymul")
def polymul(a, b):
    return (poly1d(a) * poly1d(b)).c


@fn("polyint")
def polyint(p, m=1, k=None):
    c = list(asarr(p.c if isinstance(p, poly1d) else p))
    ks = [S.ZERO] * m if k is None else [Sym.lift(x) for x in (list(asarr(k).ravel()) if isinstance(k, (list, tuple, np.ndarray)) else [k] * m)]
    for j in range(m):
        n = len(c)
        c = [Sym.lift(x) / (n - i) for i, x in enumerate(c)] + [ks[j]]
    r = mkarr(c)
    return poly1d(r) if isinstance(p, poly1d) else r


@fn("asfortranarray", "asarray_chkfinite")
def asfortranarray(a, dtype=None, **k):
    return FUN["asarray"](a, dtype) if dtype is not None else asarr(a)


@fn("array_equiv")
def array_equiv(a, b):
    try:
        return bool(NP.all(asarr(a) == asarr(b)))
    except ValueError:
        return False


@fn("copysign")
def copysign(a, b):
    return FUN["where"](asarr(b) < 0, -NP.abs(a), NP.abs(a)) + asx(0)


@fn("signbit")
def signbit(a):
    return asarr(a) < 0


@fn("geomspace")
def geomspace(a, b, num=50, endpoint=True, **k):
    a, b = Sym.lift(a), Sym.lift(b)
    n = num - 1 if endpoint else num
    return mkarr([a * (b / a) ** Sym.lift(Fraction(i, n)) if 0 < i < n else (a if i == 0 else b) for i in range(num)])


@fn("divmod")
def divmod_(a, b):
    return NP.floor_divide(a, b), NP.remainder(a, b)


@fn("nanargmax")
def nanargmax(a, **k):
    return asarr(a).argmax(**k)


@fn("nanargmin")
def nanargmin(a, **k):
    return asarr(a).argmin(**k)


@fn("take_along_axis")
def take_along_axis(a, ind, axis):
    a = asarr(a)
    i = np.array(np.vectorize(int, otypes=[int])(asarr(ind)._raw() if isinstance(ind, SArr) else ind))
    return _keep(np.take_along_axis(a._raw(), i, axis), a._k)


@fn("ndenumerate")
def ndenumerate(a):
    a = asarr(a)
    return iter([(i, a[i]) for i in np.ndindex(*a.shape)])


@fn("issubdtype")
def issubdtype(d, t):
    k = kindof(d)
    names = {float64: "f", complex128: "c", int64: "i", bool_: "b"}
    if t in names:
        return k == names[t]
    if t is Sym or t is object:
        return True
    return np.issubdtype({"f": np.float64, "c": np.complex128, "i": np.int64, "b": np.bool_}[k], t)


@fn("indices")
def indices(shape_, dtype=None, **k):
    return asarr(np.indices(shape_))


@fn("frompyfunc")
def frompyfunc(f, nin, nout, **k):
    return vectorize(f)


@fn("block")
def block(xs):
    if isinstance(xs, list) and xs and isinstance(xs[0], list):
        return FUN["vstack"]([FUN["hstack"](r) for r in xs])
    return FUN["hstack"](xs)


@fn("trim_zeros")
def trim_zeros(a, trim="fb"):
    a = asarr(a)
    i, j = 0, len(a)
    while "f" in trim and i < j and bool(a[i] == 0):
        i += 1
    while "b" in trim and j > i and bool(a[j - 1] == 0):
        j -= 1
    return a[i:j]


class _Grid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        one = not isinstance(key, tuple)
        ax = [arange(k.start or 0, k.stop, k.step if k.step is not None else 1) if not isinstance(k.step, complex) else
              FUN["linspace"](k.start or 0, k.stop, int(abs(k.step))) for k in ((key,) if one else key)]
        if one:
            return ax[0]
        n = len(ax)
        vs = [a.reshape(tuple(-1 if i == j else 1 for j in range(n))) for i, a in enumerate(ax)]
        if self.sparse:
            return vs
        shp = tuple(len(a) for a in ax)
        return FUN["stack"]([asarr(FUN["broadcast_to"](v, shp)) for v in vs])


# ------------------------------------------------------------------ the module
def _mathconst(f):
    return Sym.lift(f)


INF_ = S.INF


class NPModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if not hasattr(np, n):
            raise AttributeError("module 'numpy' has no attribute '%s'" % n)
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            u = UF(n)
            setattr(self, n, u)
            return u
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                raise DomainError("numpy function %s is not encoded" % n)
            return f
        return v


def make_np():
    m = NPModule("numpy")
    for k, v in FUN.items():
        setattr(m, k, v)
    for n in list(UN) + list(BIN):
        if hasattr(np, n):
            setattr(m, n, UF(n))
    m.abs = m.absolute
    m.mod = m.remainder
    m.pi = S.PI
    m.e = S.ONE.exp()
    m.inf = m.Inf = m.Infinity = m.infty = S.INF
    m.nan = m.NaN = m.NAN = S.NAN
    m.newaxis = None
    m.ndarray = SArr
    m.double = m.float64 = m.float_ = m.float32 = m.longdouble = float64
    m.complex128 = m.complex64 = m.complex_ = m.cdouble = complex128
    m.int64 = m.int32 = m.int_ = m.int8 = m.int16 = m.intp = m.uint8 = m.uint32 = m.uint64 = int64
    m.bool_ = m.bool8 = bool_
    m.integer, m.floating, m.complexfloating, m.number, m.generic = int64, float64, complex128, Sym, Sym
    m.fft = fftmod
    m.linalg = linalg
    m.random = new_random()
    m.conj = m.conjugate = conj
    m.round = round_
    m.testing = np.testing
    m.lib = np.lib
    m.__version__ = np.__version__
    m.AxisError = np.AxisError
    m.ComplexWarning = np.ComplexWarning
    m.VisibleDeprecationWarning = np.VisibleDeprecationWarning
    m.s_ = np.s_
    m.r_ = _R()
    m.c_ = _C()
    m.mgrid, m.ogrid = _Grid(False), _Grid(True)
    m.single, m.half, m.float16, m.longfloat, m.cfloat, m.csingle, m.singlecomplex = (float64,) * 4 + (complex128,) * 3
    m.uint, m.short, m.longlong, m.uint16, m.byte, m.uintp, m.intc = (int64,) * 7
    m.inexact, m.signedinteger, m.unsignedinteger, m.object_, m.str_ = Sym, int64, int64, object, str
    m.alltrue, m.sometrue = m.all, m.any
    m.True_, m.False_, m.PINF, m.NINF = True, False, S.INF, -S.INF
    m.ma = None
    return m


class _R:
    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        parts = []
        for i in idx:
            if isinstance(i, slice):
                parts.append(arange(i.start or 0, i.stop, i.step or 1))
            else:
                parts.append(asarr(i).reshape(-1) if not isinstance(i, np.ndarray) or i.ndim == 0 else asarr(i))
        return FUN["concatenate"](parts)


class _C:
    def __getitem__(self, idx):
        return FUN["column_stack"](list(idx))


NP = make_np()


def reset():
    """fresh random state for a new path"""
    NP.random = new_random()
    STUBFILES.clear()
