"""Environment of the code under test: scipy, pyfftw, matplotlib, tables, math."""
from fractions import Fraction
import types, math, functools, operator
import numpy as np
from . import expr as X
from . import sym as S
from . import npshim as N
from .npshim import NP, SArr, asarr, mkarr, asx, _keep, _dft, map1
from .expr import Expr, DomainError
from .sym import Sym, SymBool, to_bool


def M(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Anything:
    """accepts every call and attribute (plotting, logging)"""
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def __iter__(self):
        return iter((Anything(), Anything()))

    def __getitem__(self, i):
        return Anything()

    def __setitem__(self, i, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class AnyModule(types.ModuleType):
    calls = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()


# ---------------------------------------------------------------- scipy.constants
class ConstModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import scipy.constants as sc
        v = getattr(sc, n)
        if isinstance(v, float):
            s = cgen(n, v)
            setattr(self, n, s)
            return s
        if isinstance(v, int):
            return v
        return v


_canon = {}


NUMERIC = False       # physical constants as plain rational numbers (harness option numeric_constants)


def cgen(name, v):
    if NUMERIC:
        return Sym.lift(float(v))
    key = repr(float(v))
    if key not in _canon:
        _canon[key] = Sym(X.const_gen(name, float(v)))
    return _canon[key]


def make_constants():
    import scipy.constants as sc
    m = ConstModule("scipy.constants")
    c = cgen("c0", sc.c)
    m.c = m.speed_of_light = c
    h = cgen("hP", sc.h)
    m.h = m.Planck = h
    m.hbar = h / (S.PI * 2)
    m.epsilon_0 = cgen("eps0", sc.epsilon_0)
    m.mu_0 = 1 / (m.epsilon_0 * c * c)
    m.e = m.elementary_charge = cgen("qe", sc.e)
    m.k = m.Boltzmann = cgen("kB", sc.k)
    m.pi = S.PI
    for n in dir(sc):
        v = getattr(sc, n)
        if n in ("nano", "micro", "milli", "pico", "femto", "atto", "centi", "kilo", "mega", "giga", "tera", "peta", "zero_Celsius",
                 "angstrom", "micron", "inch", "mil"):
            setattr(m, n, Sym.lift(float(v)))
    named = {"speed of light in vacuum": c, "Planck constant": h, "vacuum electric permittivity": m.epsilon_0,
             "electric constant": m.epsilon_0, "elementary charge": m.e, "Boltzmann constant": m.k}

    def value(k):
        if k in named:
            return named[k]
        return cgen("const:" + k, sc.value(k))
    m.value = value
    m.physical_constants = _PC(value)
    m.nu2lambda = lambda nu: c / asx(nu)
    m.lambda2nu = lambda l: c / asx(l)
    return m


class _PC(dict):
    def __init__(self, value):
        self._v = value

    def __getitem__(self, k):
        import scipy.constants as sc
        return (self._v(k),) + sc.physical_constants[k][1:]


# ---------------------------------------------------------------- scipy.interpolate
class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=S.NAN, assume_sorted=False):
        x, y = asarr(x), asarr(y)
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim != 1:
            raise DomainError("interp1d of nd array")
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            ix = N.argsort(x)
            x, y = x[ix], y[ix]
        self.kind = kind
        self.x, self.y = x.copy(), y.copy()
        if y._k in "ib":
            self.y = y.astype("f")
        self.extrapolate = False
        self.be = bounds_error
        self.fv = (fill_value, fill_value)
        if isinstance(fill_value, str):
            if fill_value == "extrapolate":
                if bounds_error:
                    raise ValueError("Cannot extrapolate and raise at the same time.")
                self.extrapolate = True
                self.be = False
            else:
                raise ValueError(fill_value)
        else:
            if isinstance(fill_value, tuple) and len(fill_value) == 2:
                self.fv = fill_value
                if bounds_error is None:
                    self.be = False
            else:
                nan = Sym.lift(fill_value).isnan() if not isinstance(fill_value, np.ndarray) else False
                if bounds_error is None:
                    self.be = True if nan else False
        if kind not in ("linear", "cubic", "nearest", "slinear", "quadratic", "zero", "previous", "next"):
            raise NotImplementedError("%s is unsupported" % kind)
        if kind in ("cubic", "quadratic"):
            need = 4 if kind == "cubic" else 3
            if len(x) < need:
                raise ValueError("The number of derivatives at boundaries does not match: expected 2, got 0+0")
            # strictly increasing abscissae are required by the spline builder
            for a, b in zip(self.x[:-1], self.x[1:]):
                if not bool(Sym.lift(a) < b):
                    raise ValueError("Expect x to not have duplicates")

    def _one(self, v):
        x, y, n = self.x, self.y, len(self.x)
        below, above = bool(v < x[0]), False
        if not below:
            above = bool(v > x[n - 1])
        if below or above:
            if self.extrapolate:
                pass
            elif self.be:
                raise ValueError("A value in x_new is %s the interpolation range." % ("below" if below else "above"))
            else:
                return Sym.lift(self.fv[0] if below else self.fv[1])
        if self.kind in ("cubic", "quadratic"):
            return _knot(self, v, "cub")
        if self.kind == "nearest":
            for i in range(n - 1):
                if bool(v <= (Sym.lift(x[i]) + x[i + 1]) / 2):
                    return y[i]
            return y[n - 1]
        if self.kind == "previous" or self.kind == "zero":
            for i in range(n - 1, -1, -1):
                if bool(v >= x[i]):
                    return y[i]
        j = 1
        while j < n - 1 and not bool(v <= x[j]):
            j += 1
        t = (v - x[j - 1]) / (Sym.lift(x[j]) - x[j - 1])
        return Sym.lift(y[j - 1]) + (Sym.lift(y[j]) - y[j - 1]) * t

    def __call__(self, q):
        a = asarr(q)
        k = self.y._k if self.y._k == "c" else "f"
        if any(N.scalar_kind(f) == "c" for f in self.fv if not isinstance(f, np.ndarray)):
            k = "c"
        r = mkarr([self._one(Sym.lift(v)) for v in a.ravel()], k).reshape(a.shape)
        return r


def _knot(sp, v, tag):
    """smooth interpolation: exact at the knots, elsewhere an unknown function of data and abscissa
    that reproduces cubics"""
    x, y = sp.x, sp.y
    for i in range(len(x)):
        if (v - x[i]).e.is_zero() or (v - x[i]).e.clear().is_zero():
            return Sym.lift(y[i])
    for i in range(len(x)):
        if bool(v == x[i]):
            return Sym.lift(y[i])
    # piecewise cubic interpolants reproduce polynomials of degree <= 3
    c = _newton([Sym.lift(a) for a in x], [Sym.lift(a) for a in y], 3)
    if c is None:
        raise DomainError("spline between knots")
    r = S.ZERO
    for j in range(len(c) - 1, -1, -1):
        r = r * (v - x[j]) + c[j]
    return r


def _newton(xs, ys, deg):
    """Newton coefficients of the degree<=deg polynomial through the data, or None"""
    n = len(xs)
    co = list(ys)
    out = []
    cur = list(ys)
    for k in range(n):
        out.append(cur[0])
        cur = [(cur[i + 1] - cur[i]) / (xs[i + k + 1] - xs[i]) for i in range(len(cur) - 1)]
        if k >= deg:
            for z in cur:
                if not z.e.clear().is_zero():
                    return None
            break
    return out


class InterpolatedUnivariateSpline:
    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False):
        x, y = asarr(x), asarr(y)
        self.k = k
        if len(x) != len(y):
            raise ValueError("x and y should have a same length")
        for a, b in zip(x[:-1], x[1:]):
            if not bool(Sym.lift(a) < b):
                raise ValueError("x must be strictly increasing")
        if len(x) <= k:
            raise ValueError("x and y should have at least k+1 points")
        self.x, self.y, self.ext = x.copy(), y.copy(), ext

    def __call__(self, q, nu=0, ext=None):
        if nu:
            raise DomainError("spline derivative")
        a = asarr(q)
        return mkarr([_knot(self, Sym.lift(v), "spl") for v in a.ravel()], "f").reshape(a.shape)


UnivariateSpline = InterpolatedUnivariateSpline
CubicSpline = InterpolatedUnivariateSpline


# ---------------------------------------------------------------- scipy.special / misc / integrate / signal
def factorial(n, exact=False):
    if isinstance(n, np.ndarray):
        return map1(lambda v: Sym.lift(math.factorial(int(v.e.const_value()))), asarr(n), "f")
    n = Sym.lift(n)
    if not n.is_const() or n.e.const_value().denominator != 1:
        raise DomainError("factorial of a non-integer")
    v = int(n.e.const_value())
    r = math.factorial(v) if v >= 0 else 0
    return r if exact else Sym.lift(r)


@functools.lru_cache(None)
def _central(n, ndiv):
    """exact central difference weights (Np points, derivative ndiv)"""
    ho = n >> 1
    A = [[Fraction(k) ** j for k in range(-ho, ho + 1)] for j in range(n)]
    b = [[Fraction(math.factorial(ndiv) if j == ndiv else 0)] for j in range(n)]
    return [r[0] for r in N.solve_frac(A, b)]


def derivative(func, x0, dx=1.0, n=1, args=(), order=3):
    if order < n + 1:
        raise ValueError("'order' must be at least the derivative order 'n' + 1.")
    if order % 2 == 0:
        raise ValueError("'order' must be odd.")
    w = _central(order, n)
    ho = order >> 1
    val = S.ZERO
    dx = Sym.lift(dx)
    x0 = asx(x0)
    for k in range(order):
        if w[k]:
            val = val + Sym(Expr.const(w[k])) * func(x0 + (k - ho) * dx, *args)
        else:
            func(x0 + (k - ho) * dx, *args)
    return val / (dx ** n)


def quad(func, a, b, args=(), **k):
    """integral over u = a + (b - a) s: polynomials in s exactly, every other function of s as an unknown number of its own
    (the same function over the same range is the same number; sums and constant factors are taken apart)"""
    if not isinstance(args, tuple):
        args = (args,)
    a, b = Sym.lift(N._scalar(a)), Sym.lift(N._scalar(b))
    if (a - b).e.clear().is_zero():
        return (S.ZERO, S.ZERO)
    g = X.new_gen("quad!s", "r")
    g.lo, g.hi = Fraction(0), Fraction(1)
    g.pos = g.nz = False
    S.CTX.base.setdefault(g.gid, ("quad!s", "r", 0.0, 1.0))
    S.CTX.bound_vars.add(g.gid)
    f = func(a + (b - a) * Sym(Expr.gen(g)), *args)
    if isinstance(f, np.ndarray):
        f = f.item()
    out = X.ZERO
    one = X.Fraction(1)
    for (m, kk, e), c in Sym.lift(f).e.t.items():
        inner, rest = [], []
        p = 0
        for gg, x in m:
            if gg == g.gid:
                p = x
                inner.append((gg, x))
            elif g.gid in Expr({(((gg, 1),), 0, 0): one}).gens():
                inner.append((gg, x))
                p = None
            else:
                rest.append((gg, x))
        dep = bool(e) and g.gid in X.EXPS[e].gens()
        co = Expr({(tuple(rest), kk, 0 if dep else e): c})
        if not dep and p is not None and p.__class__ is int and p >= 0:
            v = Expr.const(Fraction(1, p + 1))
        else:
            F = Expr({(tuple(inner), 0, e if dep else 0): one})
            at = X._atom(("fn", "quad", F), "quad(%s)" % X._short(F, 30))
            at.defn = ("quad", F, g.gid)
            at.integer = False
            v = Expr.gen(at)
        out = out + co * v
    return (Sym((b - a).e * out), S.ZERO)


def savgol_coeffs(window_length, polyorder, deriv=0, delta=1.0, pos=None):
    half = window_length // 2
    if polyorder >= window_length:
        raise ValueError("polyorder must be less than window_length.")
    if pos is None:
        pos = half
    if deriv > polyorder:
        return [Fraction(0)] * window_length
    ks = [Fraction(i - pos) for i in range(window_length)]
    V = [[k ** j for j in range(polyorder + 1)] for k in ks]
    G = [[sum(V[i][p] * V[i][q] for i in range(window_length)) for q in range(polyorder + 1)] for p in range(polyorder + 1)]
    P = N.solve_frac(G, [[V[i][p] for i in range(window_length)] for p in range(polyorder + 1)])
    return [P[deriv][i] * math.factorial(deriv) for i in range(window_length)]


def savgol_filter(x, window_length, polyorder, deriv=0, delta=1.0, axis=-1, mode="interp", cval=0.0):
    xs = [Sym.lift(v) for v in asarr(x)]
    n = len(xs)
    w = window_length
    delta = Sym.lift(delta)
    if w > n and mode == "interp":
        raise ValueError("If mode is 'interp', window_length must be less than or equal to the size of x.")
    half = w // 2
    if mode != "interp":
        raise DomainError("savgol mode " + mode)
    out = []
    for i in range(n):
        st = min(max(i - half, 0), n - w)
        co = savgol_coeffs(w, polyorder, deriv, 1, pos=i - st)
        s = S.ZERO
        for j in range(w):
            if co[j]:
                s = s + Sym(Expr.const(co[j])) * xs[st + j]
        out.append(s / (delta ** deriv) if deriv else s)
    return mkarr(out, "f")


# ---------------------------------------------------------------- scipy.optimize
class OptimizeResult(dict):
    __getattr__ = dict.get
    __setattr__ = dict.__setitem__


OPT_LOG = []


def minimize(fun, x0, args=(), method=None, **k):
    """a minimiser returns some point; the objective is kept for the harness"""
    if not isinstance(args, tuple):
        args = (args,)
    i = len(OPT_LOG)
    lo, hi = S.CTX.opt_bounds(i)
    x = S.CTX.real("argmin!%d" % i, lo, hi)
    OPT_LOG.append((fun, x0, args, x))
    xa = mkarr([x], "f") if not isinstance(x0, np.ndarray) or asarr(x0).ndim <= 1 else x
    return OptimizeResult(x=xa, success=True, fun=None, message="", status=0, nfev=1)


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, **k):
    i = len(OPT_LOG)
    lo, hi = S.CTX.opt_bounds(i)
    x = S.CTX.real("argmin!%d" % i, lo, hi)
    if bounds is not None:
        S.CTX.assume((x >= bounds[0]) & (x <= bounds[1]))
    OPT_LOG.append((fun, bounds, args, x))
    return OptimizeResult(x=x, success=True, fun=None, message="", status=0, nfev=1)


# ---------------------------------------------------------------- pyfftw
def empty_aligned(shape, dtype="float64", order="C", n=None):
    if isinstance(dtype, (int,)):
        raise TypeError("dtype")
    return SArr(shape, dtype=dtype)


class FFTW:
    def __init__(self, input_array, output_array, axes=(-1,), direction="FFTW_FORWARD", flags=("FFTW_MEASURE",), threads=1,
                 planning_timelimit=None, normalise_idft=True, ortho=False):
        if direction not in ("FFTW_FORWARD", "FFTW_BACKWARD"):
            raise ValueError("Invalid direction: The direction is not valid.")
        self.i, self.o = input_array, output_array
        if input_array._k != "c" or output_array._k != "c":
            raise DomainError("real pyfftw transform")
        if input_array.shape != output_array.shape:
            raise ValueError("Invalid shapes")
        self.axes = axes
        self.back = direction == "FFTW_BACKWARD"
        self.norm = normalise_idft

    input_array = property(lambda s: s.i)
    output_array = property(lambda s: s.o)

    def get_input_array(self):
        return self.i

    def get_output_array(self):
        return self.o

    def execute(self):
        r = self.i
        for ax in self.axes:
            r = _dft(r, None, ax, 1 if self.back else -1, None, False)
        self.o[...] = r

    def __call__(self, input_array=None, output_array=None, normalise_idft=None, ortho=None):
        if input_array is not None:
            a = asarr(input_array)
            if a.shape != self.i.shape:
                raise ValueError("Invalid input shape: The new input array should be the same shape as the input array used to instantiate the object.")
            if isinstance(input_array, SArr) and input_array._k == "c":
                self.i = input_array       # pyfftw adopts a suitable new array
            else:
                self.i[...] = a
        if output_array is not None:
            self.o = output_array
        self.execute()
        nrm = self.norm if normalise_idft is None else normalise_idft
        if self.back and nrm:
            n = 1
            for ax in self.axes:
                n *= self.i.shape[ax]
            self.o[...] = self.o / Sym.lift(n)
        return self.o

    def update_arrays(self, a, b):
        self.i, self.o = a, b


# ---------------------------------------------------------------- tables (in-memory HDF5)
class NodeError(Exception):
    pass


class NoSuchNodeError(NodeError):
    pass


class _Atom:
    def __init__(self, k):
        self.k = k

    @staticmethod
    def from_dtype(dt, *a, **k):
        return _Atom(N.kindof(dt))

    @staticmethod
    def from_type(t, *a, **k):
        return _Atom(N.kindof(t))


class _Group:
    def __init__(self, name, path, title=""):
        self._v_name, self._v_pathname, self._v_title = name, path, title
        self.kids = {}

    def __getattr__(self, n):
        k = self.__dict__.get("kids", {})
        if n in k:
            return k[n]
        raise AttributeError(n)


class _CArray:
    def __init__(self, name, path, arr):
        self.name = self._v_name = name
        self._v_pathname = path
        self.a = arr

    shape = property(lambda s: s.a.shape)

    def __getitem__(self, i):
        r = self.a[i]
        return r.copy() if isinstance(r, SArr) else r

    def __setitem__(self, i, v):
        v = asarr(v)
        tgt = self.a[i]
        ts = tgt.shape if isinstance(tgt, SArr) else ()
        try:
            np.broadcast_to(v._raw(), ts)
        except ValueError:
            raise ValueError("shape mismatch %s vs %s" % (v.shape, ts))
        self.a[i] = v

    def read(self, *a):
        return self.a.copy()

    def __len__(self):
        return len(self.a)


FILES = {}


class _File:
    def __init__(self, root, mode):
        self.root, self.mode = root, mode
        self.isopen = 1

    def _find(self, p):
        if isinstance(p, (_Group, _CArray)):
            return p
        cur = self.root
        for part in str(p).split("/"):
            if part:
                if not isinstance(cur, _Group) or part not in cur.kids:
                    raise NoSuchNodeError("group ``%s`` does not have a child named ``%s``" % (cur._v_pathname, part))
                cur = cur.kids[part]
        return cur

    def get_node(self, where, name=None, classname=None):
        n = self._find(where)
        return n if name is None else self._find(n._v_pathname + "/" + name)

    def list_nodes(self, where, classname=None):
        return [v for k, v in sorted(self._find(where).kids.items())]

    iter_nodes = list_nodes

    def _w(self):
        if self.mode == "r":
            raise NodeError("file not writable")

    def create_group(self, where, name, title="", **k):
        self._w()
        p = self._find(where)
        if name in p.kids:
            raise NodeError("group ``%s`` already has a child node named ``%s``" % (p._v_pathname, name))
        g = _Group(name, p._v_pathname.rstrip("/") + "/" + name, title)
        p.kids[name] = g
        return g

    def remove_node(self, where, name=None, recursive=False):
        self._w()
        p = self._find(where)
        if name is None:
            raise DomainError("remove_node(path)")
        if name not in p.kids:
            raise NoSuchNodeError(name)
        n = p.kids[name]
        if isinstance(n, _Group) and n.kids and not recursive:
            raise NodeError("The group %s has children." % name)
        del p.kids[name]

    def create_carray(self, where, name, atom=None, shape=None, title="", obj=None, **k):
        self._w()
        p = self._find(where)
        if name in p.kids:
            raise NodeError("already has a child node named " + name)
        if obj is not None:
            arr = asarr(obj).copy()
        else:
            if any(isinstance(d, Sym) for d in shape):
                raise TypeError("shape must contain integers")
            arr = N.zeros(tuple(shape), atom.k)
        c = _CArray(name, p._v_pathname + "/" + name, arr)
        p.kids[name] = c
        return c

    def create_array(self, where, name, obj=None, title="", **k):
        return self.create_carray(where, name, obj=obj)

    def flush(self):
        pass

    def close(self):
        self.isopen = 0


def open_file(name, mode="r", **k):
    if mode in ("r", "r+") and name not in FILES:
        raise OSError("``%s`` does not exist" % name)
    if mode == "w" or name not in FILES:
        FILES[name] = _Group("/", "/")
    return _File(FILES[name], mode)


# ---------------------------------------------------------------- math
def make_math():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("_"):
            setattr(m, n, getattr(math, n))
    L = Sym.lift

    def one(f):
        return lambda x: f(L(N._scalar(x)))
    m.pi, m.e, m.inf, m.nan = S.PI, S.ONE.exp(), S.INF, S.NAN
    m.tau = S.PI * 2

    def msqrt(x):
        x = L(N._scalar(x))
        if bool(x < 0):
            raise ValueError("math domain error")
        return x.sqrt()
    m.sqrt = msqrt
    for n in ("exp", "cos", "sin", "tan", "cosh", "sinh", "tanh", "log"):
        setattr(m, n, one(lambda x, n=n: getattr(x, n)()))
    m.asin, m.acos, m.atan = one(lambda x: x.arcsin()), one(lambda x: x.arccos()), one(lambda x: x.arctan())
    m.atan2 = lambda y, x: L(y).arctan2(L(x))
    m.floor, m.ceil, m.trunc = one(S.floor_int), one(lambda x: -S.floor_int(-x)), one(S.trunc_int)
    m.fabs = one(lambda x: x.absolute())
    m.pow = lambda a, b: S.spow(L(a), L(b))
    m.isnan = one(lambda x: x.isnan())
    m.isfinite = one(lambda x: x.e.__class__ is Expr)
    m.isinf = one(lambda x: x.e in ("inf", "-inf"))
    m.log10 = one(N._log10)
    m.log2 = one(N._log2)
    m.hypot = lambda a, b: N._hypot(L(a), L(b))
    m.radians = one(lambda x: x * S.PI / 180)
    m.degrees = one(lambda x: x * 180 / S.PI)
    m.copysign = lambda a, b: L(a).absolute() if bool(L(b) >= 0) else -L(a).absolute()
    m.fmod = lambda a, b: L(a) % L(b)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool((L(a) - L(b)).absolute() <= N._max2(L(rel_tol) * N._max2(L(a).absolute(), L(b).absolute()), L(abs_tol)))
    return m


# ---------------------------------------------------------------- build everything
class Missing:
    pass


def build(config):
    """fresh environment modules for one path"""
    N.reset()
    OPT_LOG.clear()
    FILES.clear()
    out = {}
    out["numpy"] = NP
    out["numpy.fft"] = N.fftmod
    out["numpy.linalg"] = N.linalg
    out["numpy.random"] = NP.random
    out["math"] = make_math()
    sc = M("scipy")
    sc.__version__ = "1.11.4"
    cst = make_constants()
    itp = M("scipy.interpolate", interp1d=interp1d, InterpolatedUnivariateSpline=InterpolatedUnivariateSpline,
            UnivariateSpline=UnivariateSpline, CubicSpline=CubicSpline)
    sp = M("scipy.special", factorial=factorial)
    misc = M("scipy.misc", derivative=derivative, central_diff_weights=lambda n, ndiv=1: mkarr([Sym(Expr.const(v)) for v in _central(n, ndiv)], "f"))
    integ = M("scipy.integrate", quad=quad, trapz=N.trapz, trapezoid=N.trapz)
    sig = M("scipy.signal", savgol_filter=savgol_filter, correlate=N.FUN["correlate"], convolve=N.convolve)
    opt = M("scipy.optimize", minimize=minimize, minimize_scalar=minimize_scalar, OptimizeResult=OptimizeResult)
    fp = M("scipy.fftpack", fft=lambda x, n=None, axis=-1, overwrite_x=False: _dft(x, n, axis, -1, None, False),
           ifft=lambda x, n=None, axis=-1, overwrite_x=False: _dft(x, n, axis, 1, None, True),
           fftshift=N._fftshift, ifftshift=N._ifftshift, fftfreq=N._fftfreq)
    sfft = M("scipy.fft", fft=N._fft, ifft=N._ifft, fftshift=N._fftshift, ifftshift=N._ifftshift, fftfreq=N._fftfreq)

    def map_coordinates(*a, **k):
        raise DomainError("ndimage.map_coordinates")
    ndi = M("scipy.ndimage.interpolation", map_coordinates=map_coordinates)
    nd = M("scipy.ndimage", interpolation=ndi, map_coordinates=map_coordinates)
    for nm, mod in (("constants", cst), ("interpolate", itp), ("special", sp), ("misc", misc), ("integrate", integ), ("signal", sig),
                    ("optimize", opt), ("fftpack", fp), ("fft", sfft), ("ndimage", nd)):
        setattr(sc, nm, mod)
        out["scipy." + nm] = mod
    out["scipy"] = sc
    out["scipy.ndimage.interpolation"] = ndi
    out["matplotlib"] = AnyModule("matplotlib")
    out["matplotlib.pyplot"] = AnyModule("matplotlib.pyplot")
    out["matplotlib"].pyplot = out["matplotlib.pyplot"]
    out["mpl_toolkits"] = AnyModule("mpl_toolkits")
    out["mpl_toolkits.mplot3d"] = AnyModule("mpl_toolkits.mplot3d")
    out["logging"] = AnyModule("logging")
    if config.get("pyfftw", True):
        out["pyfftw"] = M("pyfftw", FFTW=FFTW, empty_aligned=empty_aligned, n_byte_align_empty=empty_aligned,
                          zeros_aligned=lambda shape, dtype="float64", **k: N.zeros(shape, dtype),
                          byte_align=lambda a, *x, **k: a, n_byte_align=lambda a, *x, **k: a,
                          simd_alignment=16, interfaces=AnyModule("pyfftw.interfaces"))
    else:
        out["pyfftw"] = None
    tb = M("tables", open_file=open_file, Atom=_Atom, NodeError=NodeError, NoSuchNodeError=NoSuchNodeError,
           Float64Atom=lambda *a, **k: _Atom("f"), ComplexAtom=lambda *a, **k: _Atom("c"))
    tb.exceptions = M("tables.exceptions", NodeError=NodeError, NoSuchNodeError=NoSuchNodeError)
    out["tables"] = tb
    out["tables.exceptions"] = tb.exceptions
    return out
