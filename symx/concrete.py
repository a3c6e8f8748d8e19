"""The same harness on the unmodified code with ordinary floats (replay and encoder validation)."""
import math, random, sys, types
import numpy as np


class Skip(Exception):
    """the given values do not satisfy the harness's assumptions"""


class ConcreteCtx:
    symbolic = False

    def __init__(self, loader, env, choices, tier="quick", seed=1, full_choices=None):
        self.loader, self.env, self.choices = loader, env, dict(choices)
        self.tier, self.seed = tier, seed
        self.fails = []
        self.obs = []
        self.np = np
        self.pi = math.pi
        self.cleanup = []
        self.notes = {}
        self.rnd_count = 0
        self.used = {}
        self.taken = {}
        self._optlog = []
        self.optb = {}
        self.quiet = False
        self._files = {}
        self._tmp = None
        self._patch_random()
        self._patch_opt()

    # ---- inputs
    @property
    def c(self):
        import scipy.constants as sc
        return sc.c

    def const(self, n):
        import scipy.constants as sc
        return getattr(sc, n)

    def mod(self, name):
        return self.loader.get(name)

    def num(self, s):
        from fractions import Fraction
        return float(Fraction(str(s)))

    def _draw(self, name, kind, lo, hi):
        if name in self.env:
            v = self.env[name]
            v = complex(*v) if isinstance(v, (list, tuple)) else v
        else:
            r = random.Random("%s:%s:%s" % (self.seed, "x", name))
            if kind == "c":
                v = complex(r.uniform(-hi, hi), r.uniform(-hi, hi))
            elif lo > 0 and hi / lo > 50:
                v = math.exp(r.uniform(math.log(lo), math.log(hi)))
            else:
                v = r.uniform(lo, hi)
        if kind == "r" and not (lo - 1e-9 * abs(lo) <= v <= hi + 1e-9 * abs(hi)):
            raise Skip("%s=%r outside [%r, %r]" % (name, v, lo, hi))
        self.used[name] = v
        return v

    def real(self, name, lo, hi):
        return float(self._draw(name, "r", float(lo), float(hi)))

    def cplx(self, name, rad=2.0):
        return complex(self._draw(name, "c", -float(rad), float(rad)))

    def reals(self, name, n, lo, hi):
        return np.array([self.real("%s[%d]" % (name, i), lo, hi) for i in range(n)], dtype=float)

    def cplxs(self, name, n, rad=2.0):
        return np.array([self.cplx("%s[%d]" % (name, i), rad) for i in range(n)], dtype=complex)

    def array(self, xs, kind=None):
        return np.array(xs, dtype={"f": float, "c": complex, "i": int, "b": bool, None: None}[kind])

    def choice(self, name, options):
        options = list(options)
        i = self.choices.get(name, 0)
        self.taken[name] = (i, len(options))
        return options[i]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Skip("assumption")

    def integral(self, f, a, b):
        from scipy import integrate
        return integrate.quad(lambda x: float(np.real(f(x))), a, b, epsabs=1e-12, epsrel=1e-10)[0]

    def series(self, name, order, lo=0.01, hi=0.02):
        return self.real(name, lo, hi)

    def reconfigure(self, **cfg):
        self.loader.reconfigure(**cfg)

    def set_opt_bounds(self, i, lo, hi):
        self.optb[i] = (lo, hi)

    def opt_log(self):
        return list(self._optlog)

    def file(self, name, rows, sep=None):
        import tempfile, os
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="pynlo_verif_")
        p = os.path.join(self._tmp, name)
        with open(p, "w") as f:
            for r in rows:
                f.write((sep or " ").join(v if isinstance(v, str) else repr(float(v)) for v in r) + "\n")
        return p

    def outfile(self, name):
        import tempfile, os
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="pynlo_verif_")
        return os.path.join(self._tmp, name)

    def textfile(self, name, text):
        import tempfile, os
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="pynlo_verif_")
        p = os.path.join(self._tmp, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    # ---- environment stand-ins
    def _patch_random(self):
        ctx = self

        class Rng:
            def __init__(self, tag=None):
                self.tag, self.k = tag, 0

            def one(self, kind):
                if self.tag is None:
                    nm = "rnd!%d" % ctx.rnd_count
                    ctx.rnd_count += 1
                else:
                    nm = "rnd!s%s!%d" % (self.tag, self.k)
                    self.k += 1
                return ctx.real(nm, *((0, 1) if kind == "u" else (-3, 3)))

            def mk(self, kind, size):
                if size is None:
                    return self.one(kind)
                shp = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
                n = int(np.prod(shp))
                return np.array([self.one(kind) for _ in range(n)]).reshape(shp)

            def uniform(self, low=0, high=1, size=None):
                return low + (high - low) * self.mk("u", size)

            def normal(self, loc=0, scale=1, size=None):
                return loc + scale * self.mk("n", size)

            def rand(self, *d):
                return self.mk("u", d if d else None)

            def randn(self, *d):
                return self.mk("n", d if d else None)

            def random(self, size=None):
                return self.mk("u", size)
            random_sample = sample = ranf = random

            def standard_normal(self, size=None):
                return self.mk("n", size)

            def seed(self, s=None):
                self.tag, self.k = (None if s is None else str(s)), 0

            def get_state(self, *a, **k):
                return (self.tag, self.k)

            def set_state(self, st):
                self.tag, self.k = st
        g = Rng()
        for n in ("uniform", "normal", "rand", "randn", "random", "random_sample", "sample", "ranf", "standard_normal", "seed", "get_state",
                  "set_state"):
            self.patch(np.random, n, getattr(g, n))
        self.patch(np.random, "RandomState", lambda seed=None: Rng(None if seed is None else str(seed)))
        self.patch(np.random, "default_rng", lambda seed=None: Rng(None if seed is None else "g" + str(seed)))

    def _patch_opt(self):
        import scipy.optimize as so
        ctx = self

        def nxt(bounds=None):
            i = len(ctx._optlog)
            lo, hi = ctx.optb.get(i, (1e-6, 10.0))
            return i, ctx.real("argmin!%d" % i, lo, hi)

        def minimize(fun, x0, args=(), method=None, **k):
            if not isinstance(args, tuple):
                args = (args,)
            i, x = nxt()
            ctx._optlog.append((fun, x0, args, x))
            return so.OptimizeResult(x=np.array([x]), success=True, fun=None, message="", status=0, nfev=1)

        def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, **k):
            i, x = nxt()
            if bounds is not None and not (bounds[0] <= x <= bounds[1]):
                raise Skip("minimiser bounds")
            ctx._optlog.append((fun, bounds, args, x))
            return so.OptimizeResult(x=x, success=True, fun=None, message="", status=0, nfev=1)
        self.patch(so, "minimize", minimize)
        self.patch(so, "minimize_scalar", minimize_scalar)

    def patch(self, obj, name, val):
        had = name in vars(obj)
        old = vars(obj).get(name)
        setattr(obj, name, val)
        self.cleanup.append((obj, name, had, old))

    def close(self):
        for obj, nm, had, old in reversed(self.cleanup):
            if had:
                setattr(obj, nm, old)
            else:
                try:
                    delattr(obj, nm)
                except AttributeError:
                    pass
        if self._tmp:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)

    # ---- obligations
    def _flat(self, a):
        return np.asarray(a).astype(complex).ravel()

    def eq(self, label, a, b, rtol=1e-6, atol=0.0, scale=None, tol=None):
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape and A.shape != () and B.shape != ():
            self.fails.append((label, "shape %s vs %s" % (A.shape, B.shape)))
            return False
        fa, fb = self._flat(a), self._flat(b)
        self.obs.append((label, fa, atol + (rtol * abs(scale) if scale is not None else 0.0)))
        if len(fb) == 1:
            fb = np.repeat(fb, len(fa))
        if len(fa) == 0:
            return True
        if not (np.all(np.isfinite(fa)) and np.all(np.isfinite(fb))):
            same = np.all((fa == fb) & ~np.isnan(fa) | (np.isfinite(fa) & np.isfinite(fb)))
            if not same:
                self.fails.append((label, "non-finite: %s vs %s" % (fa[:6], fb[:6])))
                return False
            m = np.isfinite(fa)
            fa, fb = fa[m], fb[m]
            if len(fa) == 0:
                return True
        sc = max(np.max(np.abs(fa)), np.max(np.abs(fb)), abs(scale) if scale is not None else 0.0)
        d = np.max(np.abs(fa - fb))
        lim = rtol * sc + atol + (float(tol) if tol is not None else 0.0)
        if d > lim:
            i = int(np.argmax(np.abs(fa - fb)))
            self.fails.append((label, "index %d: got %s, expected %s (difference %.3g, allowed %.3g)" % (i, fa[i], fb[i], d, lim)))
            return False
        return True

    def record(self, label, a, atol=0.0):
        self.obs.append((label, self._flat(a), atol))

    def true(self, label, cond):
        c = np.asarray(cond, dtype=bool)
        if not c.all():
            self.fails.append((label, "condition is false"))
            return False
        return True

    def _cmp(self, label, a, b, rtol, atol, strict):
        fa, fb = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
        sc = max(np.max(np.abs(fa)), np.max(np.abs(fb)))
        if not np.all(fa <= fb + rtol * sc + atol):
            self.fails.append((label, "%s <= %s is false" % (fa[:4], fb[:4])))
            return False
        return True

    def le(self, label, a, b, rtol=1e-6, atol=0.0):
        return self._cmp(label, a, b, rtol, atol, False)

    def lt(self, label, a, b, rtol=1e-6, atol=0.0):
        return self._cmp(label, a, b, rtol, atol, True)

    def same(self, label, a, b):
        if not (a == b):
            self.fails.append((label, "%r instead of %r" % (a, b)))
            return False
        return True

    def raises(self, label, exc, fn):
        names = exc if isinstance(exc, tuple) else (exc,)
        try:
            fn()
        except Skip:
            raise
        except names:
            return True
        except Exception as e:
            self.fails.append((label, "raised %s: %s" % (type(e).__name__, e)))
            return False
        self.fails.append((label, "did not raise"))
        return False


def run_concrete(loader, hpath, hname, env, choices, tier="quick", seed=1):
    """-> dict(fails, obs, skipped)"""
    import importlib.util, warnings, io, contextlib, traceback
    loader.fresh()
    ctx = ConcreteCtx(loader, env, choices, tier, seed)
    skipped = None
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                spec = importlib.util.spec_from_file_location("h_" + hname, hpath)
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                getattr(m, hname)(ctx)
            except Skip as e:
                skipped = str(e)
            except Exception as e:
                ctx.fails.append(("no exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))))
    finally:
        ctx.close()
        try:
            from matplotlib import pyplot
            pyplot.close("all")
        except Exception:
            pass
    return {"fails": ctx.fails, "obs": ctx.obs, "skipped": skipped, "used": ctx.used, "taken": ctx.taken}
