"""C20 linear propagation is exact"""
from props.common import *


def ssfm(c, **k):
    return c.mod("pynlo.interactions.FourWaveMixing.SSFM").SSFM(**k)


def settings(c, fft=None, shift=None):
    """FFT backend and shift convention"""
    c.reconfigure(pyfftw=c.choice("fft", [True, False]) if fft is None else fft)
    c.mod("pynlo.interactions.FourWaveMixing.global_variables").PRE_FFTSHIFT = c.choice("shift", [True, False]) if shift is None else shift


def fiber(c, N, L, betas, gain=None, gamma=0.0):
    """a fiber with arbitrary propagation constants (at z), gain and gamma"""
    F = c.mod("pynlo.media.fibers.fiber").FiberInstance
    np = c.np

    class Fiber(F):
        def get_betas(self, pulse, z=0):
            return (betas(z) if callable(betas) else betas) * 1.0

        def get_gain(self, pulse, output_power=1):
            return gain * 1.0 if gain is not None else np.zeros(N)
    f = Fiber()
    if callable(gamma):
        f.generate_fiber(L, 1550.0, [0.0], 0.0625)
        f.set_gamma_function(gamma)
    else:
        f.generate_fiber(L, 1550.0, [0.0], gamma)
    return f


def errors(c, script, step=0.001, thr=1e-9):
    """the code's error estimate |Af - Ac|/|Af|: script says what it finds (in units of the local error), step by step,
    afterwards: nothing to complain about.  (In linear propagation the estimate is rounding noise.)"""
    it = list(script)

    def norm(a, *b, **k):
        if not c.symbolic:
            small = float(abs(c.np.asarray(a)).max()) < thr
        else:
            small = all(c.vanishes(v) for v in c._flat(a))
        if not small:
            return c.np.float64(1.0)
        return it.pop(0) * step if it else c.np.float64(0.0)
    c.patch(c.np.linalg, "norm", norm)
    # an estimator that computes its norms another way: replaced as a whole
    S = c.mod("pynlo.interactions.FourWaveMixing.SSFM").SSFM
    seen = []

    class Probe(S):
        def __init__(self):
            self.Af, self.Ac = c.np.ones(2), c.np.zeros(2)
    old, c.np.linalg.norm = c.np.linalg.norm, lambda a, *b, **k: (seen.append(1), c.np.float64(1.0))[1]
    try:
        Probe().CalculateLocalError()
    except Exception:
        seen.append(0)
    finally:
        c.np.linalg.norm = old
    if not seen:
        c.patch(S, "CalculateLocalError", lambda self: norm(self.Af - self.Ac))


def _prop(x, c, B, g, z):
    return x * cis(c, B * z) * c.np.exp(g * z / 2)


def h_linear(c):
    """every frequency gets exp((i beta + g/2) z), at every recorded position"""
    np = c.np
    N = c.choice("N", [2, 4] if c.tier == "quick" else [2, 4, 6, 8])
    settings(c)
    errors(c, [])
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    L = c.real("L", 0.1, 3)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    f = fiber(c, N, L, B, g)
    s = ssfm(c, dz=5.0, disable_Raman=c.choice("raman", [True, False]), disable_self_steepening=True)
    n = c.choice("steps", [1, 2, 3])
    z, AW, AT, q = s.propagate(p, f, n)
    c.eq("z", z, np.arange(n + 1) * L / n)
    c.same("one column per step", (AW.shape, AT.shape), ((N, n), (N, n)))
    for k in range(n):
        want = _prop(x, c, B, g, L * (k + 1) / n)
        c.eq("AW", AW[:, k], want, rtol=1e-5)
        c.eq("AT", AT[:, k], ifourier(c, want), rtol=1e-5)
    c.eq("pulse out", q.AW, want)
    grids_ok(c, q, N, W, lam, "out ")
    c.eq("out repetition rate", q.frep_mks, p.frep_mks)
    c.eq("pulse in untouched", p.AW, x)
    grids_ok(c, p, N, W, lam, "in ")
    q.set_AW(2 * x)
    c.eq("pulses are independent", p.AW, x)


def h_last(c):
    """steps of nearly, but not exactly, the same length: the last step is a little longer or shorter than the others"""
    np = c.np
    N = 2
    v = c.choice("verdict", [1.5, 0.75, 0.1])  # whatever the difference
    settings(c, True, True)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    L = c.real("L", 1, 3)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    k, eps = c.choice("steps", [1, 2, 3]), c.real("eps", -0.02, 0.02)
    s = ssfm(c, dz=L * (1 + eps) / (2 * k) if c.choice("dz", ["half a step", "a step"]) == "half a step" else L * (1 + eps) / k,
             disable_Raman=True, disable_self_steepening=True)
    c.patch(s, "CalculateLocalError", lambda: v * s.local_error)
    z, AW, AT, q = s.propagate(p, fiber(c, N, L, B, g), 1)
    c.eq("pulse out", q.AW, _prop(x, c, B, g, L))


def h_line(c):
    """... also with Raman response and self-steepening compiled in, as long as gamma is zero (one line)"""
    np = c.np
    N = 4
    errors(c, [])
    settings(c, None, True)
    k = c.choice("line", list(range(N)))
    p, W, lam = mk(c, N, Wlo=1, Whi=10, llo=800, lhi=1600)
    a, ph = c.real("a", 0.5, 2), c.real("ph", -3, 3)
    x = np.zeros(N, dtype=complex)
    x[k] = a * cis(c, ph)
    p.set_AW(x)
    L = c.real("L", 0.1, 3)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    s = ssfm(c, dz=5.0, USE_SIMPLE_RAMAN=c.choice("simple", [True, False]))
    z, AW, AT, q = s.propagate(p, fiber(c, N, L, B, g), 1)
    c.eq("pulse out", q.AW, _prop(x, c, B, g, L))


def h_sections(c):
    """dispersion and gamma that depend on z: reloaded at the start of each section if asked for, else taken at z = 0"""
    np = c.np
    N = 4
    errors(c, [])
    settings(c, True, None)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    L = c.real("L", 0.1, 3)
    B, D, g = c.reals("B", N, -1, 1), c.reals("D", N, -1, 1), c.reals("g", N, -1, 1)
    f = fiber(c, N, L, lambda z: B + D * z, g)
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True)
    n = c.choice("steps", [1, 2, 3])
    flag = c.choice("reload", [True, False])
    z, AW, AT, q = s.propagate(p, f, n, reload_fiber_each_step=flag)
    ph = np.zeros(N)
    for k in range(n):
        ph = ph + (B + D * (L * k / n) if flag else B) * (L / n)
        want = x * cis(c, ph) * np.exp(g * (k + 1) * L / n / 2)
        c.eq("AW", AW[:, k], want, rtol=1e-5)
    c.eq("pulse out", q.AW, want)


def h_again(c):
    """an SSFM object that has been used before gives the same result as a new one"""
    np = c.np
    errors(c, [])
    settings(c, None, True)
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True)
    M, N = c.choice("points", [(2, 2), (2, 4), (4, 2)])
    q, _, _, _ = mkf(c, M, "q", dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    Lq = c.real("Lq", 1, 1.5)
    s.propagate(q, fiber(c, M, Lq, c.reals("Bq", M, -1, 1), c.reals("gq", M, -1, 1)), 1)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    L = Lq if c.choice("length", ["same", "other"]) == "same" else c.real("L", 1, 2)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    f = fiber(c, N, L, B, g)
    n = c.choice("steps", [1, 2])
    z, AW, AT, r = s.propagate(p, f, n)
    want = _prop(x, c, B, g, L)
    c.eq("pulse out", r.AW, want)
    z, AW2, AT2, r2 = s.propagate(q, f, 1) if M == N else s.propagate(p, f, 1)
    c.eq("first result unchanged", r.AW, want)
    c.eq("first record unchanged", AW[:, n - 1], want, rtol=1e-5)


def h_chain(c):
    """the output of one fiber is the input of the next"""
    errors(c, [])
    settings(c, None, True)
    N = 2
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    L, K = c.real("L", 1, 2), c.real("K", 1, 2)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    D, h = c.reals("D", N, -1, 1), c.reals("h", N, -1, 1)
    _, _, _, r = s.propagate(p, fiber(c, N, L, B, g), 1)
    _, _, _, r = s.propagate(r, fiber(c, N, K, D, h), 1)
    c.eq("through both", r.AW, _prop(_prop(x, c, B, g, L), c, D, h, K))


def h_back(c):
    """integrating backwards undoes integrating forwards; both methods"""
    np = c.np
    N = 4
    errors(c, [])
    settings(c, True, None)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    L = c.real("L", 0.1, 3)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    f = fiber(c, N, L, B, g)
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True)
    s.method = c.choice("method", [s.METHOD_RK4IP, s.METHOD_SSFM])
    _, _, _, q = s.propagate(p, f, 1)
    c.eq("forwards", q.AW, _prop(x, c, B, g, L))
    s.setup_fftw(p, f, None)
    s.load_fiber_parameters(p, f, None)
    A = s.A * 1.0
    s.integrate_over_dz(L)
    c.eq("something happened", s.conditional_ifftshift(s.A * 1.0), ifourier(c, _prop(x, c, B, g, L)))
    s.integrate_over_dz(L, -1)
    c.eq("undone", s.A, A)


def h_long(c):
    """more points (two lines at a time)"""
    np = c.np
    N = 32 if c.tier == "quick" else 64
    errors(c, [])
    settings(c)
    p, W, lam = mk(c, N, Wlo=1, Whi=10, llo=800, lhi=1600)
    i, j = c.choice("lines", [(0, N // 2), (N // 2 - 1, N - 1)])
    x = np.zeros(N, dtype=complex)
    x[i], x[j] = c.cplx("a", 2.0), c.cplx("b", 2.0)
    if not c.symbolic:
        c.assume(float(abs(x).max()) > 1e-3)
    p.set_AW(x)
    L = c.real("L", 0.1, 3)
    B, g = np.zeros(N), np.zeros(N)
    for m in (i, j):
        B[m], g[m] = c.real("B%d" % m, -1, 1), c.real("g%d" % m, -1, 1)
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True)
    z, AW, AT, q = s.propagate(p, fiber(c, N, L, B, g), 2)
    c.eq("half way", AW[:, 0], _prop(x, c, B, g, L / 2), rtol=1e-5)
    c.eq("pulse out", q.AW, _prop(x, c, B, g, L))
