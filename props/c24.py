"""C24 the delayed Raman response"""
from props.common import *
from props.c20 import ssfm, settings, fiber, errors
from props.c22 import conv

OPTS = {"*": {"val_rtol": 1e-2}}


def lines(c, N, k=0):
    """fixed fields without symmetries"""
    F = {2: [[c.num("0.75") + 1j * c.num("0.5"), 1j - c.num("0.25")]],
         4: [[c.num("0.75") + 1j * c.num("0.5"), 1j - c.num("0.25"), c.num("1.0") + 0j, c.num("-0.5") + 1j]],
         8: [[c.num(a) + 1j * c.num(b) for a, b in (("0.25", "0.5"), ("1", "0"), ("0.5", "-0.75"), ("-1.25", "0.25"), ("0.5", "0.125"), ("0.25", "0.25"), ("1", "-1"), ("0.75", "0.5"))]]}
    return c.array(F[N][k], "c")


def response(c, T, kind, t1, t2):
    """the response function of Agrawal (simple) or Lin & Agrawal 2006, causal and of unit area (trapezoidal rule)"""
    np = c.np
    out = []
    for t in T:
        if kind == "simple":
            h = np.exp(-t / t2) * np.sin(t / t1) * (t1**2 + t2**2) / (t1 * t2**2)
        else:
            tb, fa, fb, fc = (c.num(v) for v in ("0.096", "0.75", "0.21", "0.04"))
            h = (fa + fc) * t1 / (t1**2 + t2**2) * np.exp(-t / t2) * np.sin(t / t1) + fb * (2 * tb - t) / tb**2 * np.exp(-t / tb)
        out.append(h)
    N = len(T)
    out = [0 * out[0]] * (N // 2) + out[N // 2:]
    area = (sum(out) - out[0] / 2 - out[-1] / 2) * (T[1] - T[0])
    return [h / area for h in out]


def delayed(c, T, h, y):
    """sum_j h(T_j) y(t - T_j) dT on the periodic grid"""
    N = len(T)
    dT = T[1] - T[0]
    return c.array([dT * sum(h[j] * y[(i - (j - N // 2)) % N] for j in range(N // 2, N)) for i in range(N)], "c")


def expected(c, a0, gamma, L, Ry, w0=None, W=None):
    """a0 + L i gamma (1 + (i/w0) d/dt) (A (R * |A|^2))"""
    np = c.np
    nl = 1j * gamma * a0 * Ry
    if w0 is not None:
        N = len(a0)
        V = 2 * c.pi * (np.arange(N) - N // 2) / W
        D = lambda y: ifourier(c, -1j * V * fourier(c, y))
        nl = nl - gamma / w0 * (a0 * D(Ry) + D(a0) * Ry)
    return a0 + L * nl


def start(c, N, freq=False, W=None, lam=None, a0=None):
    settings(c)
    errors(c, [], thr=0.5)
    G = c.mod("pynlo.interactions.FourWaveMixing.global_variables")
    G.USE_FREQUENCY_DOMAIN_RAMAN = freq
    p, W_, lam_ = mk(c, N, Wlo=0.1, Whi=0.5, llo=800, lhi=1600)
    if W is not None:
        p.set_time_window_ps(W)
    if lam is not None:
        p.set_center_wavelength_nm(lam)
    a0 = lines(c, N) if a0 is None else a0
    p.set_AT(a0)
    return p, W_ if W is None else W, a0, c.series("h", 1, 1e-7, 2e-7), c.real("gamma", 0.2, 1)


def go(c, p, N, L, gamma, s):
    return s.propagate(p, fiber(c, N, L, c.np.zeros(N), None, gamma), 1)[3]


def cmp_(c, q, a0, gamma, L, Ry, tol=0.0, **k):
    """first order in the length"""
    np = c.np
    if c.symbolic:
        c.eq("field", q.AT, expected(c, a0, gamma, L, Ry, **k), tol=tol)
    else:
        c.eq("field", q.AT, expected(c, a0, gamma, L, Ry, **k), rtol=0, atol=1e-4 * float(L) * float(abs(a0).max())**3)


def h_simple(c):
    """damped oscillation exp(-t/tau2) sin(t/tau1), any tau, any fraction"""
    N = c.choice("N", [4, 8])
    p, W, a0, L, gamma = start(c, N)
    t1, t2, f = c.real("t1", 0.005, 0.05), c.real("t2", 0.01, 0.1), c.real("f", 0, 0.5)
    s = ssfm(c, dz=5.0, disable_self_steepening=True, USE_SIMPLE_RAMAN=True, f_R=f, tau_1=t1, tau_2=t2)
    q = go(c, p, N, L, gamma, s)
    T = [(i - N // 2) * W / N for i in range(N)]
    y = abs2(a0)
    cmp_(c, q, a0, gamma, L, (1 - f) * y + f * delayed(c, T, response(c, T, "simple", t1, t2), y))


def h_default(c):
    """Lin & Agrawal's response with its own fraction"""
    N = c.choice("N", [4, 8])
    p, W, a0, L, gamma = start(c, N)
    t1, t2, f = c.real("t1", 0.005, 0.05), c.real("t2", 0.01, 0.1), c.num("0.245")
    s = ssfm(c, dz=5.0, disable_self_steepening=True, tau_1=t1, tau_2=t2)
    if c.choice("before", [False, True]):
        go(c, p, N, L, gamma, s)
    q = go(c, p, N, L, gamma, s)
    T = [(i - N // 2) * W / N for i in range(N)]
    y = abs2(a0)
    cmp_(c, q, a0, gamma, L, (1 - f) * y + f * delayed(c, T, response(c, T, "default", t1, t2), y))


def h_frequency(c):
    """the older response, given in the frequency domain, with the fraction meant for it; used before or not"""
    N = c.choice("N", [2, 4])
    p, W, a0, L, gamma = start(c, N, True)
    t1, t2, f = c.real("t1", 0.005, 0.05), c.real("t2", 0.01, 0.1), c.real("f0", 0, 0.5)
    s = ssfm(c, dz=5.0, disable_self_steepening=True, USE_SIMPLE_RAMAN=c.choice("simple", [True, False]), f_R=c.real("f", 0, 0.5), f_R0=f, tau_1=t1, tau_2=t2)
    if c.choice("before", [False, True]):
        go(c, p, N, L, gamma, s)
    q = go(c, p, N, L, gamma, s)
    R = []
    for k in range(N):
        w = 2 * c.pi * (k - N // 2) / W
        R.append((1 - f) + f * (t1**2 + t2**2) / (t1**2 + t2**2 - 2j * w * t1**2 * t2 - t1**2 * t2**2 * w**2))
    cmp_(c, q, a0, gamma, L, conv(c, c.array(R, "c"), abs2(a0)))


def h_off(c):
    """no Raman response: instantaneous, however the object and the global settings are configured"""
    N = c.choice("N", [2, 4])
    p, W, a0, L, gamma = start(c, N, c.choice("frequency domain", [True, False]))
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True, USE_SIMPLE_RAMAN=c.choice("simple", [True, False]), f_R=c.real("f", 0, 0.5), f_R0=c.real("f0", 0, 0.5))
    q = go(c, p, N, L, gamma, s)
    cmp_(c, q, a0, gamma, L, abs2(a0))


def h_fields(c):
    """any field"""
    N = 4
    x = c.cplxs("A", N, 1.0)
    if not c.symbolic:
        c.assume(float(abs(x).max()) > 0.3)
    kind = c.choice("kind", ["simple", "default"])
    p, W, a0, L, gamma = start(c, N, W=c.num("0.25"), a0=x)
    t1, t2 = c.num("0.0122"), c.num("0.032")
    f = c.real("f", 0, 0.5) if kind == "simple" else c.num("0.245")
    s = ssfm(c, dz=5.0, disable_self_steepening=True, USE_SIMPLE_RAMAN=kind == "simple", f_R=f)
    q = go(c, p, N, L, gamma, s)
    T = [(i - N // 2) * W / N for i in range(N)]
    y = abs2(a0)
    cmp_(c, q, a0, gamma, L, (1 - f) * y + f * delayed(c, T, response(c, T, kind, t1, t2), y))


def h_steep(c):
    """together with self-steepening: (1 + (i/w0) d/dt) acts on the field times the delayed response (a field of two lines)"""
    N = 4
    W, lam = c.num("0.25"), c.num("1200.0")
    l = [[c.num("1.0") + 0j, c.num("0.25") + 0j], [c.num("0.25") * 1j, 1j + c.num("0.5")]][c.choice("lines", [0, 1])]
    a0 = ifourier(c, c.array([c.num("0.0") + 0j, l[1], l[0], c.num("0.0") + 0j], "c"))
    kind = "simple"
    p, W, a0, L, gamma = start(c, N, W=W, lam=lam, a0=a0)
    t1, t2 = c.num("0.0122"), c.num("0.032")
    f = c.real("f", 0, 0.5)
    s = ssfm(c, dz=5.0, USE_SIMPLE_RAMAN=kind == "simple", f_R=f)
    q = go(c, p, N, L, gamma, s)
    T = [(i - N // 2) * W / N for i in range(N)]
    y = abs2(a0)
    Ry = (1 - f) * y + f * delayed(c, T, response(c, T, kind, t1, t2), y)
    cmp_(c, q, a0, gamma, L, Ry, tol=1e-12, w0=2 * c.pi * c.c * 1e-3 / lam, W=W)


def h_steep_weak(c):
    """... also where the field itself is weak: there the delayed response to its stronger neighbours steepens it all the same"""
    N = 4
    W, lam = c.num("0.25"), c.num("1200.0")
    a = [c.num("0.75") + 1j * c.num("0.5"), 1j - c.num("0.25"), c.num("1.0") + 0j, c.num("-0.5") + 1j]
    k = c.choice("weak", [0, 1, 2, 3])
    a[k] = a[k] * c.num(c.choice("how weak", ["0.01", "0.000001"]))
    p, W, a0, L, gamma = start(c, N, W=W, lam=lam, a0=c.array(a, "c"))
    t1, t2, f = c.num("0.0122"), c.num("0.032"), c.real("f", 0.2, 0.5)
    s = ssfm(c, dz=5.0, USE_SIMPLE_RAMAN=True, f_R=f)
    q = go(c, p, N, L, gamma, s)
    T = [(i - N // 2) * W / N for i in range(N)]
    y = abs2(a0)
    Ry = (1 - f) * y + f * delayed(c, T, response(c, T, "simple", t1, t2), y)
    cmp_(c, q, a0, gamma, L, Ry, tol=1e-9, w0=2 * c.pi * c.c * 1e-3 / lam, W=W)


def h_history(c):
    """an object that propagated another pulse before (another window, number of points or colour)"""
    N = 4
    kind = c.choice("kind", ["simple", "default"])
    p, W, a0, L, gamma = start(c, N)
    t1, t2 = c.num("0.0122"), c.num("0.032")
    f = c.real("f", 0, 0.5) if kind == "simple" else c.num("0.245")
    s = ssfm(c, dz=5.0, disable_self_steepening=True, USE_SIMPLE_RAMAN=kind == "simple", f_R=f)
    what = c.choice("before", ["window", "points", "colour", "size of window and back"])
    M = 8 if what == "points" else N
    o, Wo, lo = mk(c, M, "o", Wlo=0.6, Whi=0.9, llo=1700, lhi=1900)
    if what == "points" or what == "colour":
        o.set_time_window_ps(W)
    if what == "window":
        o.set_center_wavelength_nm(1300.0)
    o.set_AT(lines(c, M))
    if what.endswith("back"):
        go(c, p, N, L, gamma, s)
    go(c, o, M, L, gamma * 2, s)
    q = go(c, p, N, L, gamma, s)
    T = [(i - N // 2) * W / N for i in range(N)]
    y = abs2(a0)
    cmp_(c, q, a0, gamma, L, (1 - f) * y + f * delayed(c, T, response(c, T, kind, t1, t2), y))
