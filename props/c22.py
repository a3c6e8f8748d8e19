"""C22 nonlinear propagation solves the generalised nonlinear Schroedinger equation"""
from props.common import *
from props.c20 import ssfm, settings, fiber, errors

OPTS = {"*": {"val_rtol": 1e-2}}


def conv(c, R, y):
    """the response R (frequency picture) applied to y"""
    return ifourier(c, R * fourier(c, y))


def taylor(c, a0, B, g, gamma, L, order, R=None, w0=None, W=None, product=True):
    """A(L) of dA/dz = (i beta + g/2) A + i gamma (1 + (i/w0) d/dt) (A R*|A|^2) from its power series in z"""
    np = c.np
    N = len(a0)
    lin = 1j * B + g / 2
    V = None if w0 is None else 2 * c.pi * (np.arange(N) - N // 2) / W
    a = [a0]
    P = []
    out = a0
    zk = 1
    for k in range(order):
        y = sum(a[i] * a[k - i].conj() for i in range(k + 1))
        P.append(y if R is None else conv(c, R, y))
        nl = sum(a[i] * P[k - i] for i in range(k + 1))
        d = 1j * gamma * nl
        if w0 is not None:
            D = lambda y: ifourier(c, -1j * V * fourier(c, y))
            if product:
                # (the product rule, which on a grid only holds without aliasing)
                d = d - gamma / w0 * sum(a[i] * D(P[k - i]) + D(a[i]) * P[k - i] for i in range(k + 1))
            else:
                d = d - gamma / w0 * D(nl)
        a.append((ifourier(c, lin * fourier(c, a[k])) + d) / (k + 1))
        zk = zk * L
        out = out + a[-1] * zk
    return out


def check(c, label, q, a0, B, g, gamma, L, order, scale=1, **k):
    """exact to the given order; on numbers: within a few times the size of the next order"""
    np = c.np
    if c.symbolic:
        c.eq(label, q.AT, taylor(c, a0, B, g, gamma, L, order, **k))
    else:
        ref = taylor(c, a0, B, g, gamma, L, 24, **k)
        m = float(abs(a0).max())
        rate = float(abs(B).max() + abs(g).max() / 2 + abs(gamma) * m**2 * (1 if k.get("w0") is None else 2))
        c.eq(label, q.AT, ref, rtol=0, atol=m * (rate * L)**(order + 1) * scale + 1e-13 * m)


def fields(c, k=2):
    F = [[c.num("0.75") + 1j * c.num("0.5"), 1j - c.num("0.25")], [c.num("1.0") + 0j, c.num("-0.5") + 1j], [c.num("0.25") - 1j, c.num("0.5") + 1j * c.num("0.25")]]
    return c.array(F[c.choice("field", list(range(k)))], "c")


def setup(c, order, N=2, a0=None, few=False, h=(0.1, 0.2)):
    p, W, lam = mk(c, N, Wlo=1, Whi=10, llo=800, lhi=1600)
    a0 = fields(c) if a0 is None else a0
    p.set_AT(a0)
    h = c.series("h", order, *h)
    if few:
        # fewer unknowns
        B, g = c.array([c.real("b", -1, 1), c.num("-0.75")], "f"), c.array([c.num("0.5"), c.num("-0.25")], "f")
    else:
        B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    return p, a0, h, B, g, c.real("gamma", -1, 1)


NL = dict(disable_Raman=True, disable_self_steepening=True)
REJECT, SHRINK, KEEP, GROW = 3, 1.5, 0.75, 0.1


def h_order(c):
    """one step: exact through fifth order in the length (fixed fields, free dispersion, gain, nonlinearity)"""
    errors(c, [], thr=1e-2)
    settings(c)
    p, a0, h, B, g, gamma = setup(c, 5)
    s = ssfm(c, dz=5.0, **NL)
    z, AW, AT, q = s.propagate(p, fiber(c, 2, h, B, g, gamma), 1)
    check(c, "field", q, a0, B, g, gamma, h, 5)
    c.eq("pulse in untouched", p.AT, a0)
    c.eq("record AT", AT[:, 0], q.AT, rtol=1e-5)
    c.eq("record AW", AW[:, 0], q.AW, rtol=1e-5)


def h_fields(c):
    """free fields"""
    errors(c, [], thr=1e-2)
    settings(c)
    N = c.choice("N", [2, 4])
    x = c.cplxs("A", N, 1.0)
    order = {2: 3, 4: 1}[N] if c.tier == "quick" else {2: 4, 4: 2}[N]
    if not c.symbolic:
        c.assume(float(abs(x).max()) > 0.3)
    p, a0, h, B, g, gamma = setup(c, order, N, x)
    s = ssfm(c, dz=5.0, **NL)
    z, AW, AT, q = s.propagate(p, fiber(c, N, h, B, g, gamma), 1)
    check(c, "field", q, a0, B, g, gamma, h, order)


def h_four(c):
    """four points"""
    errors(c, [], thr=1e-2)
    settings(c)
    a0 = c.array([c.num("0.75") + 1j * c.num("0.5"), 1j - c.num("0.25"), c.num("1.0") + 0j, c.num("-0.5") + 1j], "c")
    order = 3 if c.tier == "quick" else 4
    p, a0, h, B, g, gamma = setup(c, order, 4, a0)
    s = ssfm(c, dz=5.0, **NL)
    z, AW, AT, q = s.propagate(p, fiber(c, 4, h, B, g, gamma), 1)
    check(c, "field", q, a0, B, g, gamma, h, order)


def h_steps(c):
    """several steps of different, changing sizes"""
    K, order = 2, (3 if c.tier == "quick" else 4)
    errors(c, [c.choice("verdict %d" % i, [REJECT, SHRINK, KEEP, GROW]) for i in range(K)], thr=1e-2)
    settings(c, True, True)
    p, a0, h, B, g, gamma = setup(c, order, a0=fields(c, 1), few=True)
    s = ssfm(c, dz=h * c.num(c.choice("first step", ["1/8", "2/7", "2"])), **NL)
    z, AW, AT, q = s.propagate(p, fiber(c, 2, h, B, g, gamma), 1)
    check(c, "field", q, a0, B, g, gamma, h, order)


def h_sections(c):
    """several recorded positions; gamma and dispersion of each section if reloading is asked for"""
    np = c.np
    order = 3 if c.tier == "quick" else 4
    errors(c, [], thr=1e-2)
    settings(c, None, True)
    p, a0, h, B, g, gamma = setup(c, order, a0=fields(c, 1))
    D, d = c.reals("D", 2, -1, 1), c.real("d", -1, 1)
    n = c.choice("steps", [2, 3])
    flag = c.choice("reload", [True, False])
    f = fiber(c, 2, h, lambda z: B + D * z, g, lambda z: gamma + d * z)
    s = ssfm(c, dz=5.0, **NL)
    z, AW, AT, q = s.propagate(p, f, n, reload_fiber_each_step=flag)
    a = a0
    for k in range(n):
        zk = h * k / n if flag else 0
        a = taylor(c, a, B + D * zk, g, gamma + d * zk, h / n, order if c.symbolic else 24)
        c.eq("record AT", AT[:, k], a, rtol=1e-5, atol=0 if c.symbolic else 1e-6)
        c.eq("record AW", AW[:, k], fourier(c, a), rtol=1e-5, atol=0 if c.symbolic else 1e-6)
    c.eq("field", q.AT, a, **({} if c.symbolic else dict(rtol=0, atol=1e-6)))


def h_back(c):
    """integrating backwards undoes integrating forwards"""
    order = 4
    errors(c, [], thr=1e-2)
    settings(c, True, None)
    p, a0, h, B, g, gamma = setup(c, order, a0=fields(c, 1))
    f = fiber(c, 2, h, B, g, gamma)
    s = ssfm(c, dz=5.0, **NL)
    s.propagate(p, f, 1)
    s.setup_fftw(p, f, None)
    s.load_fiber_parameters(p, f, None)
    A = s.A * 1.0
    s.integrate_over_dz(h)
    s.integrate_over_dz(h, -1)
    c.eq("undone", s.A, A, **({} if c.symbolic else dict(rtol=0, atol=2e-4)))


def h_extrapolate(c):
    """whatever the order of the single step: the difference of one step and two half steps removes the leading error"""
    np = c.np
    N = 2
    errors(c, [], thr=1e9)
    settings(c, True, False)
    eta = c.choice("eta", [3, 4, 5, 6])
    p, W, lam, x = mkf(c, N, Wlo=1, Whi=10, llo=800, lhi=1600)
    L = c.real("L", 0.5, 1.5)
    u, E = c.cplxs("u", N, 1.0), c.cplxs("E", N, 1.0)
    s = ssfm(c, dz=5.0, **NL)
    s.eta = eta
    s.Advance = lambda A, h, direction: A + u * h * direction + E * h**eta
    c.patch(s, "CalculateLocalError", lambda: s.local_error * 0.75)
    z, AW, AT, q = s.propagate(p, fiber(c, N, L, np.zeros(N), None, 0.0), 1)
    c.eq("field", q.AT, p.AT + u * L)


def h_lie(c):
    """the simple split-step method is exact to first order"""
    errors(c, [], thr=0.9)
    settings(c, True, None)
    p, a0, h, B, g, gamma = setup(c, 1)
    s = ssfm(c, dz=5.0, **NL)
    s.method = s.METHOD_SSFM
    z, AW, AT, q = s.propagate(p, fiber(c, 2, h, B, g, gamma), 1)
    check(c, "field", q, a0, B, g, gamma, h, 1)


def _steep(c, N, order, a0, product):
    errors(c, [], thr=1e-2)
    settings(c)
    W, lam = c.num("2.0"), c.num("1200.0")
    p, a0, h, B, g, gamma = setup(c, order, N, a0, h=(1e-6, 2e-6) if order == 1 else (1e-4, 2e-4))
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    p.set_AT(a0)
    s = ssfm(c, dz=5.0, disable_Raman=True)
    z, AW, AT, q = s.propagate(p, fiber(c, N, h, B, g, gamma), 1)
    k = dict(w0=2 * c.pi * c.c * 1e-3 / lam, W=W, product=product)
    if c.symbolic:
        c.eq("field", q.AT, taylor(c, a0, B, g, gamma, h, order, **k), tol=1e-12)
    else:
        check(c, "field", q, a0, B, g, gamma, h, order, **k)


def h_steep(c):
    """self-steepening: (1 + (i/w0) d/dt) acting on the whole nonlinear term (a field of two lines, whose products do not alias)"""
    l = [[c.num("1.0") + 0j, c.num("0.25") + 0j], [c.num("0.25") * 1j, 1j + c.num("0.5")], [c.num("0.5") - 1j, c.num("0.75") * 1j]]
    l = l[c.choice("lines", [0, 1, 2])]
    S = c.array([c.num("0.0") + 0j, l[1], l[0], c.num("0.0") + 0j], "c")
    _steep(c, 4, 1, ifourier(c, S), False)


def h_steep2(c):
    """... at second order"""
    N = c.choice("N", [2, 4])
    a0 = [c.num("0.75") + 1j * c.num("0.5"), 1j - c.num("0.25"), c.num("1.0") + 0j, c.num("-0.5") + 1j][:N]
    order = {2: 2, 4: 2}[N] if c.tier == "quick" else {2: 4, 4: 3}[N]
    _steep(c, N, order, c.array(a0, "c"), True)


def h_history(c):
    """an object that propagated another pulse through another fiber before, with self-steepening"""
    np = c.np
    errors(c, [], thr=1e-2)
    settings(c)
    N, order = 2, 1
    a0 = fields(c, 1)
    p, a0, h, B, g, gamma = setup(c, order, N, a0, h=(1e-6, 2e-6))
    W, lam = c.num("2.0"), c.num("1200.0")
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    p.set_AT(a0)
    what = c.choice("before", ["colour", "window", "points", "fiber"])
    M = 4 if what == "points" else N
    o = c.mod("pynlo.light.PulseBase").Pulse(n=M)
    o.set_time_window_ps(c.num("3.5") if what == "window" else W)
    o.set_center_wavelength_nm(c.num("800.0") if what == "colour" else lam)
    o.set_AT(c.array([c.num("0.5") - 1j, c.num("1.25") + 0j, c.num("0.25") + 1j, c.num("0.75") + 0j][:M], "c"))
    s = ssfm(c, dz=5.0, disable_Raman=True)
    s.propagate(o, fiber(c, M, h, np.ones(M), np.ones(M) * c.num("0.5"), c.num("0.75")), c.choice("steps before", [1, 2]))
    if what == "fiber":
        s.propagate(p, fiber(c, N, h * 2, -B, -g, gamma + 1), 1)
    z, AW, AT, q = s.propagate(p, fiber(c, N, h, B, g, gamma), 1)
    k = dict(w0=2 * c.pi * c.c * 1e-3 / lam, W=W, product=True)
    if c.symbolic:
        c.eq("field", q.AT, taylor(c, a0, B, g, gamma, h, order, **k), tol=1e-12)
    else:
        check(c, "field", q, a0, B, g, gamma, h, order, **k)
