"""C28 Treacy grating compressor"""
from props.common import *

OPTS = {"*": {"val_rtol": 1e-4}}


def treacy(c, cls=None, angle=None):
    T = cls or c.mod("pynlo.devices.grating_compressor").TreacyCompressor
    if angle is None and c.choice("incidence", ["usual", "other side"]) == "other side":
        lines, deg = c.real("lines", 300, 500), c.real("deg", -25, -2)
    else:
        lines, deg = c.real("lines", 300, 900), c.real("deg", 20, 60) if angle is None else angle
    return T(lines, deg), 1e-3 / lines, deg * c.pi / 180


def h_grating(c):
    """sin(incidence) + sin(diffraction) = wl/d"""
    np = c.np
    t, d, g = treacy(c)
    wl = c.reals("wl", 2, 800, 1100)
    for w in (wl[0], wl):
        th = t.calc_theta(w)
        c.eq("grating equation", np.sin(g) + np.sin(g - th), w * 1e-9 / d)
        c.true("principal angle", np.cos(g - th) >= 0)


def h_impossible(c):
    """colours that are not diffracted leave along the grating"""
    np = c.np
    t, d, g = treacy(c)
    k = c.choice("side", [0, 1])
    wl = c.array([d * 1e9 * (np.sin(g) + (c.real("x", 1.01, 2) if k == 0 else c.real("x", -0.5, 0.5))), c.real("wl", 800, 1100)], "f")
    th = t.calc_theta(wl * 1.0)
    c.eq("angle", np.sin(g - th[0]), 1.0 if k == 0 else wl[0] * 1e-9 / d - np.sin(g))
    c.eq("others", np.sin(g) + np.sin(g - th[1]), wl[1] * 1e-9 / d)


def slope(c, d, g, w, G):
    """Treacy's eqn 5b: dt/dw of one pass"""
    np = c.np
    s = 2 * c.pi * c.c / (w * d) - np.sin(g)
    return -4 * c.pi**2 * c.c * G / np.sqrt(1 - s**2) / (w**3 * d**2 * (1 - s**2))


def delay(c, d, g, w, G):
    """group delay of one pass: b (1 + cos theta) / c, b = G / cos(diffraction angle)"""
    np = c.np
    s = 2 * c.pi * c.c / (w * d) - np.sin(g)
    q = np.sqrt(1 - s**2)
    return G / q * (1 + q * np.cos(g) + s * np.sin(g)) / c.c


def h_delay(c):
    """group delay and its derivative"""
    np = c.np
    t, d, g = treacy(c)
    wl, G = c.real("wl", 800, 1100), c.real("G", 1e-3, 0.3)
    w = 2 * c.pi * c.c / (wl * 1e-9)
    c.eq("delay", t.calc_dphi_domega(w, G), delay(c, d, g, w, G))
    c.eq("single pass", t.calc_dt_dw_singlepass(wl, G), slope(c, d, g, w, G))
    c.eq("double pass", t.calc_compressor_gdd(wl, G), 2 * slope(c, d, g, w, G))


def h_slope(c):
    """the dispersion is the derivative of the group delay with respect to frequency"""
    t, d, g = treacy(c)
    wl, G = c.real("wl", 800, 1100), c.real("G", 1e-3, 0.3)
    f = lambda l: t.calc_dphi_domega(2 * c.pi * c.c / (l * 1e-9), G)
    D = c.diff(f(wl), wl) if c.symbolic else (f(wl * 1.00001) - f(wl * 0.99999)) / (2e-5 * wl)
    # dw/dwl = -w/wl
    sl = t.calc_dt_dw_singlepass(wl, G)
    c.eq("derivative", D * wl, -2 * c.pi * c.c / (wl * 1e-9) * sl)
    c.true("anomalous", sl < 0)


def h_hod(c):
    """higher orders are the derivatives of the GDD with respect to frequency (exact for polynomials)"""
    np = c.np
    T = c.mod("pynlo.devices.grating_compressor").TreacyCompressor
    n = c.choice("order", [3, 4, 5])
    a = c.reals("a", 4, -2, 2)
    w0 = c.real("w0", 1.7e15, 2.4e15)
    S = 1e9

    class P(T):
        def calc_dt_dw_singlepass(self, wavelength_nm, grating_separation_meters, verbose=False):
            w = (2 * c.pi * c.c * 1e9 / wavelength_nm - w0) / S
            return grating_separation_meters * (a[0] + a[1] * w + a[2] * w**2 + a[3] * w**3)
    t, d, g = treacy(c, P)
    G = c.real("G", 1e-3, 0.3)
    v = t.calc_compressor_HOD(2 * c.pi * c.c * 1e9 / w0, G, n)
    k = n - 2
    f = {1: 1, 2: 2, 3: 6}[k]
    c.eq("derivative", v * S**k, 2 * G * f * a[k], **({} if c.symbolic else dict(rtol=0, atol=1e-2 * 3**k)))
    c.raises("second order is not a higher order", ValueError, lambda: t.calc_compressor_HOD(1000.0, G, 2))


def h_phase(c):
    """the pulse gets the phase whose derivative is the delay of two passes, up to a delay common to all frequencies"""
    np = c.np
    N = c.choice("N", [4] if c.tier == "quick" else [4, 6])
    t, d, g = treacy(c, angle=30.0)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=5, llo=900, lhi=1000)
    G = c.real("G", 1e-3, 0.1)
    t.apply_phase_to_pulse(G, p)
    w0 = 2 * c.pi * c.c * 1e9 / lam
    V = 2 * c.pi * 1e12 * (np.arange(N) - N // 2) / W
    ph = [c.integral(lambda u: 2 * delay(c, d, g, u, G), w0, w0 + V[k]) for k in range(N)]
    y = p.AW
    c.eq("spectrum", abs2(y), abs2(x))
    for k in range(1, N - 1):
        # r[k-1] r[k+1] / r[k]^2 with r = out / in
        c.eq("curvature", y[k - 1] * y[k + 1] * x[k]**2, x[k - 1] * x[k + 1] * y[k]**2 * cis(c, ph[k - 1] - 2 * ph[k] + ph[k + 1]), **({} if c.symbolic else dict(rtol=1e-3)))
    grids_ok(c, p, N, W, lam)


def h_orders(c):
    """derivatives of the single-pass group delay in fs^(n+1) (exact for polynomials)"""
    np = c.np
    T = c.mod("pynlo.devices.grating_compressor").TreacyCompressor
    n = c.choice("order", [1, 2, 3])
    a = c.reals("a", 4, -2, 2)
    w0 = c.real("w0", 1.7e15, 2.4e15)
    S = 1e13

    class P(T):
        def calc_dphi_domega(self, omega, grating_separation_meters, verbose=False):
            w = (omega - w0) / S
            return 1e-12 * grating_separation_meters * (a[0] + a[1] * w + a[2] * w**2 + a[3] * w**3)
    t, d, g = treacy(c, P)
    G = c.real("G", 1e-3, 0.3)
    v = t.calc_compressor_dnphi_domega_n(2 * c.pi * c.c * 1e9 / w0, G, n)
    f = {1: 1, 2: 2, 3: 6}[n]
    c.eq("derivative", v * (S * 1e-15)**n, 1000 * G * f * a[n], **({} if c.symbolic else dict(rtol=0, atol=1e-3 * 10**n)))
    c.raises("order 0", ValueError, lambda: t.calc_compressor_dnphi_domega_n(1000.0, G, 0))
