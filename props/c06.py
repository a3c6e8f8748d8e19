"""C06 dispersion, phase and delay change the phase only"""
from props.common import *

OPTS = {"h_dechirp": {"max_paths": 400}, "h_dechirp_flat": {}}


def h_chirp_W(c):
    np = c.np
    N = c.choice("N", [2, 4, 6])
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=100, llo=200, lhi=5000)
    b2, b3, b4 = c.real("GDD", -5, 5), c.real("TOD", -5, 5), c.real("FOD", -5, 5)
    form = c.choice("form", ["gdd", "tod", "fod", "w0"])
    V = p.V_THz
    if form == "gdd":
        p.chirp_pulse_W(b2)
        ph = b2 / 2 * V**2
    elif form == "tod":
        p.chirp_pulse_W(b2, b3)
        ph = b2 / 2 * V**2 + b3 / 6 * V**3
    elif form == "fod":
        p.chirp_pulse_W(b2, b3, b4)
        ph = b2 / 2 * V**2 + b3 / 6 * V**3 + b4 / 24 * V**4
    else:
        w0 = c.real("w0", 100, 10000)
        p.chirp_pulse_W(b2, b3, b4, w0)
        U = p.W_THz - w0
        b2, b3, b4 = b2, b3, b4
        ph = b2 / 2 * U**2 + b3 / 6 * U**3 + b4 / 24 * U**4
    c.eq("spectrum", abs2(p.AW), abs2(x))
    c.eq("field", p.AW, x * cis(c, ph), rtol=1e-5)
    if form == "fod":
        p.chirp_pulse_W(-b2, -b3, -b4)
        c.eq("undone", p.AW, x, rtol=1e-5)
    if form == "w0":
        p.chirp_pulse_W(-b2, TOD=-b3, FOD=-b4, w0_THz=w0)
        c.eq("undone", p.AW, x, rtol=1e-5)


def h_chirp_T(c):
    N = c.choice("N", [2, 4, 6])
    p, W, lam, x = mkf(c, N)
    c2, c3, T0 = c.real("c2", -5, 5), c.real("c3", -5, 5), c.real("T0", 0.01, 10)
    p.chirp_pulse_T(c2, c3, T0)
    u = p.T_ps / T0
    c.eq("power", abs2(p.AT), abs2(x))
    c.eq("field", p.AT, x * cis(c, -(c2 / 2 * u**2 + c3 / 3 * u**3)), rtol=1e-4)


def h_apply_phase(c):
    N = 4
    p, W, lam, x = mkf(c, N, dom="W")
    ph = c.reals("ph", N, -10, 10)
    p.apply_phase_W(ph)
    c.eq("field", p.AW, x * cis(c, ph))
    c.eq("spectrum", abs2(p.AW), abs2(x))
    c.eq("energy", abs2(p.AT).sum(), N * abs2(x).sum())


def h_offset_any(c):
    N = 4
    p, W, lam, x = mkf(c, N, dom="W", Whi=20, llo=500)
    t = c.real("tau", -5, 5)
    p.add_time_offset(t)
    c.eq("spectrum", abs2(p.AW), abs2(x))
    c.eq("field", p.AW, x * cis(c, -p.W_THz * t), rtol=1e-4)
    p.add_time_offset(-t)
    c.eq("undone", p.AW, x, rtol=1e-4)


def h_offset_grid(c):
    """an offset of m grid steps rotates the power profile by m points, towards earlier times for positive offsets"""
    N = c.choice("N", [2, 4, 6])
    p, W, lam, x = mkf(c, N, Whi=20, llo=500)
    m = c.choice("m", [1, -1, 2, 3])
    p.add_time_offset(m * p.dT_ps)
    c.eq("power", abs2(p.AT), c.np.roll(abs2(x), -m), rtol=1e-5)


def _phased(c, N, deg, lo=1, hi=2):
    np = c.np
    p, W, lam = mk(c, N, Wlo=1, Whi=20, llo=500, lhi=2000)
    a = c.reals("a", N, lo, hi)
    k = np.arange(N) - N // 2
    b = [c.real("b%d" % i, -0.5, 0.5) for i in range(deg + 1)]
    ph = sum(b[i] * k**i for i in range(deg + 1)) + 0 * a
    return p, a, ph, W, lam


def h_dechirp_flat(c):
    """a pulse with quadratic (linear) spectral phase leaves with flat phase and the same spectrum"""
    N = 4
    which = c.choice("which", ["dechirp", "delay"])
    deg = 2 if which == "dechirp" else 1
    p, a, ph, W, lam = _phased(c, N, deg)
    d = ph[1:] - ph[:-1]
    for i in range(N - 1):
        c.assume((d[i] < 3) & (d[i] > -3))
    for i in range(N):
        c.assume((ph[i] < 3) & (ph[i] > -3))
    p.set_AW(a * cis(c, ph))
    if which == "dechirp":
        p.dechirp_pulse()
    else:
        p.remove_time_delay()
    A = p.AW
    c.eq("spectrum", abs2(A), a * a, rtol=1e-4)
    c.eq("flat phase", A, a, rtol=2e-3)


def h_dechirp_any(c):
    """any pulse: spectrum unchanged, and what is removed is quadratic (linear) in frequency"""
    np = c.np
    N = 6
    which = c.choice("which", ["dechirp", "delay"])
    p, W, lam = mk(c, N, Wlo=1, Whi=20, llo=500, lhi=2000)
    a = c.reals("a", N, 1, 2)
    ph = c.reals("ph", N, -1, 1)
    p.set_AW(a * cis(c, ph))
    if which == "dechirp":
        p.dechirp_pulse()
    else:
        p.remove_time_delay()
    u = p.AW * cis(c, -ph) / a
    c.eq("spectrum", abs2(p.AW), a * a, rtol=1e-4)
    v = u.conj()
    if which == "dechirp":
        # third difference of the removed phase is zero
        lhs = u[3:] * u[1:-2]**3
        rhs = u[2:-1]**3 * u[:-3]
    else:
        lhs = u[2:] * u[:-2]
        rhs = u[1:-1]**2
    c.eq("polynomial", lhs, rhs, rtol=2e-3)
    # residual phase is orthogonal to the removed basis (least squares)


def h_dechirp_threshold(c):
    """only points above the intensity threshold determine the fit"""
    np = c.np
    N = 6
    p, W, lam = mk(c, N, Wlo=1, Whi=20, llo=500, lhi=2000)
    which = c.choice("which", ["dechirp", "delay"])
    a = [c.real("a%d" % i, 1, 2) for i in range(N)]
    ph = [c.real("b0", -0.3, 0.3) + c.real("b1", -0.3, 0.3) * (i - 3) + (c.real("b2", -0.1, 0.1) * (i - 3)**2 if which == "dechirp" else 0) for i in range(N)]
    weak = c.choice("weak", [0, 5])
    a[weak] = c.real("w", 0.1, 0.2)
    dph = c.real("dph", -0.5, 0.5)
    ph2 = list(ph)
    ph2[weak] = ph2[weak] + dph
    a, ph, ph2 = c.array(a), c.array(ph), c.array(ph2)
    for i in range(N):
        c.assume((ph2[i] < 3) & (ph2[i] > -3))
    for i in range(N - 1):
        c.assume((ph2[i + 1] - ph2[i] < 3) & (ph2[i + 1] - ph2[i] > -3))
    p.set_AW(a * cis(c, ph2))
    if which == "dechirp":
        p.dechirp_pulse(intensity_threshold=0.05)
    else:
        p.remove_time_delay(intensity_threshold=0.05)
    c.eq("fit", p.AW, a * cis(c, ph2 - ph), rtol=2e-3)


def h_long(c):
    """more points (two samples at a time)"""
    np = c.np
    N = 64
    p, W, lam = mk(c, N, Wlo=1, Whi=100, llo=200, lhi=5000)
    i, j = c.choice("samples", [(0, N // 2), (N // 2 - 1, N - 1)])
    a, b = c.cplx("a", 2.0), c.cplx("b", 2.0)
    x = np.zeros(N, dtype=complex)
    x[i] = a
    x[j] = b
    k = np.arange(N) - N // 2
    if c.choice("dom", ["W", "T"]) == "W":
        b2, b3, b4 = c.real("GDD", -1, 1), c.real("TOD", -1, 1), c.real("FOD", -1, 1)
        V = 2 * c.pi * k / W
        p.set_AW(x)
        p.chirp_pulse_W(b2, b3, b4)
        t = c.real("tau", -1, 1)
        p.add_time_offset(t)
        ph = b2 / 2 * V**2 + b3 / 6 * V**3 + b4 / 24 * V**4 - t * (V + 2 * c.pi * c.c * 1e-3 / lam)
        want = np.zeros(N, dtype=complex)
        for m in (i, j):
            want[m] = x[m] * cis(c, ph[m])
        c.eq("field", p.AW, want, rtol=1e-3)
    else:
        c2, c3, T0 = c.real("c2", -5, 5), c.real("c3", -5, 5), c.real("T0", 1, 10)
        p.set_AT(x)
        p.chirp_pulse_T(c2, c3, T0)
        u = k * W / N / T0
        want = np.zeros(N, dtype=complex)
        for m in (i, j):
            want[m] = x[m] * cis(c, -(c2 / 2 * u[m]**2 + c3 / 3 * u[m]**3))
        c.eq("field", p.AT, want, rtol=1e-3)
