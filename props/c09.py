"""C09 the derived pulses are the pulses they are named after"""
from props.common import *

OPTS = {"h_chirped": {"budget": 300}, "h_frog": {"numeric_constants": True}, "h_frog_roundtrip": {"numeric_constants": True}}


def _base(c, kind, N, **kw):
    D = c.mod("pynlo.light.DerivedPulses")
    P = c.real("P", 1e-6, 1e6)
    W = c.real("W", 1.01, 30)
    T0 = c.real("T0", 0.02, 3)
    c.assume(W < 20 * T0)
    lam = c.real("lam", 200, 12000)
    fr = c.real("frep", 0.001, 10000)
    p = getattr(D, kind)(P, T0, lam, W, fr, N, **kw)
    return p, P, T0, lam, W, fr


def h_sech(c):
    N = c.choice("N", [2, 4, 6])
    p, P, T0, lam, W, fr = _base(c, "SechPulse", N)
    u = p.T_ps / T0
    np = c.np
    # sech u = 2/(e^u + e^-u)
    c.eq("field", p.AT * (np.exp(u) + np.exp(-u)), 2 * np.sqrt(P) * np.ones(N))
    c.eq("peak power", abs2(p.AT)[N // 2], P)
    grids_ok(c, p, N, W, lam)
    c.eq("frep", p.frep_MHz, fr)


def h_gauss(c):
    N = c.choice("N", [4, 8])
    p, P, T0, lam, W, fr = _base(c, "GaussianPulse", N)
    A = p.AT
    h = N // 2
    c.eq("peak power", abs2(A)[h], P)
    c.eq("symmetric", A[h + 1], A[h - 1])
    c.eq("log-quadratic", A[0] * A[h]**3 if N == 4 else A[h + 2] * A[h]**3, A[h - 1]**4)
    if N == 8:
        c.eq("log-quadratic 3", A[h + 3] * A[h]**8, A[h + 1]**9)
    grids_ok(c, p, N, W, lam)


def h_gauss_fwhm(c):
    """half of the peak power at +-T0/2 (to 0.3 %)"""
    D = c.mod("pynlo.light.DerivedPulses")
    P = c.real("P", 1e-3, 1e4)
    T0 = c.real("T0", 0.6, 2)
    m = c.choice("m", [1, 2])
    N = 8
    W = N * T0 / (2 * m)
    p = D.GaussianPulse(P, T0, 1550.0, W, 100.0, N)
    r = abs2(p.AT) / P
    c.le("upper", r[N // 2 + m], c.num("0.5015"))
    c.le("lower", c.num("0.4985"), r[N // 2 - m])


def h_sinc(c):
    N = c.choice("N", [2, 4, 6])
    p, P, T0, lam, W, fr = _base(c, "SincPulse", N)
    np = c.np
    h = N // 2
    u = p.T_ps * c.num("3.7909885") / T0
    A = p.AT
    for k in range(N):
        if k == h:
            c.eq("peak", A[k], np.sqrt(P))
        else:
            c.eq("field", A[k] * u[k], np.sqrt(P) * np.sin(u[k]), rtol=1e-5, atol=1e-12)
    grids_ok(c, p, N, W, lam)


def h_avg_shape(c):
    """an average power instead of the peak power changes nothing but the height"""
    kind = c.choice("shape", ["SechPulse", "GaussianPulse", "SincPulse"])
    N = c.choice("N", [2, 4, 6])
    p, P, T0, lam, W, fr = _base(c, kind, N, power_is_avg=True)
    q, P, T0, lam, W, fr = _base(c, kind, N)
    h = N // 2
    c.eq("shape", p.AT * q.AT[h], q.AT * p.AT[h])
    grids_ok(c, p, N, W, lam)
    c.eq("frep", p.frep_MHz, fr)


def h_defaults(c):
    """default grid: 10 ps, 1024 points, 100 MHz"""
    D = c.mod("pynlo.light.DerivedPulses")
    import inspect
    for n in ("SechPulse", "GaussianPulse", "SincPulse"):
        s = inspect.signature(getattr(D, n).__init__).parameters
        c.eq(n + " window", s["time_window_ps"].default, 10)
        c.eq(n + " NPTS", s["NPTS"].default, 1024)
        c.eq(n + " frep", s["frep_MHz"].default, 100)
        c.same(n + " avg", s["power_is_avg"].default, False)


def h_chirped(c):
    """GDD, TOD and temporal chirps given at construction act as the corresponding operations"""
    kind = c.choice("shape", ["SechPulse", "GaussianPulse", "SincPulse"])
    avg = c.choice("avg", [False, True])
    N = 2 if c.tier == "quick" else 4
    b2, b3 = c.real("GDD", -0.1, 0.1), c.real("TOD", -0.1, 0.1)
    c2, c3 = c.real("chirp2", -1, 1), c.real("chirp3", -1, 1)
    p, P, T0, lam, W, fr = _base(c, kind, N, GDD=b2, TOD=b3, chirp2=c2, chirp3=c3, power_is_avg=avg)
    q, P, T0, lam, W, fr = _base(c, kind, N, power_is_avg=avg)
    T = T0 / c.num("3.7909885") if kind == "SincPulse" else T0
    V = q.V_THz
    q.set_AW(q.AW * cis(c, b2 / 2 * V**2 + b3 / 6 * V**3))
    u = q.T_ps / T
    q.set_AT(q.AT * cis(c, -(c2 / 2 * u**2 + c3 / 3 * u**3)))
    c.eq("field", p.AT, q.AT, rtol=1e-5)


def h_cw(c):
    D = c.mod("pynlo.light.DerivedPulses")
    N = c.choice("N", [2, 4, 6])
    P = c.real("P", 1e-6, 1e3)
    lam = c.real("lam", 500, 2000)
    W = c.real("W", 1.01, 50)
    p = D.CWPulse(P, lam, W, N)
    A = p.AW
    want = [0] * N
    want[N // 2] = P
    c.eq("one line at the centre carrying the power", abs2(A), c.array(want, "f"), atol=1e-12)
    c.eq("constant power in time", abs2(p.AT), P * c.np.ones(N))
    grids_ok(c, p, N, W, lam)


def h_cw_offset(c):
    """line off the grid centre: it still sits exactly at the requested wavelength"""
    D = c.mod("pynlo.light.DerivedPulses")
    N = 8
    P = c.real("P", 1e-6, 1e3)
    lam = c.real("lam", 500, 2000)
    W = c.real("W", 1.01, 50)
    n = c.choice("n", [0, 1, -1, 2, -3])
    d = c.real("d", -0.499, 0.499)
    p = D.CWPulse(P, lam, W, N, offset_from_center_THz=(n + d) / W)
    want = [0] * N
    want[N // 2 + n] = P
    c.eq("one line", abs2(p.AW), c.array(want, "f"))
    c.eq("at the requested wavelength", p.wl_nm[N // 2 + n], lam)
    c.eq("window", p.time_window_ps, W)
    c.eq("constant power in time", abs2(p.AT), P * c.np.ones(N))


def h_noise(c):
    D = c.mod("pynlo.light.DerivedPulses")
    N = 4
    lam = c.real("lam", 500, 2000)
    W = c.real("W", 0.1, 50)
    p = D.NoisePulse(lam, W, N, frep_MHz=c.real("frep", 1, 100))
    A = p.AW
    B = D.NoisePulse(lam, W, N).AW
    c.eq("same small power in every bin", abs2(A) * c.num("1e60"), c.np.ones(N))
    c.eq("again", abs2(B) * c.num("1e60"), c.np.ones(N))
    grids_ok(c, p, N, W, lam)


def h_units_guard(c):
    """SI values passed by mistake are refused"""
    D = c.mod("pynlo.light.DerivedPulses")
    kind = c.choice("shape", ["SechPulse", "GaussianPulse", "SincPulse", "CWPulse"])
    cls = getattr(D, kind)
    lam, W = c.choice("bad", [(1.5e-6, 10.0), (1550.0, 1e-11)])
    if kind == "CWPulse":
        c.raises("refused", AssertionError, lambda: cls(1.0, lam, W, 4))
    else:
        c.raises("refused", AssertionError, lambda: cls(1.0, 0.1, lam, W, 100.0, 4))


def _frog(c, rows, N, W, lam, P, flip, avg=False):
    D = c.mod("pynlo.light.DerivedPulses")
    name = c.file("frog.dat", rows)
    return D.FROGPulse(W, lam, P, frep_MHz=c.num("100.0"), NPTS=N, fileloc=name, flip_phase=flip, power_is_avg=avg)


def h_frog(c):
    """measured amplitude and phase are interpolated linearly in wavelength onto the grid, zero outside"""
    np = c.np
    N = 4
    W, lam = c.choice("grid", [(c.num("5.0"), c.num("1550.0")), (c.num("1.5"), c.num("780.0"))])
    P = c.real("P", 1e-12, 1e-6)
    flip = c.choice("flip", [True, False])
    f = c.c * 1e-3 / lam
    g = [c.c * 1e-3 / (f + (k - 2) / W) for k in range(N)]
    # three rows: the ends lie between grid points 0/1 and 2/3, the middle between 1/2
    w = [g[3] + (g[2] - g[3]) * c.num("0.3"), g[2] + (g[1] - g[2]) * c.num("0.5"), g[1] + (g[0] - g[1]) * c.num("0.6")]
    a = [c.real("a%d" % i, 0.1, 2) for i in range(3)]
    ph = [c.real("p%d" % i, -2, 2) for i in range(3)]
    rows = [[w[i], a[i], ph[i]] for i in range(3)]
    if c.choice("order", ["up", "down"]) == "down":
        rows = rows[::-1]
    p = _frog(c, rows, N, W, lam, P, flip)

    def lin(v, x, y, X, Y):
        return X + (Y - X) * (v - x) / (y - x)
    s = -1 if flip else 1
    a1, a2 = lin(g[1], w[1], w[2], a[1], a[2]), lin(g[2], w[0], w[1], a[0], a[1])
    p1, p2 = lin(g[1], w[1], w[2], ph[1], ph[2]), lin(g[2], w[0], w[1], ph[0], ph[1])
    A = p.AW
    c.eq("outside", c.array([A[0], A[3]]), np.zeros(2), atol=1e-9)
    c.eq("ratio", A[1] * a2 * cis(c, s * p2), A[2] * a1 * cis(c, s * p1), rtol=1e-5)
    c.eq("phase", (A[1] * cis(c, -s * p1)).imag, 0.0, atol=1e-9)
    c.eq("energy", p.calc_epp(), P)


def h_frog_roundtrip(c):
    """a pulse written with write_frog is read back by FROGPulse"""
    np = c.np
    N = 4
    W, lam = c.num("5.0"), c.num("1550.0")
    flip = c.choice("flip", [True, False])
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    p = Pulse(frep_MHz=c.num("100.0"), n=N)
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    a = c.reals("a", N, 0.5, 2)
    ph = c.reals("ph", N, -1, 1)
    x = a * cis(c, ph)
    p.set_AW(x)
    name = c.outfile("out.dat")
    p.write_frog(name, flip_phase=flip)
    c.eq("unchanged", p.AW, x)
    D = c.mod("pynlo.light.DerivedPulses")
    q = D.FROGPulse(W, lam, p.calc_epp(), frep_MHz=c.num("100.0"), NPTS=N, fileloc=name, flip_phase=flip)
    # interior points: rounding decides whether an end point counts as inside the table
    A = q.AW
    c.eq("ratio", A[1] * x[2], A[2] * x[1], rtol=1e-4)
    c.eq("phase", (A[1] * x[1].conjugate()).imag, 0.0, atol=1e-6)


def h_long(c):
    """more points"""
    np = c.np
    N = 64
    kind = c.choice("shape", ["SechPulse", "GaussianPulse", "SincPulse"])
    p, P, T0, lam, W, fr = _base(c, kind, N)
    k = np.arange(N) - N // 2
    u = k * W / N / T0
    A = p.AT
    c.eq("peak", A[N // 2], np.sqrt(P))
    if kind == "SechPulse":
        c.eq("field", A * (np.exp(u) + np.exp(-u)), 2 * np.sqrt(P) * np.ones(N))
    elif kind == "GaussianPulse":
        # 2.77 ln 2 ... : exp(-q u^2), q from the neighbour of the peak
        r = A / np.sqrt(P)
        c.eq("field", r[N // 2 + 2:N // 2 + 4], c.array([r[N // 2 + 1]**4, r[N // 2 + 1]**9], "c"), atol=1e-9)
        c.eq("symmetric", r[N // 2 + 1:], r[1:N // 2][::-1], atol=1e-9)
    else:
        v = u * c.num("3.7909885")
        c.eq("field", (A / np.sqrt(P) * v)[N // 2 + 1::5], np.sin(v)[N // 2 + 1::5], rtol=1e-5, atol=1e-9)
        c.eq("symmetric", (A / np.sqrt(P))[N // 2 + 1::5], (A / np.sqrt(P))[1:N // 2][::-1][::5], rtol=1e-5, atol=1e-9)
    c.eq("grid", p.F_THz, k / W + c.c * 1e-3 / lam)
