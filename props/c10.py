"""C10 noise, averages and autocorrelation"""
from props.common import *


def h_noise(c):
    """the two noise models, draw by draw"""
    np = c.np
    N = 4
    p, W, lam = mk(c, N, Wlo=0.1, Whi=20, llo=500, lhi=1500)
    c.assume(c.c * 1e-3 / lam > 3 / W)
    x = c.cplxs("A", N)
    p.set_AW(x)
    q = p.create_cloned_pulse()
    mode = c.choice("mode", ["one_photon_freq", "sqrt_N_freq", None])
    if mode is None:
        p.add_noise()
    else:
        p.add_noise(mode)
    r = c.array([c.real("rnd!%d" % i, -3, 3) for i in range(N)])
    u = c.array([c.real("rnd!%d" % (N + i), 0, 1) for i in range(N)])
    d = p.AW - x
    hn = c.const("h") * p.F_mks
    dF = p.dF_mks
    unit = hn * dF
    s = c.num("1e12")
    if mode == "one_photon_freq":
        c.eq("noise", p.AW, x + r * unit * cis(c, 2 * c.pi * u))
        c.eq("one photon", abs2(d / unit), r * r, rtol=1e-3, atol=1e12)
    else:
        ph = abs2(x) / dF / hn
        c.eq("noise", abs2(p.AW - x) / (unit * s), r * r * ph * unit / s, rtol=1e-2, atol=1e-6)
        a = np.sqrt(ph)
        c.eq("field", p.AW, x + r * a * unit * cis(c, 2 * c.pi * u))
    grids_ok(c, p, N, W, lam)
    c.eq("other pulse", q.AW, x)


def h_noise_bad(c):
    p, W, lam, x = mkf(c, 2, Wlo=1, lhi=1000)
    c.assume(c.c * 1e-3 / lam > 3 / W)
    c.raises("unknown type", ValueError, lambda: p.add_noise("nothing"))
    c.eq("field", p.AT, x)


def h_average(c):
    """power-weighted mean frequency, and the wavelength that belongs to it"""
    np = c.np
    N = c.choice("N", [2, 4, 6])
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    P = abs2(x)
    c.assume(P.sum() > c.num("0.001"))
    f = p.calculate_weighted_avg_frequency_mks()
    c.eq("frequency", f * P.sum(), (P * p.F_mks).sum())
    c.eq("wavelength", p.calculate_weighted_avg_wavelength_nm() * (P * p.F_mks).sum(), c.c * 1e9 * P.sum())
    s = c.cplx("s", 3)
    c.assume((s * s.conjugate()).real > c.num("0.01"))
    p.set_AW(x * s)
    c.eq("scale", p.calculate_weighted_avg_frequency_mks(), f)


def h_average_bounds(c):
    """the mean lies on the grid"""
    N = 4
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    P = abs2(x)
    c.assume(P.sum() > c.num("0.001"))
    # f - F_min = sum P_k (k dF) / sum P
    f = p.calculate_weighted_avg_frequency_mks()
    k = c.np.arange(N)
    c.eq("position", (f - p.F_mks[0]) * P.sum() * W * 1e-12, (P * k).sum(), rtol=1e-3, atol=1e-6)


def h_autocorrelation(c):
    np = c.np
    N = c.choice("N", [2, 4, 6])
    p, W, lam, x = mkf(c, N)
    P = abs2(x)
    G = p.calculate_intensity_autocorrelation()
    want = []
    for k in range(N):
        lag = k - N // 2
        want.append(sum(P[j] * P[j + lag] for j in range(N) if 0 <= j + lag < N))
    c.eq("autocorrelation", G, c.array(want, "f"))
    c.eq("zero delay", G[N // 2], (P * P).sum())
    for k in range(1, N // 2):
        c.eq("symmetric", G[N // 2 + k], G[N // 2 - k])


def h_long(c):
    """realistic numbers of points"""
    N = 64
    p, W, lam = mk(c, N, Wlo=10, Whi=20, llo=500, lhi=1500)
    x = c.cplxs("A", N)
    P = abs2(x)
    if c.choice("what", ["mean", "autocorrelation"]) == "mean":
        p.set_AW(x)
        c.assume(P.sum() > c.num("0.001"))
        c.eq("frequency", p.calculate_weighted_avg_frequency_mks() * P.sum(), (P * p.F_mks).sum())
    else:
        x = c.reals("A", N, 0, 1) + 0j
        P = abs2(x)
        p.set_AT(x)
        G = p.calculate_intensity_autocorrelation()
        for k in (0, 1, N // 2, N // 2 + 1, N - 1):
            lag = k - N // 2
            c.eq("autocorrelation", G[k], sum(P[j] * P[j + lag] for j in range(N) if 0 <= j + lag < N))
