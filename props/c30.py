"""C30 XFROG spectrogram"""
from props.common import *


def h_xfrog(c):
    """|sum_t A(t) gate(t - delay) e^{2 pi i f0 t} e^{-2 pi i f t}| on the stated grids"""
    np = c.np
    N, M = c.choice("size", [(4, 3), (2, 2), (4, 5)])
    W = c.real("W", 0.5, 4)
    lam = c.real("lam", 500, 2000)
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    p = Pulse(frep_MHz=100.0, n=N)
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    a = c.reals("a", N, 0.1, 2)
    ph = c.reals("ph", N, -3, 3)
    p.set_AT(a * cis(c, ph))
    g = c.real("g", 0.3, 3)
    D, F, ext, S = p.spectrogram("xfrog", g, M)
    t = p.T_ps
    d = t[0] + (t[N - 1] - t[0]) * np.arange(M) / (M - 1)
    f = np.arange(N // 2) / W
    c.same("shapes", [D.shape, F.shape, S.shape], [(N // 2, M)] * 3)
    c.eq("delays", D, np.array([d] * (N // 2)))
    c.eq("frequencies", F.T, np.array([f] * M))
    c.eq("extent", c.array(list(ext)), c.array([d[0], d[M - 1], f[0], f[N // 2 - 1]]))
    f0 = p.center_frequency_THz
    for j in range(M):
        E = a * np.exp(-(t - d[j])**2 / (2 * g * g)) * cis(c, 2 * c.pi * t * f0 + ph)
        for i in range(N // 2):
            z = (E * cis(c, -2 * c.pi * i * np.arange(N) / N)).sum()
            c.eq("spectrogram", S[i, j] * S[i, j], (z * z.conjugate()).real, rtol=1e-4, atol=1e-9)
    c.eq("pulse unchanged", p.AT, a * cis(c, ph))


def h_bad_gate(c):
    p, W, lam, x = mkf(c, 2, Wlo=1)
    c.raises("unknown gate", ValueError, lambda: p.spectrogram("nothing", 0.02, 3))
