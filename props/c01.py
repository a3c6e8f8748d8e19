"""C01 the time and frequency grids"""
from props.common import *


def h_grids(c):
    N = c.choice("N", [2, 4, 6, 8] if c.tier == "quick" else [2, 4, 6, 8, 10, 12, 16, 20, 32])
    p, W, lam = mk(c, N)
    np = c.np
    k = np.arange(N)
    f0 = c.c * 1e-3 / lam
    T, V, F = p.T_ps, p.V_THz, p.F_THz
    c.same("lengths", [len(T), len(V), len(F), len(p.W_THz), len(p.wl_nm), len(p.T_mks), len(p.W_mks)], [N] * 7)
    c.eq("T grid", T, (k - N / 2) * (W / N))
    c.eq("time zero", T[N // 2], 0.0)
    c.eq("spacing", T[1:] - T[:-1], np.ones(N - 1) * p.dT_ps)
    c.eq("V grid", V, 2 * c.pi * (k - N / 2) / W)
    c.eq("F grid", F, (k - N / 2) / W + f0)
    c.eq("frequency spacing", F[1:] - F[:-1], np.ones(N - 1) * p.dF_THz)
    c.eq("W grid", p.W_THz, 2 * c.pi * F)
    c.eq("W = V + centre", p.W_THz - V, np.ones(N) * 2 * c.pi * p.center_frequency_THz)
    c.eq("centre frequency", F[N // 2], p.center_frequency_THz)
    c.eq("centre wavelength", p.wl_nm[N // 2], lam)
    c.eq("wavelength grid", p.wl_nm * F, np.ones(N) * c.c * 1e-3)
    c.eq("dT dF = 1/N", p.dT_ps * p.dF_THz * N, 1.0)


def h_all(c):
    N = c.choice("N", [2, 4, 8])
    p, W, lam = mk(c, N)
    grids_ok(c, p, N, W, lam)


def h_rejects_unset(c):
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    p = Pulse(n=4)
    which = c.choice("which", ["AW", "AT"])
    c.raises("no field yet", RuntimeError, lambda: getattr(p, which))


def h_long(c):
    """realistic numbers of points"""
    N = c.choice("N", [62, 256, 1000, 4096] if c.tier == "quick" else [34, 62, 64, 100, 256, 1000, 1024, 4096])
    p, W, lam = mk(c, N)
    np = c.np
    k = np.arange(N) - N // 2
    F = k / W + c.c * 1e-3 / lam
    c.eq("T grid", p.T_ps, k * (W / N))
    c.eq("V grid", p.V_THz, 2 * c.pi * k / W)
    c.eq("F grid", p.F_THz, F)
    c.eq("W grid", p.W_mks, 2e12 * c.pi * F)
    c.eq("wavelength grid", p.wl_nm * F, np.ones(N) * c.c * 1e-3)
    c.eq("steps", [p.dT_ps * N, p.dF_mks * 1e-12 * W], [W, 1.0])
    c.eq("first wavelength", p.wl_mks[0], c.c * 1e-12 / F[0])
