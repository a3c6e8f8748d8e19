"""C05 pulse energy"""
from props.common import *


def _N(c):
    return c.choice("N", [2, 4, 6] if c.tier == "quick" else [2, 4, 6, 8, 12])


def h_calc(c):
    """energy = time step x trapezoidal sum of the instantaneous power"""
    N = _N(c)
    p, W, lam, x = mkf(c, N, dom=c.choice("dom", ["T", "W"]))
    P = abs2(p.AT)
    c.eq("epp", p.calc_epp(), W / N * 1e-12 * (P.sum() - (P[0] + P[N - 1]) / 2))


def h_set(c):
    N = _N(c)
    p, W, lam, x = mkf(c, N)
    E = c.real("E", 1e-15, 1e-3)
    e0 = p.calc_epp()
    c.assume(e0 > 1e-16)
    p.set_epp(E)
    c.eq("energy", p.calc_epp(), E)
    c.eq("field", p.AT, x * c.np.sqrt(E / e0))
    grids_ok(c, p, N, W, lam)


def h_scaling(c):
    """energy is quadratic in the field and does not depend on centre wavelength or repetition rate"""
    N = 4
    p, W, lam, x = mkf(c, N)
    e0 = p.calc_epp()
    s = c.cplx("s", 3)
    p.set_AT(x * s)
    c.eq("quadratic", p.calc_epp(), e0 * (s * s.conjugate()).real)
    p.set_AT(x)
    p.set_center_wavelength_nm(c.real("lam2", 100, 20000))
    p.set_frep_MHz(c.real("fr2", 0.001, 10000))
    c.eq("independent", p.calc_epp(), e0)
    p.set_epp(3e-9)
    c.eq("energy", p.calc_epp(), 3e-9)


def h_avg_power(c):
    """pulses made with power_is_avg have that average power"""
    np = c.np
    D = c.mod("pynlo.light.DerivedPulses")
    kind = c.choice("shape", ["SechPulse", "GaussianPulse", "SincPulse"])
    P = c.real("P", 1e-6, 10)
    W = c.real("W", 1.01, 10)
    T0 = c.real("T0", 0.3, 2)
    lam = c.real("lam", 500, 2000)
    fr = c.real("frep", 0.1, 1000)
    N = 4
    cls = getattr(D, kind)
    p = cls(P, T0, lam, W, fr, N, power_is_avg=True)
    c.eq("average power", p.calc_epp() * p.frep_mks, P)
    q = cls(P, T0, lam, W, fr, N)
    A, B = p.AT, q.AT
    for k in range(N):
        c.eq("same shape", A[k] * B[N // 2], B[k] * A[N // 2])


def h_frog_energy(c):
    D = c.mod("pynlo.light.DerivedPulses")
    W, lam = c.choice("grid", [(c.num("5.0"), c.num("1550.0")), (c.num("1.5"), c.num("780.0"))])
    P = c.real("P", 1e-12, 10)
    fr = c.real("frep", 0.1, 1000)
    N = 4
    f = c.c * 1e-3 / lam
    lo, hi = c.c * 1e-3 / (f + 2.5 / W), c.c * 1e-3 / (f - 2.5 / W)
    a, b = c.real("a", 0.1, 2), c.real("b", 0.1, 2)
    name = c.file("frog.dat", [[lo, a, c.num("0.0")], [hi, b, c.num("0.0")]])
    avg = c.choice("avg", [0, 1])
    p = D.FROGPulse(W, lam, P, frep_MHz=fr, NPTS=N, power_is_avg=bool(avg), fileloc=name)
    c.eq("energy", p.calc_epp() * (fr * 1e6 if avg else 1), P)


def h_long(c):
    """more points, some of them free"""
    np = c.np
    N = 64
    p, W, lam = mk(c, N)
    x = c.array([c.num("0.5") + 1j * c.num("0.25") * (m % 7) for m in range(N)], "c")
    for m in (0, 1, N // 2, N - 1):
        x[m] = c.cplx("A%d" % m, 2.0)
    p.set_AT(x)
    P = abs2(x)
    e = W / N * 1e-12 * (P.sum() - (P[0] + P[N - 1]) / 2)
    c.eq("epp", p.calc_epp(), e)
    E = c.real("E", 1e-15, 1e-3)
    c.assume(e > 1e-16)
    p.set_epp(E)
    s = np.sqrt(E / e)
    for j in (0, 1, N // 2, N - 1):
        c.eq("field", p.AT[j], x[j] * s)
