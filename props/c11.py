"""C11 Gaussian and waveguide beams"""
from props.common import *


def _pulse(c, N, tag="", lo=500, hi=2000):
    return mk(c, N, tag, Wlo=1, Whi=20, llo=lo, lhi=hi, frep=False)[0]


def _beam(c, N, tag="", **k):
    p = _pulse(c, N, tag, **k)
    w = c.real("w" + tag, 1e-6, 1e-3)
    return p, w, c.mod("pynlo.light").OneDBeam(waist_meters=w, this_pulse=p)


def h_geometry(c):
    """confocal parameter, Rayleigh range, spot size, curvature and Gouy phase of a Gaussian beam"""
    np = c.np
    N = c.choice("N", [2, 4])
    p, w, b = _beam(c, N)
    if c.choice("later", [0, 1]):
        w = c.real("w2", 1e-6, 1e-3)
        b.set_w0(w)
    how = c.choice("n", ["array", "scalar", "default"])
    n = c.reals("n", N, 1, 4) if how == "array" else c.real("ns", 1, 4) if how == "scalar" else 1
    a = () if how == "default" else (n,)
    z = c.real("z", -0.1, 0.1)
    zr = c.pi * w * w * n / p.wl_mks
    c.eq("waist", b.waist, w)
    c.eq("Rayleigh range", b.calculate_zR(*a), zr)
    c.eq("confocal parameter", b.calc_confocal(*a), 2 * zr)
    c.eq("spot size", b.calculate_waist(z, *a)**2 * zr * zr, w * w * (zr * zr + z * z))
    c.le("not smaller than the waist", w * np.ones(N), b.calculate_waist(z, *a))
    c.eq("at the focus", b.calculate_waist(0.0, *a), w * np.ones(N))
    c.assume(z * z > 1e-12)
    c.eq("curvature", b.calculate_R(z, *a) * z, z * z + zr * zr)
    g = b.calculate_gouy_phase(z, n)
    c.eq("Gouy phase", g * np.sqrt(z * z + zr * zr), zr + 1j * z)


def h_axial_symmetry(c):
    """before and after the focus"""
    np = c.np
    N = 2
    p, w, b = _beam(c, N)
    n = c.reals("n", N, 1, 4)
    z = c.real("z", 1e-6, 0.1)
    c.eq("spot", b.calculate_waist(-z, n), b.calculate_waist(z, n))
    c.eq("curvature", b.calculate_R(-z, n), -b.calculate_R(z, n))
    c.eq("Gouy", b.calculate_gouy_phase(-z, n) * b.calculate_gouy_phase(z, n), np.ones(N))
    zr = b.calculate_zR(n)
    c.eq("spot at zR", b.calculate_waist(zr, n)**2, 2 * w * w * np.ones(N))


def _xtal(c, N, nn, axes=None):
    def n(wl, axis):
        if axes is not None:
            axes.append(axis)
        return nn[len(wl)] if isinstance(nn, dict) else nn
    return crystal(c, n)


def h_power_to_field(c):
    """|a|^2 = P / (area n eps0 c)"""
    np = c.np
    N = c.choice("N", [2, 4])
    p = _pulse(c, N)
    w = c.real("w", 1e-6, 1e-3)
    b = c.mod("pynlo.light").OneDBeam(waist_meters=w, this_pulse=p, axis="o")
    n = c.reals("n", N, 1, 4)
    axes = []
    x = _xtal(c, N, n, axes)
    e = c.const("epsilon_0") * c.c
    z = c.real("z", -0.1, 0.1)
    one = np.ones(N)
    c.eq("no position", b.rtP_to_a(n)**2 * c.pi * w * w * n * e, one)
    c.eq("in a crystal", b.rtP_to_a_2(p, x, z)**2 * c.pi * b.calculate_waist(z, n)**2 * n * e, one)
    w2 = c.real("w2", 1e-6, 1e-3)
    c.eq("given spot size", b.rtP_to_a_2(p, x, None, w2)**2 * c.pi * w2 * w2 * n * e, one)
    c.eq("index", b.get_n_in_crystal(p, x), n)
    c.eq("wavenumber", b.get_k_in_crystal(p, x) * p.wl_mks, 2 * c.pi * n)
    c.same("along the beam's axis", set(axes), {"o"})


def _two(c, N):
    P = c.mod("pynlo.light").OneDBeam
    p, q = _pulse(c, N), _pulse(c, N, "q")
    w, v = c.real("w", 1e-6, 1e-3), c.real("v", 1e-6, 1e-3)
    n = {"o": c.reals("no", N, 1, 4), "e": c.reals("ne", N, 1, 4)}
    x = crystal(c, lambda wl, axis: n[axis])
    return p, q, P(w, p, "o"), P(v, q, "e"), n, x


def h_overlap(c):
    """overlap of two coaxial Gaussian beams with a common focus"""
    np = c.np
    N = 2
    p, q, b1, b2, n, x = _two(c, N)
    z = c.real("z", -0.1, 0.1)
    r = b1.calc_overlap_integral(z, p, q, b2, x)
    k1, k2 = 2 * c.pi * n["o"] / p.wl_mks, 2 * c.pi * n["e"] / q.wl_mks
    z1, z2 = b1.calculate_zR(n["o"]), b2.calculate_zR(n["e"])
    # |<u1|u2>|^2 with complex beam parameters q = z + i zR
    den = (k1 * z2 + k2 * z1)**2 + z * z * (k1 - k2)**2
    c.eq("value", r * den, 4 * k1 * k2 * z1 * z2)
    c.eq("symmetric", b2.calc_overlap_integral(z, q, p, b1, x), r)


def h_overlap_bounds(c):
    np = c.np
    N = 1
    P = c.mod("pynlo.light").OneDBeam
    p = _pulse(c, 2)
    w, v = c.real("w", 1e-6, 1e-3), c.real("v", 1e-6, 1e-3)
    n1, n2 = c.real("n1", 1, 4), c.real("n2", 1, 4)
    x = crystal(c, lambda wl, axis: n1 if axis == "o" else n2)
    b1, b2 = P(w, p, "o"), P(v, p, "e")
    z = c.real("z", -0.1, 0.1)
    r = b1.calc_overlap_integral(z, p, p, b2, x)
    k1, k2 = 2 * c.pi * n1 / p.wl_mks, 2 * c.pi * n2 / p.wl_mks
    z1, z2 = b1.calculate_zR(n1), b2.calculate_zR(n2)
    den = (k1 * z2 + k2 * z1)**2 + z * z * (k1 - k2)**2
    # r <= 1  <=>  0 <= den (1 - r) = z^2 (k1-k2)^2 + (k2 z1 - k1 z2)^2
    c.eq("1 - overlap", (1 - r) * den, z * z * (k1 - k2)**2 + (k1 * z2 - k2 * z1)**2)
    b3 = P(w, p, "o")
    c.eq("same beam", b1.calc_overlap_integral(z, p, p, b3, x), np.ones(2))


def h_match(c):
    """beams matched to another beam have its Rayleigh range"""
    np = c.np
    N = c.choice("N", [2, 4])
    p, q, b1, b2, n, x = _two(c, N)
    if c.choice("how", ["confocal", "central"]) == "confocal":
        b1.set_waist_to_match_confocal(p, q, b2, x)
        c.eq("same confocal parameter", b1.calculate_zR(n["o"]), b2.calculate_zR(n["e"]))
    else:
        w0 = c.real("w0", 1e-6, 1e-3)
        b1.set_waist_to_match_central_waist(p, w0, x)
        zr = b1.calculate_zR(n["o"])
        c.eq("same for all colours", zr, zr[N // 2] * np.ones(N))
        c.eq("waist at the centre", b1.waist[N // 2], w0)
    c.le("real waists", np.zeros(N), b1.waist)


def h_optimal(c):
    """the waist belongs to the Rayleigh range that minimises minus the overlap integrated from the focus over the length"""
    np = c.np
    N = 2
    p, q, b1, b2, n, x = _two(c, N)
    L = c.real("L", 1e-3, 0.05)
    c.set_opt_bounds(0, 1e-6, 1)
    if c.choice("given", [1, 0]):
        w = b1.calc_optimal_beam_overlap_in_crystal(p, q, b2, x, L)
    else:
        x._length = L
        w = b1.calc_optimal_beam_overlap_in_crystal(p, q, b2, x)
    log = c.opt_log()
    c.same("one minimisation", len(log), 1)
    fun, x0, args, xs = log[0]
    b1.set_w0(w)
    c.eq("waist", b1.calculate_zR(n["o"]), xs * np.ones(N))
    k1, k2 = 2 * c.pi * n["o"] / p.wl_mks, 2 * c.pi * n["e"] / q.wl_mks
    z1, z2 = c.real("z1", 1e-3, 1), b2.calculate_zR(n["e"])
    D = k1 * z2 + k2 * z1
    for i in range(N):
        c.assume((k1[i] - k2[i]) * (k1[i] - k2[i]) > 1)
    c.eq("objective", fun(z1, *args), -(4 * k1 * k2 * z1 * z2 / (D * (k1 - k2)) * np.arctan((k1 - k2) * L / D)).sum(), rtol=1e-4)


def h_waveguide(c):
    np = c.np
    N = 2
    p = _pulse(c, N)
    A = c.real("A", 0.1, 1000)
    W = c.mod("pynlo.light").OneDBeam_highV_WG
    b = W(Aeff_squm=A, this_pulse=p)
    n = c.reals("n", N, 1, 4)
    x = crystal(c, lambda wl, axis: n)
    e = c.const("epsilon_0") * c.c
    z = c.real("z", -0.1, 0.1)
    if c.choice("later", [0, 1]):
        A = c.real("A2", 0.1, 1000)
        b.set_Aeff(A * 1e-12)
    one = np.ones(N)
    c.eq("area", b.Aeff, A * 1e-12)
    c.eq("field", b.rtP_to_a(n)**2 * A * 1e-12 * n * e, one)
    c.eq("field, anywhere", b.rtP_to_a(n, z), b.rtP_to_a(n))
    c.eq("field in crystal", b.rtP_to_a_2(p, x, z), b.rtP_to_a(n))
    c.eq("overlap", b.calc_overlap_integral(z, p, p, W(Aeff_squm=2 * A, this_pulse=p), x), 1.0)
    c.eq("Gouy phase", b.calculate_gouy_phase(z, n), 1.0)
    c.eq("index", b.get_n_in_crystal(p, x), n)
    c.eq("wavenumber", b.get_k_in_crystal(p, x) * p.wl_mks, 2 * c.pi * n)
