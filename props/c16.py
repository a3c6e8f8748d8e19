"""C16 phase matching and dispersion of crystals"""
from props.common import *


def _poly(c):
    """an arbitrary cubic index of refraction"""
    a = [c.real("a0", 1.5, 3), c.real("a1", -3e-4, 3e-4), c.real("a2", 1e-8, 1e-7), c.real("a3", -1e-11, 1e-11)]
    n = lambda x, axis=None: a[0] + a[1] * x + a[2] * x**2 + a[3] * x**3
    d1 = lambda x: a[1] + 2 * a[2] * x + 3 * a[3] * x**2
    d2 = lambda x: 2 * a[2] + 6 * a[3] * x
    return n, d1, d2


def _crystal(c, n, L):
    Crystal = c.mod("pynlo.media.crystals.CrystalContainer").Crystal
    x = Crystal({"length": L})
    x.n = n
    return x


def h_velocity(c):
    """group velocity c/(n - lambda n'), delay and D"""
    n, d1, d2 = _poly(c)
    L = c.real("L", 1e-4, 0.1)
    x = _crystal(c, n, L)
    w1, w2 = c.real("w1", 500, 3000), c.real("w2", 500, 3000)
    cn = c.c * 1e-3     # nm/ps
    ng = lambda w: n(w) - w * d1(w)
    c.eq("group velocity", x.calculate_group_velocity_nm_ps(w1), cn / ng(w1))
    c.eq("delay", x.calculate_pulse_delay_ps(w1, w2), L * 1e9 / cn * (ng(w1) - ng(w2)), atol=1e-6)
    L2 = c.real("L2", 1e-4, 0.1)
    c.eq("delay in given length", x.calculate_pulse_delay_ps(w1, w2, L2), L2 * 1e9 / cn * (ng(w1) - ng(w2)), atol=1e-6)
    D = -w1 / cn * d2(w1) * 1e12
    c.eq("D", x.calculate_D_ps_nm_km(w1), D, atol=1e-2)
    c.eq("D in fs/um/mm", x.calculate_D_fs_um_mm(w1), D, atol=1e-2)
    a = c.array([w1, w2], "f")
    c.eq("group velocity array", x.calculate_group_velocity_nm_ps(a), cn / ng(a))


def h_axis(c):
    """the axis asked for is the axis used"""
    n, d1, d2 = _poly(c)
    axis = c.choice("axis", ["o", "e", None])
    seen = []

    def nn(w, ax=None):
        seen.append(ax)
        return n(w)
    x = _crystal(c, nn, 0.01)
    w = c.real("w1", 500, 3000)
    for f in (x.calculate_group_velocity_nm_ps, x.calculate_D_ps_nm_km, x.calculate_D_fs_um_mm):
        f(w, axis)
    x.calculate_pulse_delay_ps(w, w, axis=axis)
    x.calculate_mix_phasematching_bw(w, 2 * w, axis)
    c.same("axis", all(s == axis for s in seen), True)


def h_bandwidth(c):
    """acceptance bandwidth: the smaller of pump-signal and pump-idler"""
    a0, a1, a2 = c.real("a0", 1.5, 3), c.real("a1", -3e-4, 3e-4), c.real("a2", 1e-8, 1e-7)
    x = _crystal(c, lambda w, axis=None: a0 + a1 * w + a2 * w**2, 0.01)
    longer = c.choice("longer", ["idler", "signal"])
    wp = c.real("wp", 700, 900)
    ws = c.real("ws", 1200, 1350) if longer == "idler" else c.real("ws", 1900, 2500)
    wi = 1 / (1 / wp - 1 / ws)
    # group index a0 - a2 wl^2: the longest wavelength is the furthest from the pump
    far = wi if longer == "idler" else ws
    r = x.calculate_mix_phasematching_bw(wp, ws)
    K = 0.886 * c.pi / c.c
    c.eq("bandwidth", r * a2 * (far**2 - wp**2) / c.c, K, rtol=1e-4)


def h_poling(c):
    """poling period 2 pi/(kp - ks - ki - dk)"""
    PPLN = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN
    L = c.real("L", 1e-3, 0.1)
    x = PPLN(c.real("T", 20, 200), length=L)
    a, b = c.real("a", 1.5, 2.5), c.real("b", 50, 500)
    n = lambda w: a + b / w
    x.n = n
    wp, ws = c.real("wp", 700, 1100), c.real("ws", 1300, 2000)
    wi = 1 / (1 / wp - 1 / ws)
    give = c.choice("given", ["ps", "pi", "si", "psi"])
    dk = c.choice("delta_k_L", [None, "given"])
    kw = {} if dk is None else {"delta_k_L": c.real("dk", -5, 5)}
    d = 3.2 if dk is None else kw["delta_k_L"]
    k = lambda w: 2 * c.pi * n(w) / w * 1e9
    want = k(wp) - k(ws) - k(wi) - d / L
    if give == "psi":
        r = x.calculate_poling_period(wp, ws, wi, **kw)
    else:
        r, w = x.calculate_poling_period(wp if "p" in give else None, ws if "s" in give else None, wi if "i" in give else None, silent=True, **kw)
        c.eq("third wavelength", w, {"ps": wi, "pi": ws, "si": wp}[give])
    c.eq("poling period", r * want, 2 * c.pi, rtol=1e-4)


def h_invert(c):
    """the signal wavelength belonging to a period: what is minimised is the squared difference of periods"""
    PPLN = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN
    x = PPLN(25, length=c.real("L", 1e-3, 0.1))
    a, b = c.real("a", 1.5, 2.5), c.real("b", 50, 500)
    x.n = lambda w: a + b / w
    wp, P = c.real("wp", 700, 1100), c.real("P", 1e-5, 1e-4)
    mx = c.real("mx", 1600, 2100)
    c.set_opt_bounds(0, 1200, 1500)
    r = x.invert_dfg_qpm_to_signal_wl(wp, P, mx)
    fun, bounds, args, pt = c.opt_log()[0]
    w = c.real("w", 1200, 1500)
    c.eq("objective", fun(w), (x.calculate_poling_period(wp, w, None, silent=True)[0] - P)**2)
    c.eq("from just above the pump", bounds[0], wp * 1.001)
    c.eq("to the largest signal", bounds[1], mx)
    c.eq("answer", r, pt)


def _given(c, wp, ws, wi):
    give = c.choice("given", ["ps", "pi", "si", "psi"])
    return give, [wp if "p" in give else None, ws if "s" in give else None, wi if "i" in give else None], {"ps": wi, "pi": ws, "si": wp, "psi": None}[give]


def h_angle(c):
    """phase matching angle: n(theta, pump)/lp = n_o/ls + n_o/li, for any ordinary and extraordinary indices and whatever
    angle was set before"""
    np = c.np
    A = c.mod("pynlo.media.crystals." + c.choice("module", ["XTAL_AgGaSe2", "XTAL_AgGaS"])).AgGaSe2
    wp, ws, wi = 2000, 3000, 6000
    neg = c.choice("negative crystal", [True, False])
    # no(signal)/3 + no(idler)/6 lies between no(pump)/2 and ne(pump)/2
    no = {wp: c.real("no(p)", 2.44, 2.46), ws: c.real("no(s)", 2.31, 2.33) if neg else c.real("no(s)", 2.57, 2.59), wi: c.real("no(i)", 2.31, 2.33) if neg else c.real("no(i)", 2.57, 2.59)}
    ne = {wp: c.real("ne(p)", 2.14, 2.16) if neg else c.real("ne(p)", 2.74, 2.76), ws: c.real("ne(s)", 2, 3), wi: c.real("ne(i)", 2, 3)}

    class X(A):
        def n(self, wl, axis="mix"):
            k = min((wp, ws, wi), key=lambda v: bool(abs(wl - v) > 1))
            if axis == "mix":
                return 1 / np.sqrt(np.sin(self.theta)**2 / ne[k]**2 + np.cos(self.theta)**2 / no[k]**2)
            return {"o": no, "e": ne}[axis][k]
    x = X(c.choice("angle before", [0.0, 0.9]))
    give, a, third = _given(c, wp, ws, wi)
    if give == "psi":
        th = x.phasematch(*a)
    else:
        th, w = x.phasematch(*a, return_wavelength=True)
        c.eq("third wavelength", w, third)
        c.eq("angle only", np.cos(x.phasematch(*a)), np.cos(th))
    x.set_theta(th)
    c.eq("phase matched", 1 / (x.n(wp, "mix") / wp)**2, 1 / (x.n(ws, "o") / ws + x.n(wi, "o") / wi)**2)


OPTS = {"h_angle": {"numeric_constants": True}}
