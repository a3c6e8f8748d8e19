"""C15 crystals and their cached indices are independent and up to date"""
from props.common import *


def h_cache(c):
    """caching never changes a result"""
    np = c.np
    N = 2
    Crystal = c.mod("pynlo.media.crystals.CrystalContainer").Crystal
    a0, a1, a2 = c.real("a0", 1.5, 2.5), c.real("a1", 10, 500), c.real("a2", 1e-6, 1e-4)
    n = lambda wl, axis=None: a0 + a1 / wl + a2 * wl * (1 if axis is None else 2 if axis == "o" else 3)

    class X(Crystal):
        n = staticmethod(lambda wl, axis=None: a0 + a1 / wl + a2 * wl * (1 if axis is None else 2 if axis == "o" else 3))
    how = c.choice("how", ["param", "setter"])
    x = X({"enable_caching": True} if how == "param" else {})
    if how == "setter":
        x.set_caching(True)
    p, W, lam = mk(c, N)
    axis = c.choice("axis", [None, "o", "e"])
    r = x.get_pulse_n(p, axis)
    c.eq("n", r, n(p.wl_nm, axis))
    r[0] = 7
    c.eq("n is handed out as a copy", x.get_pulse_n(p, axis), n(p.wl_nm, axis))
    what = c.choice("then", ["window", "wavelength", "points", "axis", "pulse", "off"])
    if what == "window":
        p.set_time_window_ps(c.real("W2", 0.01, 1000))
    elif what == "wavelength":
        p.set_center_wavelength_nm(c.real("lam2", 100, 20000))
    elif what == "points":
        p.set_NPTS(4)
    elif what == "axis":
        axis = {None: "o", "o": "e", "e": None}[axis]
    elif what == "pulse":
        p = mk(c, N, "b")[0]
    else:
        x.set_caching(False)
    c.eq("n after change of " + what, x.get_pulse_n(p, axis), n(p.wl_nm, axis))
    c.eq("n twice", x.get_pulse_n(p, axis), n(p.wl_nm, axis))
    c.eq("k", x.get_pulse_k(p, axis), 2 * c.pi * n(p.wl_nm, axis) / (p.wl_nm * 1e-9))


def _n(x, p, axis):
    return x.n(p.wl_nm, axis) if axis else x.n(p.wl_nm)


def h_ppln(c):
    """temperature of a cached PPLN crystal"""
    PPLN = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN
    p, W, lam = mk(c, 2, Wlo=5, llo=800, lhi=4000)
    T1, T2 = c.real("T1", 20, 200), c.real("T2", 20, 200)
    x = PPLN(T1, enable_caching=True)
    plain = PPLN(T1)
    c.eq("n", x.get_pulse_n(p), plain.n(p.wl_nm))
    how = c.choice("how", ["set_T", "load", "other crystal"])
    if how == "set_T":
        x.set_T(T2)
        c.eq("T", x.T, T2)
        want = PPLN(T2).n(p.wl_nm)
    elif how == "load":
        x.load(T2, "Deng")
        o = PPLN(T1)
        o.load(T2, "Deng")
        want = o.n(p.wl_nm)
    else:
        y = PPLN(T2, enable_caching=True)
        want = PPLN(T2).n(p.wl_nm)
        c.eq("other crystal at its own temperature", y.get_pulse_n(p), want)
        want = plain.n(p.wl_nm)
    c.eq("n at the present temperature", x.get_pulse_n(p), want)
    c.eq("untouched crystal", plain.get_pulse_n(p), PPLN(T1).n(p.wl_nm))
    c.eq("k", x.get_pulse_k(p), 2 * c.pi * want / (p.wl_nm * 1e-9))


def h_aggase(c):
    """angle of a cached birefringent crystal"""
    A = c.mod("pynlo.media.crystals." + c.choice("module", ["XTAL_AgGaSe2", "XTAL_AgGaS"])).AgGaSe2
    p = c.mod("pynlo.light.PulseBase").Pulse(frep_MHz=1, n=2)
    p.set_time_window_ps(5)
    p.set_center_wavelength_nm(c.choice("wavelength", [1600, 5000]))
    t1, t2 = c.real("t1", 0, 1.5), c.real("t2", 0, 1.5)
    x = A(theta=t1, enable_caching=True)
    y = A(theta=t2)
    no, ne = y.n(p.wl_nm, "o"), y.n(p.wl_nm, "e")
    mix = lambda t: (c.np.sin(t)**2 / ne**2 + c.np.cos(t)**2 / no**2)
    c.eq("mixed index", 1 / x.get_pulse_n(p, "mix")**2, mix(t1))
    c.eq("o", x.get_pulse_n(p, "o"), no)
    x.set_theta(t2)
    c.eq("mixed index at the present angle", 1 / x.get_pulse_n(p, "mix")**2, mix(t2))
    c.eq("e", x.get_pulse_n(p, "e"), ne)
    c.eq("o", x.get_pulse_n(p, "o"), no)
    ok = False
    try:
        x.n(p.wl_nm, "x")
    except ValueError:
        ok = True
    c.same("unknown axis refused", ok, True)


def h_isolated(c):
    """data of one crystal never shows up in another"""
    PPLN = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN
    A = c.mod("pynlo.media.crystals.XTAL_AgGaSe2").AgGaSe2
    L1, L2 = c.real("L1", 1e-4, 0.1), c.real("L2", 1e-4, 0.1)
    order = c.choice("order", [0, 1])
    if order:
        a = A(length=L2)
        x = PPLN(30, length=L1)
    else:
        x = PPLN(30, length=L1)
        a = A(length=L2)
    b = A()
    c.eq("PPLN damage threshold", x.damage_threshold_mks, 4e13)
    c.eq("default damage threshold", a.damage_threshold_mks, 1e13)
    c.eq("default damage threshold", b.damage_threshold_mks, 1e13)
    c.eq("length", x.length_mks, L1)
    c.eq("length", a.length_mks, L2)
    c.eq("length nm", a.length_nm, L2 * 1e9)
    c.eq("default length", b.length_mks, 1)
    c.same("modes", (x.mode, a.mode), ("PP", "BPM"))


OPTS = {"h_aggase": {"numeric_constants": True}}
