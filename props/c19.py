"""C19 fibers do not share anything; gain"""
from props.common import *


def _F(c):
    return c.mod("pynlo.media.fibers.fiber").FiberInstance


def _gen(c, f, tag, gain=0):
    b = [c.real("b%s0" % tag, -0.1, 0.1), c.real("b%s1" % tag, -0.01, 0.01)]
    f.generate_fiber(c.real("L" + tag, 0.1, 10), c.real("lf" + tag, 500, 2000), b, c.real("g" + tag, 0, 1), gain=gain)
    return b


def _state(c, f, p):
    return f.get_betas(p), f.get_gamma(), f.length, f.get_gain(p)


def h_isolated(c):
    """whatever happens to one fiber, another one keeps its dispersion, gamma, length, gain"""
    np = c.np
    p, W, lam = mk(c, 4, frep=False, llo=500, lhi=2000, Wlo=1)
    g = c.real("gain", 0.1, 2)
    f = _F(c)()
    e = _F(c)() if c.choice("created", ["before", "after"]) == "before" else None
    b = _gen(c, f, "a", g)
    s = _state(c, f, p)
    e = e if e is not None else _F(c)()
    do = c.choice("other", ["generate", "db", "file", "function", "same list"])
    if do == "generate":
        _gen(c, e, "b")
    elif do == "db":
        e.load_from_db(3.0, "dudley")
    elif do == "file":
        e.load_from_file(c.file("D.csv", [[1600.0, 3.0], [1500.0, 2.0], [1400.0, 2.5], [1300.0, 7.0], [1200.0, 9.0]], ","), gain=0)
    elif do == "function":
        _gen(c, e, "b")
        e.set_dispersion_function(lambda z: (z, z))
        e.set_gamma_function(lambda z: z)
    else:
        e.generate_fiber(1.0, 1550.0, b, 1.0, gvd_units="ps^n/km")
        e.betas[0] = 12.0
        b[0] = 99.0
    e.get_betas(p)
    for nm, x, y in zip(("betas", "gamma", "length", "gain"), _state(c, f, p), s):
        c.eq(nm, x, y)
    c.eq("gain kept", f.get_gain(p), g * np.ones(4))


def h_db_copy(c):
    """modifying a fiber loaded from the data base does not modify the data base"""
    np = c.np
    p, W, lam = mk(c, 4, frep=False, llo=500, lhi=2000, Wlo=1)
    f = _F(c)()
    f.load_from_db(1.0, "dudley")
    s = f.get_betas(p)
    if c.choice("change", ["function", "specs"]) == "function":
        f.set_dispersion_function(lambda z: (z, z, z), "GVD")
    else:
        f.fiberspecs["gamma"] = 7.0
        f.betas[0] = 5.0
    f.get_betas(p, 1.0)
    e = _F(c)()
    e.load_from_db(1.0, "dudley")
    c.eq("new fiber", e.get_betas(p), s)
    c.eq("gamma", e.get_gamma(), c.num("0.11"))
    # the same instance, loaded again
    f.load_from_db(1.0, "dudley")
    c.eq("gamma after reload", f.get_gamma(), c.num("0.11"))


def h_caller(c):
    """the caller's coefficients are copied"""
    np = c.np
    p, W, lam = mk(c, 4, frep=False, llo=500, lhi=2000, Wlo=1)
    f = _F(c)()
    b = c.reals("b", 2, -0.1, 0.1)
    f.generate_fiber(1.0, c.real("lf", 500, 2000), b, 1.0, gvd_units=c.choice("units", ["ps^n/m", "ps^n/km"]))
    s = f.get_betas(p)
    c.eq("caller's array untouched", b, c.reals("b", 2, -0.1, 0.1))
    b[0] = 3.0
    c.eq("later changes do not reach the fiber", f.get_betas(p), s)


def h_flat_gain(c):
    """a given gain coefficient is the same at all frequencies; no gain means none"""
    np = c.np
    p, W, lam = mk(c, 4, frep=False)
    g = c.real("gain", -2, 2)
    f = _F(c)()
    how = c.choice("how", ["generate", "file", "none", "none from file", "zeroed"])
    if how == "generate":
        c.assume(g * g > 1e-6)
        _gen(c, f, "a", g)
        want = g * np.ones(4)
    elif how == "file":
        c.assume(g * g > 1e-6)
        f.load_from_file(c.file("D.csv", [[1600.0, 3.0], [1500.0, 2.0], [1400.0, 2.5]], ","), gain=g)
        want = g * np.ones(4)
    else:
        if how == "none":
            _gen(c, f, "a")
        elif how == "zeroed":
            c.assume(g * g > 1e-6)
            _gen(c, f, "a", g)
            _gen(c, f, "b")
        else:
            f.load_from_file(c.file("D.csv", [[1600.0, 3.0], [1500.0, 2.0], [1400.0, 2.5]], ","))
        want = np.zeros(4)
    c.eq("gain", f.get_gain(p), want)
    c.eq("gain again", f.get_gain(p, output_power=3.0), want)


def h_spectrum(c):
    """a gain spectrum is scaled so that the amplified pulse has the wanted average power"""
    import os
    np = c.np
    N = 4
    F = _F(c)
    txt = """{"er": {"dispersion_format": "GVD", "dispersion_gvd_units": "ps^n/m", "dispersion_gvd_center_wavelength": 1550.0, "dispersion_data": [-0.0125],
              "gamma": 0.5, "is_gain": true, "gain_x_units": "m", "gain_x_data": XDATA, "gain_y_data": YDATA}}"""
    # knots of the spectrum (nm): the pulse's grid points among them
    lam, W = c.num("1550.0"), c.num("1.25")
    f0 = c.c * 1e-3 / lam
    cover = c.choice("spectrum covers", ["all", "high half", "low half"])
    knots = {"all": (4, 1, 0, -1, -2, -5), "high half": (6, 4, 2, 1, 0, -0.5), "low half": (-0.5, -1, -2, -3, -4, -6)}[cover]
    wl = [c.c * 1e-12 / (f0 + k / W) for k in knots]
    y = c.reals("y", 6, 0.1, 2)
    c.set_opt_bounds(0, 0.01, 3)
    d, nm = os.path.split(c.textfile("vdb.txt", txt.replace("XDATA", "[1.0e-6,1.1e-6,1.2e-6,1.3e-6]").replace("YDATA", "[1.0,2.0,2.0,1.0]")))
    f = F(nm[:-4], d)
    L = c.real("L", 0.1, 3)
    f.load_from_db(L, "er")
    f.fiberspecs["gain_x_data"] = wl
    f.fiberspecs["gain_y_data"] = y
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    fr = c.real("frep", 1, 1000)
    p = Pulse(frep_MHz=fr, n=N)
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    x = c.cplxs("A", N)
    p.set_AW(x)
    P = c.real("P", 0.01, 10)
    g = f.get_gain(p, P)
    fun, x0, args, k = c.opt_log()[0]
    # (no gain outside the measured spectrum)
    spec = c.array([y[knots.index(k)] if k in knots else 0 * y[0] for k in (-2, -1, 0, 1)], "f")
    c.eq("spectrum times one factor", g, k * spec, rtol=1e-4)
    s = c.real("s", 0.1, 2)
    q = ifourier(c, x * np.exp(s * spec * L / 2))
    a = abs2(q)
    E = sum((a[i] + a[i + 1]) / 2 for i in range(N - 1)) * W / N * 1e-12 * fr * 1e6
    o = fun(s, *args)
    c.eq("objective", o * o, (P - E)**2, rtol=1e-4)
    c.le("objective is a distance", 0.0, o)
    c.eq("pulse untouched", p.AW, x)
