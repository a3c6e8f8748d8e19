"""C17 fiber dispersion"""
from props.common import *

FACT = [1, 1, 2, 6, 24, 120, 720]


def _fiber(c, nb, units=None, tag=""):
    F = c.mod("pynlo.media.fibers.fiber").FiberInstance
    f = F()
    b = [c.real("b%s%d" % (tag, i), -10.0**(-i), 10.0**(-i)) for i in range(nb)]
    lf = c.real("lf" + tag, 500, 2000)
    L = c.real("L" + tag, 1e-3, 100)
    kw = {} if units is None else {"gvd_units": units}
    f.generate_fiber(L, lf, b, c.real("g" + tag, 1e-4, 10), **kw)
    return f, [q * (c.num("0.001") if units == "ps^n/km" else 1) for q in b], lf


def _taylor(b, x):
    return sum(b[i] / FACT[i + 2] * x**(i + 2) for i in range(len(b)))


def _moving(c, T, N, W):
    """T(V) minus the line through its centre point with the centred-difference slope"""
    np = c.np
    V = 2 * c.pi * (np.arange(N) - N // 2) / W
    h = 2 * c.pi / W
    s = (T(h) - T(-h)) / (2 * h)
    return T(V) - T(0 * V) - s * V


def h_taylor(c):
    """Taylor coefficients about the fiber's centre wavelength"""
    np = c.np
    N = c.choice("N", [4, 6])
    nb = c.choice("terms", [1, 2, 3] if c.tier == "quick" else [1, 2, 3, 4])
    f, b, lf = _fiber(c, nb, c.choice("units", [None, "ps^n/m", "ps^n/km"]))
    p, W, lam = mk(c, N, frep=False)
    off = 2 * c.pi * c.c * 1e-3 * (1 / lam - 1 / lf)
    T = lambda V: _taylor(b, V + off)
    B = f.get_betas(p)
    c.eq("betas", B, _moving(c, T, N, W))
    c.eq("zero at the centre", B[N // 2], 0.0, atol=1e-30)
    c.eq("no slope at the centre", B[N // 2 + 1], B[N // 2 - 1])
    B[0] = 17
    c.eq("asked again", f.get_betas(p), _moving(c, T, N, W))
    c.eq("at another place", f.get_betas(p, 0.5), _moving(c, T, N, W))
    grids_ok(c, p, N, W, lam)


def h_of_z(c):
    """dispersion and nonlinearity that change along the fiber"""
    np = c.np
    N = 4
    f, b, lf = _fiber(c, 2)
    p, W, lam = mk(c, N, frep=False)
    d = c.real("d", -1, 1)
    z1, z2 = c.real("z1", 0, 1), c.real("z2", 0, 1)
    order = c.choice("order", [0, 1])
    g0, g1 = c.real("ga", 0, 1), c.real("gb", 0, 1)
    if order:
        f.set_gamma_function(lambda z: g0 + g1 * z)
    form = c.choice("returns", ["tuple", "list", "array"])
    mkf_ = {"tuple": tuple, "list": list, "array": lambda t: c.array(list(t), "f")}[form]
    f.set_dispersion_function(lambda z: mkf_([b[0] * (1 - z), b[1] + d * z]))
    if not order:
        f.set_gamma_function(lambda z: g0 + g1 * z)
    off = 2 * c.pi * c.c * 1e-3 * (1 / lam - 1 / lf)
    for z in (z1, z2, z1):
        T = lambda V: _taylor([b[0] * (1 - z), b[1] + d * z], V + off)
        c.eq("betas at z", f.get_betas(p, z), _moving(c, T, N, W))
        c.eq("gamma at z", f.get_gamma(z), g0 + g1 * z)
    T = lambda V: _taylor([b[0], b[1]], V + off)
    c.eq("betas at the start", f.get_betas(p), _moving(c, T, N, W))
    c.eq("gamma at the start", f.get_gamma(), g0)


def h_gamma(c):
    f, b, lf = _fiber(c, 1)
    g = c.real("g", 1e-4, 10)
    c.eq("gamma", f.get_gamma(), g)
    c.eq("gamma anywhere", f.get_gamma(c.real("z", 0, 1)), g)
    c.eq("length", f.length, c.real("L", 1e-3, 100))


def _fit_ok(c, x, y, betas, order, scale):
    """betas/i! are the coefficients of the least-squares polynomial: the residual is orthogonal to 1, x, x^2, ..."""
    co = [betas[i] / FACT[i] for i in range(len(betas))]
    c.same("number of coefficients", len(betas), order + 1)
    r = [sum(co[k] * xx**k for k in range(len(co))) - yy for xx, yy in zip(x, y)]
    for m in range(order + 1):
        scale = None if c.symbolic else sum(abs(yy * xx**m) + abs(q * xx**m) for q, xx, yy in zip(r, x, y)) * 1e-1
        c.eq("least squares %d" % m, sum(q * xx**m for q, xx in zip(r, x)), 0.0, scale=scale, atol=1e-12)


def _table(c, rows):
    wl = [c.num(v) for v in ("1600.0", "1550.0", "1500.0", "1450.0", "1400.0")][:rows]
    D = [c.real("D%d" % i, -100, 100) for i in range(rows)]
    return wl, D


def _beta2(c, wl, D, lam):
    """(omega - omega0 in rad/ps, beta2 in ps^2/m) of a D table in ps/nm/km"""
    x = [2 * c.pi * c.c * 1e-3 * (1 / w - 1 / lam) for w in wl]
    y = [-d * w * w / (2 * c.pi * c.c * 1e-3) * c.num("0.001") for d, w in zip(D, wl)]
    return x, y


def h_D(c):
    """tabulated D: a polynomial beta2 fitted about the pulse's centre wavelength, integrated twice"""
    np = c.np
    N = 4
    order = c.choice("order", [1, 2, 3])
    how = c.choice("given", ["file", "header", "function", "db"])
    F = c.mod("pynlo.media.fibers.fiber").FiberInstance
    p, W, lam = mk(c, N, frep=False, llo=1000, lhi=2000)
    wl, D = _table(c, 5)
    z = 0
    if how in ("file", "header"):
        f = F()
        rows = ([["wl", "D"]] if how == "header" else []) + [[a, b] for a, b in zip(wl, D)]
        f.load_from_file(c.file("D.csv", rows, ","), length=c.real("L", 1e-3, 10), gamma_W_m=c.real("g", 0, 1), poly_order=order,
                         **({"skiprows": 1} if how == "header" else {}))
        c.eq("gamma", f.get_gamma(), c.real("g", 0, 1))
        c.eq("length", f.length, c.real("L", 1e-3, 10))
        c.eq("no gain", f.get_gain(p), np.zeros(N))
    elif how == "db":
        import os
        txt = """{"x": {"dispersion_format": "D", "dispersion_x_units": "nm", "dispersion_y_units": "ps/nm/km", "dispersion_x_data":
                 [1600.0, 1550.0, 1500.0, 1450.0, 1400.0], "dispersion_y_data": [10.0, 20.5, 17.25, -3.5, -30.0], "gamma": 0.25, "is_gain": false}}"""
        D = [c.num(v) for v in ("10.0", "20.5", "17.25", "-3.5", "-30.0")]
        d, b = os.path.split(c.textfile("vdb.txt", txt))
        f = F(b[:-4], d)
        f.load_from_db(c.real("L", 1e-3, 10), "x", poly_order=order)
        c.eq("gamma", f.get_gamma(), c.num("0.25"))
        c.eq("length", f.length, c.real("L", 1e-3, 10))
    else:
        f = F()
        f.generate_fiber(1.0, 1550.0, [0.0], 1.0)
        f.poly_order = order
        s = c.real("s", -1, 1)
        z = c.real("z", 0, 1)
        D0 = D
        f.set_dispersion_function(lambda q: (c.array(list(wl), "f"), c.array([v * (1 + s * q) for v in D0], "f")), "D")
        D = [v * (1 + s * z) for v in D]
    B = f.get_betas(p, z)
    x, y = _beta2(c, wl, D, lam)
    # B''(V) = beta2(V): recover the coefficients from B itself
    V = p.V_THz
    betas = c.mod("pynlo.media.fibers.calculators").DTabulationToBetas(lam, c.array([[a, b] for a, b in zip(wl, D)], "f"), order, DDataIsFile=False)
    _fit_ok(c, x, y, betas, order, 1)
    c.eq("betas", B, _taylor(list(betas), V))
    c.eq("asked again", f.get_betas(p, z), B)
    c.eq("zero at the centre", B[N // 2], 0.0, atol=1e-30)


def h_index(c):
    """a table of effective indices: beta = 2 pi n/wl (here one that is cubic in frequency), minus offset and slope"""
    np = c.np
    N = 4
    F = c.mod("pynlo.media.fibers.fiber").FiberInstance
    f = F()
    f.generate_fiber(1.0, 1550.0, [0.0], 1.0)
    p, W, lam = mk(c, N, frep=False, Wlo=0.5, llo=1450, lhi=1550)
    wl = [c.num(v) for v in ("1300.0", "1400.0", "1500.0", "1600.0", "1800.0", "2000.0")]
    om = [2 * c.pi * c.c * 1e-3 / v for v in wl]
    q = [c.real("q0", 1e6, 1e7), c.real("q1", 1e3, 1e4), c.real("q2", -10, 10), c.real("q3", -0.1, 0.1)]
    s = c.real("s", -1, 1)
    z = c.real("z", 0, 1)
    beta = lambda o: q[0] + q[1] * o + q[2] * (1 + s * z) * o**2 + q[3] * o**3

    def table(zz):
        return c.array(list(wl), "f"), c.array([(q[0] + q[1] * o + q[2] * (1 + s * zz) * o**2 + q[3] * o**3) * v * 1e-9 / (2 * c.pi) for o, v in zip(om, wl)], "f")
    f.set_dispersion_function(table, "n")
    o0 = 2 * c.pi * c.c * 1e-3 / lam
    B = f.get_betas(p, z)
    c.eq("betas", B, _moving(c, lambda V: beta(o0 + V), N, W), atol=1e-3)


def h_beta2(c):
    """second derivative on the grid, and D"""
    np = c.np
    N = c.choice("N", [4, 6])
    f, b, lf = _fiber(c, c.choice("terms", [1, 2, 3]))
    p, W, lam = mk(c, N, frep=False, llo=500, lhi=2000, Wlo=1)
    off = 2 * c.pi * c.c * 1e-3 * (1 / lam - 1 / lf)
    h = 2 * c.pi / W
    T = lambda V: _taylor(b, V + off)
    V = 2 * c.pi * (np.arange(N) - N // 2) / W
    d2 = (T(V + h) - 2 * T(V) + T(V - h)) / h**2
    want = c.array([d2[min(max(k, 1), N - 2)] for k in range(N)], "f")
    c.eq("beta2", f.Beta2(p), want)
    c.eq("D", f.Beta2_to_D(p) * p.wl_nm**2, -2 * c.pi * c.c * 1e-3 * want * 1000)


def h_db(c):
    """fibers of the data base"""
    import os
    np = c.np
    N = 4
    F = c.mod("pynlo.media.fibers.fiber").FiberInstance
    p, W, lam = mk(c, N, frep=False, llo=500, lhi=2000, Wlo=1)
    which = c.choice("fiber", ["built-in", "m", "km"])
    if which == "built-in":
        f = F()
        f.load_from_db(c.real("L", 1e-3, 10), "dudley")
        b = [c.num(v) for v in ("-11.83e-3", "0.081038e-3", "-9.5205e-08", "2.0737e-10", "-5.3943e-13", "1.3486e-15", "-2.5495e-18", "3.0524e-21", "-1.714e-24")]
        g, lf = c.num("0.11"), 835
    else:
        txt = """{"a": {"dispersion_format": "GVD", "dispersion_gvd_units": "ps^n/UNIT", "dispersion_gvd_center_wavelength": 1250.0,
                 "dispersion_data": [-12.5, 0.25], "gamma": 0.5, "is_gain": false}}""".replace("UNIT", which)
        d, nm = os.path.split(c.textfile("vdb.txt", txt))
        f = F(nm[:-4], d)
        f.load_from_db(c.real("L", 1e-3, 10), "a")
        k = 1 if which == "m" else c.num("0.001")
        b = [c.num("-12.5") * k, c.num("0.25") * k]
        g, lf = c.num("0.5"), 1250
    off = 2 * c.pi * c.c * 1e-3 * (1 / lam - c.num("1.0") / lf)
    fact = FACT + [5040, 40320, 362880, 3628800]
    T = lambda V: sum(b[i] / fact[i + 2] * (V + off)**(i + 2) for i in range(len(b)))
    c.eq("betas", f.get_betas(p), _moving(c, T, N, W))
    c.eq("gamma", f.get_gamma(), g)
    c.eq("length", f.length, c.real("L", 1e-3, 10))
    c.eq("no gain", f.get_gain(p), np.zeros(N))
    # a second fiber from the same data base
    e = F() if which == "built-in" else F(nm[:-4], d)
    e.load_from_db(2.0, "dudley" if which == "built-in" else "a")
    c.eq("second fiber", e.get_betas(p), f.get_betas(p))


def h_long(c):
    """more points"""
    N = 64
    f, b, lf = _fiber(c, 3)
    p, W, lam = mk(c, N, frep=False)
    off = 2 * c.pi * c.c * 1e-3 * (1 / lam - 1 / lf)
    c.eq("betas", f.get_betas(p), _moving(c, lambda V: _taylor(b, V + off), N, W))


def h_other_pulse(c):
    """a fiber used with a pulse of another colour, window or number of points before"""
    np = c.np
    N = 4
    how = c.choice("given", ["coefficients", "D", "index"])
    F = c.mod("pynlo.media.fibers.fiber").FiberInstance
    p, W, lam = mk(c, N, frep=False, Wlo=0.5, llo=1450, lhi=1550)

    def make():
        if how == "coefficients":
            return _fiber(c, 2)[0]
        f = F()
        if how == "D":
            wl, D = _table(c, 5)
            f.load_from_file(c.file("D.csv", [[a, b] for a, b in zip(wl, D)], ","), length=1.0, gamma_W_m=1.0, poly_order=1)
        else:
            f.generate_fiber(1.0, 1550.0, [0.0], 1.0)
            wl = [c.num(v) for v in ("1300.0", "1400.0", "1500.0", "1600.0", "1800.0", "2000.0")]
            om = [2 * c.pi * c.c * 1e-3 / v for v in wl]
            q = [c.real("q0", 1e6, 1e7), c.real("q1", 1e3, 1e4), c.real("q2", -10, 10), c.real("q3", -0.1, 0.1)]
            n = c.array([(q[0] + q[1] * o + q[2] * o**2 + q[3] * o**3) * v * 1e-9 / (2 * c.pi) for o, v in zip(om, wl)], "f")
            f.set_dispersion_function(lambda z: (c.array(list(wl), "f"), n), "n")
        return f
    f = make()
    M = c.choice("points", [4, 6]) if how != "index" else 4
    # (the index table is looked up in known intervals)
    k = dict(Wlo=2, Whi=4, llo=1540, lhi=1550) if how == "index" else dict(Wlo=0.5, llo=1450, lhi=1550)
    o, W2, lam2 = mk(c, M, "o", frep=False, **k)
    a = f.get_betas(o)
    B = f.get_betas(p)
    c.eq("betas", B, make().get_betas(p), atol=1e-3 if how == "index" else 0)
    if how == "index":
        return
    c.eq("other pulse again", f.get_betas(o), a)
    f.get_gain(o), f.get_gain(p)
    o.set_center_wavelength_nm(lam)
    o.set_time_window_ps(W)
    o.set_NPTS(N)
    c.eq("changed pulse", f.get_betas(o), B)
