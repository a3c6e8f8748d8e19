"""C18 tabulated D to Taylor coefficients"""
from props.common import *
from props.c17 import _fit_ok, _beta2, FACT


def _call(c):
    return c.mod("pynlo.media.fibers.calculators").DTabulationToBetas


def _rows(c, n):
    wl = [c.num(v) for v in ("1600.0", "1555.5", "1500.0", "1450.0", "1400.0", "1200.0", "1111.0")][:n]
    return wl, [c.real("D%d" % i, -100, 100) for i in range(n)]


def h_fit(c):
    """beta2 = -D wl^2/(2 pi c), least-squares polynomial in omega - omega0, derivatives at omega0"""
    np = c.np
    n = c.choice("rows", [3, 5] if c.tier == "quick" else [3, 5, 7])
    order = c.choice("order", [0, 1, 2] if n == 3 else [1, 2, 3, 4])
    wl, D = _rows(c, n)
    lam = c.real("lam", 500, 2500)
    form = c.choice("given", ["array", "list", "file", "file with name"])
    t = [[a, b] for a, b in zip(wl, D)]
    if form == "array":
        tab = c.array(t, "f")
        r = _call(c)(lam, tab, order, DDataIsFile=False)
        c.eq("caller's table untouched", tab, c.array(t, "f"))
        c.eq("same again", _call(c)(lam, tab, order, False), r)
    elif form == "list":
        r = _call(c)(lam, t, order, DDataIsFile=False)
    else:
        f = c.file("D.csv", [["wl", "D"]] + t, ",")
        r = _call(c)(lam, f, order) if form == "file" else _call(c)(lam, f, order, True)
    x, y = _beta2(c, wl, D, lam)
    _fit_ok(c, x, y, list(r), order, 1)


def h_exact(c):
    """a table made from Taylor coefficients gives them back"""
    np = c.np
    order = c.choice("order", [1, 2, 3])
    n = c.choice("rows", [4, 5])
    wl, _ = _rows(c, n)
    lam = c.real("lam", 1000, 2000)
    b = [c.real("b%d" % i, -10.0**(-i), 10.0**(-i)) for i in range(order + 1)]
    tab = []
    for w in wl:
        x = 2 * c.pi * c.c * 1e-3 * (1 / w - 1 / lam)
        b2 = sum(b[i] / FACT[i] * x**i for i in range(order + 1))
        tab.append([w, -2 * c.pi * c.c * 1e-3 / w**2 * b2 * 1000])
    r = _call(c)(lam, c.array(tab, "f"), order, DDataIsFile=False)
    c.eq("coefficients", r, c.array(b, "f"), rtol=1e-4)


def h_diagnostics(c):
    """the diagnostic output: omega axis, data and fit"""
    np = c.np
    wl, D = _rows(c, 4)
    order = c.choice("order", [1, 2])
    lam = c.real("lam", 1000, 2000)
    t = c.array([[a, b] for a, b in zip(wl, D)], "f")
    r, x, y, fit = _call(c)(lam, t, order, DDataIsFile=False, return_diagnostics=True)
    x_, y_ = _beta2(c, wl, D, lam)
    c.eq("omega", x, c.array(x_, "f"))
    c.eq("beta2", y, c.array(y_, "f"))
    c.eq("fit", fit, c.array([sum(r[i] / FACT[i] * q**i for i in range(order + 1)) for q in x_], "f"), rtol=1e-5)
    c.eq("same coefficients", r, _call(c)(lam, t, order, False))
