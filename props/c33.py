"""C33 the built-in crystals have the published indices and constants"""
from props.common import *

GAYER = dict(a1="5.756", a2="0.0983", a3="0.2020", a4="189.32", a5="12.52", a6="1.32e-2", b1="2.860e-6", b2="4.700e-8", b3="6.113e-8", b4="1.516e-4", b5="0")
DENG = dict(a1="5.39121", a2="0.100473", a3="0.20692", a4="100", a5="11.34927", a6="1.544e-2", b1="4.96827e-7", b2="3.862e-8", b3="-0.89e-8", b4="2.657e-5", b5="9.62119e-10")
# Roberts (1996): A + B/(wl^a - C) + F/(wl^b - G) [+ J/(wl^c - K)] + D/(1 - E/wl^d)
SE2 = {"o": dict(A="6.849065", B="0.417863", C="0.178080", a="1.970203", F="0.000442", G="0.889242", b="0.340086", D="1.209374", E="915.345", d="1.921292"),
       "e": dict(A="6.675232", B="0.436579", C="0.229775", a="1.893694", F="0.012063", G="0.213957", b="4.269152", D="3.252722", E="3129.32", d="2.047204")}
S2 = {"o": dict(A="5.814100", B="0.0867547", C="0.0356502", a="3.156983", F="0.0821721", G="-0.315646", b="4.430430", J="0.506566", K="-6.582197", c="6.604280", D="176380.0", E="112586195.0", d="2.225043"),
      "e": dict(A="5.530050", B="0.0510941", C="0.141109", a="2.359877", F="0.195314", G="-0.0910735", b="2.566664", D="4253.78", E="4304924.0", d="2.383834")}


def h_ppln(c):
    """lithium niobate, extraordinary axis: Gayer et al. (5% MgO) and Deng et al."""
    np = c.np
    P = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN
    T = c.real("T", -20, 250)
    wl = c.real("wl", 700, 4500)
    how = c.choice("how", ["new", "load Deng", "load Gayer", "set_T", "Deng set_T"])
    if how == "new":
        x = P(T)
    elif how == "set_T":
        x = P(20.0)
        x.set_T(T)
    elif how == "Deng set_T":
        x = P(20.0)
        x.load(35.0, "Deng")
        x.set_T(T)
    else:
        x = P(20.0)
        x.load(T, "Deng" if "Deng" in how else "Gayer_5pctMg")
    s = {k: c.num(v) for k, v in (DENG if "Deng" in how else GAYER).items()}
    f = (T - c.num("24.5")) * (T + c.num("570.82"))
    u = wl * c.num("1e-3")
    want = s["a1"] + s["b1"] * f + (s["a2"] + s["b2"] * f) / (u**2 - (s["a3"] + s["b3"] * f)**2) \
        + (s["a4"] + s["b4"] * f) / (u**2 - s["a5"]**2) - (s["a6"] + s["b5"] * f) * u**2
    c.eq("n^2", x.n(wl)**2, want)
    c.eq("T", x.T, T)
    c.true("n > 0", x.n(wl) > 0)
    p, W, lam = mk(c, 2, Wlo=5, llo=800, lhi=4000)
    c.eq("on the pulse's grid", x.get_pulse_n(p), x.n(p.wl_nm))


def roberts(c, s, u):
    np = c.np
    g = lambda k: c.num(s[k])
    r = g("A") + g("B") / (np.power(u, g("a")) - g("C")) + g("F") / (np.power(u, g("b")) - g("G")) + g("D") / (1 - g("E") / np.power(u, g("d")))
    if "J" in s:
        r = r + g("J") / (np.power(u, g("c")) - g("K"))
    return r


def h_uniaxial(c):
    """silver gallium selenide and sulfide, both axes and the mixed index"""
    np = c.np
    which = c.choice("crystal", ["XTAL_AgGaSe2", "XTAL_AgGaS"])
    tab = SE2 if which == "XTAL_AgGaSe2" else S2
    A = c.mod("pynlo.media.crystals." + which).AgGaSe2
    th = c.real("theta", 0.01, 1.5)
    x = A(th) if c.choice("how", ["new", "set"]) == "new" else A()
    x.set_theta(th)
    wl = c.real("wl", 1000, 12000)
    u = wl * c.num("1e-3")
    o, e = roberts(c, tab["o"], u), roberts(c, tab["e"], u)
    c.eq("no^2", x.n(wl, "o")**2, o)
    c.eq("ne^2", x.n(wl, "e")**2, e)
    c.eq("mixed", (1 / x.n(wl))**2, np.sin(th)**2 / e + np.cos(th)**2 / o)


def h_constants(c):
    """nonlinear coefficients, damage threshold, default period and length"""
    which = c.choice("crystal", ["PPLN", "AgGaSe2", "AgGaS"])
    n = c.num
    if which == "PPLN":
        x = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN(c.real("T", 20, 200))
        c.same("mode", x.mode, "PP")
        c.eq("deff", x.deff, n("14.9e-12"))
        c.eq("n2", x.n2, n("3e-19"))
        c.eq("damage threshold", x.damage_threshold_mks, n("4e13"))
        z = c.real("z", 0, 1)
        c.eq("period", x.pp(z), n("30.49e-6"))
        x.load(c.real("T2", 20, 200), "Deng")
        c.eq("period", x.pp(z), n("30.49e-6"))
        c.eq("deff", x.deff, n("14.9e-12"))
    else:
        x = c.mod("pynlo.media.crystals.XTAL_" + which).AgGaSe2()
        c.same("mode", x.mode, "BPM")
        c.eq("deff", x.deff, n("28.5e-12") if which == "AgGaSe2" else n("8.69e-12"))
        c.eq("n2", x.n2, n("35e-19") if which == "AgGaSe2" else n("0"))
        c.eq("theta", x.theta, 0)
        c.eq("damage threshold", x.damage_threshold_mks, n("1e13"))
    c.eq("length", x.length_mks, 1)
    L = c.real("L", 1e-4, 0.1)
    y = type(x)(1.0, length=L)
    c.eq("length in m", y.length_mks, L)
    c.eq("length in nm", y.length_nm, L * n("1e9"))
