"""C14 periodic poling flips the sign of the nonlinearity exactly where it should"""
from props.common import *


def _signs(c, N, d, e, z):
    """ratio of the rates with and without poling"""
    np = c.np
    y = c.cplxs("y", 3 * N)
    a, b = np.zeros(3 * N, dtype=complex), np.zeros(3 * N, dtype=complex)
    d.deriv(z, y, a)
    e.deriv(z, y, b)
    return a, b


def _pair(c, N, L, pp):
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    (p, xp), (s, xs) = dfg_pulses(c, N, False, fixed=True)
    n, table = dfg_indices(c, N, True)
    deff = c.real("deff", 1e-12, 5e-11)
    kw = dict(disable_SPM=True, wg_mode=True, Aeff_squm=10)
    x = crystal(c, table, mode="PP", length=L, deff=deff)
    pp(x)
    y = crystal(c, table, mode="simple", length=L, deff=deff)
    return D(p, s, x, **kw), D(p, s, y, **kw)


def h_constant(c):
    """constant period: + in the first half of each period, - in the second, up to the last begun period"""
    N = 2
    m = c.choice("periods", [1, 2, 3] if c.tier == "quick" else [1, 2, 3, 5, 8])
    k = c.choice("domain", list(range(m)))
    half = c.choice("half", [0, 1])
    P = c.real("pp", 4e-6, 1e-4)
    f = c.real("f", 0.02, 0.98)
    t = c.real("t", 0.001, 0.499)
    d, e = _pair(c, N, (m - 1 + f) * P, lambda x: setattr(x, "pp", lambda z: P))
    z = (k + half * c.num("0.5") + t) * P
    a, b = _signs(c, N, d, e, z)
    c.eq("sign", a, b if half == 0 else -b)
    # order of visits does not matter (steppers go back and forth)
    a2, b2 = _signs(c, N, d, e, P * t)
    c.eq("first half", a2, b2)
    a3, b3 = _signs(c, N, d, e, z)
    c.eq("sign again", a3, a)


def h_chirped(c):
    """a period that changes along the crystal: each period starts where the one before ends"""
    N = 2
    m = c.choice("periods", [1, 2, 3])
    half = c.choice("half", [0, 1])
    t = c.real("t", 0.01, 0.99)
    P = [c.real("P%d" % i, 1e-5, 2e-5) for i in range(m)]
    f = c.real("f", 0.05, 0.95)
    start = [0]
    for q in P:
        start.append(start[-1] + q)

    def pp(z):
        """the period at the place where a period begins"""
        for i in range(m):
            if bool(z < start[i] + P[i] / 2):
                return P[i]
        return P[-1]
    d, e = _pair(c, N, start[m - 1] + f * P[m - 1], lambda x: setattr(x, "pp", pp))
    k = c.choice("domain", list(range(m)))
    z = start[k] + (half + t) * P[k] / 2
    a, b = _signs(c, N, d, e, z)
    c.eq("sign", a, b if half == 0 else -b)


def h_setters(c):
    """the ways to give a period"""
    PPLN = c.mod("pynlo.media.crystals.XTAL_PPLN").PPLN
    L = c.real("L", 1e-3, 5e-2)
    P, Q = c.real("P", 4e-6, 1e-4), c.real("Q", 4e-6, 1e-4)
    z = c.real("z", 0, 5e-2)
    x = PPLN(c.real("T", 20, 200), length=L)
    u = PPLN(25)
    kind = c.choice("kind", ["tuple", "function", "number", "chirp"])
    if kind == "tuple":
        x.set_pp((P, 3))
        want = P
    elif kind == "function":
        x.set_pp(lambda w: P + Q * w)
        want = P + Q * z
    elif kind == "number":
        x.set_pp(P)
        want = P
    else:
        x.set_pp_chirp(P, Q)
        want = P + (Q - P) * z / L
    c.eq("period", x.pp(z), want)
    c.eq("default period of another crystal", u.pp(z), 30.49e-6)
