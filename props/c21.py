"""C21 adaptive steps cover exactly the requested distance"""
from props.common import *
from props.c20 import ssfm, settings, fiber, errors


def _run(c, script, dz, L, n, e=0.001, how="forward"):
    np = c.np
    N = 2
    errors(c, script, e)
    settings(c, True, True)
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=10, llo=800, lhi=1600)
    if not c.symbolic:
        c.assume(float(abs(x).max()) > 1e-3)
    B, g = c.reals("B", N, -1, 1), c.reals("g", N, -1, 1)
    f = fiber(c, N, L, B, g)
    s = ssfm(c, dz=dz, local_error=e, disable_Raman=True, disable_self_steepening=True)
    z, AW, AT, q = s.propagate(p, f, n)
    for k in range(n):
        zz = L * (k + 1) / n
        c.eq("distance covered", AW[:, k], x * cis(c, B * zz) * np.exp(g * zz / 2), rtol=1e-5)
    c.eq("pulse out", q.AW, x * cis(c, B * L) * np.exp(g * L / 2))
    return s, p, f, x, B, g


REJECT, SHRINK, KEEP, GROW = 3, 1.5, 0.75, 0.1


def h_script(c):
    """any sequence of verdicts of the error control"""
    K = 3 if c.tier == "quick" else 5
    L = c.real("L", 0.1, 3)
    r = c.choice("first step", ["1/9", "3/10", "2"] if c.tier == "quick" else ["1/9", "1/4", "3/10", "1/2", "2"])
    script = [c.choice("verdict %d" % i, [REJECT, SHRINK, KEEP, GROW]) for i in range(K)]
    _run(c, script, L * c.num(r), L, 1)


def h_any_step(c):
    """any first step"""
    L = c.real("L", 0.1, 3)
    r = c.real("r", 0.15, 0.7)
    script = [c.choice("verdict", [REJECT, SHRINK, KEEP, GROW])] * 4
    _run(c, script, L * r, L, 1)


def h_any_error(c):
    """any values of the error estimate and the tolerance"""
    L = c.real("L", 0.1, 3)
    e = c.real("e", 1e-6, 1e-1)
    _run(c, [c.real("d%d" % i, 0, 4) for i in range(2)], L * c.num("0.2"), L, 1, e)


def h_sections(c):
    """several recorded positions; the step size carries over from section to section"""
    L = c.real("L", 0.1, 3)
    n = c.choice("steps", [2, 3])
    script = [c.choice("verdict %d" % i, [REJECT, SHRINK, KEEP, GROW]) for i in range(2)]
    _run(c, script, L * c.num(c.choice("first step", ["1/8", "3/20", "1/3"])), L, n)


def h_tiny(c):
    """a remainder that is tiny, but not nothing, is still covered exactly"""
    r = c.real("rest", 1e-14, 1e-11)
    h = c.real("h", 0.1, 1)
    L = 2 * h + r
    c.assume(r < h * 1e-6)
    _run(c, [KEEP] * 3, h, L, 1)


def h_smallest(c):
    """steps are not made smaller than the smallest step, the distance is still covered"""
    L = c.real("L", 1e-12, 9e-12)
    script = [c.choice("verdict %d" % i, [REJECT, SHRINK, KEEP, GROW]) for i in range(2)]
    _run(c, script, L * c.num("1/4"), L, 1)


def h_carry(c):
    """the next propagation with the same object covers its distance, whatever step the one before ended with"""
    np = c.np
    L = c.real("L", 0.1, 3)
    script = [c.choice("verdict %d" % i, [SHRINK, KEEP, GROW]) for i in range(2)]
    s, p, f, x, B, g = _run(c, script, L * c.num(c.choice("first step", ["1/8", "1/3"])), L, 1)
    f.length = L * c.num("3/4")
    z, AW, AT, q = s.propagate(p, f, 1)
    c.eq("second propagation", q.AW, x * cis(c, B * f.length) * np.exp(g * f.length / 2))


def h_estimate(c):
    """the error estimate is |fine - coarse| / |fine| (root sum of squares)"""
    N = 2
    settings(c, True, True)
    p, W, lam, x = mkf(c, N, Wlo=1, Whi=10, llo=800, lhi=1600)
    s = ssfm(c, dz=5.0, disable_Raman=True, disable_self_steepening=True)
    s.setup_fftw(p, fiber(c, N, 1.0, c.np.zeros(N)), None)
    a, b = c.cplxs("a", N, 1.0), c.cplxs("b", N, 1.0)
    s.Af[:] = a
    s.Ac[:] = b
    S = lambda v: sum(abs2(v))
    if c.choice("fine", ["something", "nothing"]) == "nothing":
        s.Af[:] = 0.0
        a = a * 0
        c.assume(S(b) > 1e-3)
        r = s.CalculateLocalError()
        c.true("finite", r > 0)
    else:
        c.assume(S(a) > 1e-3)
        r = s.CalculateLocalError()
        c.eq("squared", r**2 * S(a), S(a - b))
        c.true("not negative", r >= 0)
    c.eq("only read", s.Af, a)
    c.eq("only read", s.Ac, b)
