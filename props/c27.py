"""C27 control of the step size"""
from props.common import *

OPTS = {"*": {"val_rtol": 1e-6}}


def scripted(c, errs, h_seen=None, x0=None):
    """a stepper whose error estimates are given"""
    D = c.mod("pynlo.util.ode_solve.dopr853").StepperDopr853
    it = iter(errs)

    class S(D):
        def error(self, h):
            if h_seen is not None:
                h_seen.append(h)
            return next(it)
    y = c.array([1.0], "f")
    return S(y, c.array([0.5], "f"), c.real("x0", 1, 2) if x0 is None else x0, 1e-3, 1e-3, False)


class Rhs(object):
    def deriv(self, x, y, dydx):
        dydx[:] = 0.5


def grow(c, i, ok):
    """(error, .9 error^(-1/8)): the estimate is r^-8, r unknown"""
    if ok:
        k = c.choice("err %d" % i, ["zero", "tiny", "small", "edge"])
        if k == "zero":
            return 0.0, 6.0
        lo, hi = {"tiny": (7.0, 9.0), "small": (1.2, 6.0), "edge": (1.0, 1.1)}[k]
        r = c.real("r%d" % i, lo, hi)
        f = r * 0.9
        return r**-8, (6.0 if k == "tiny" else f)
    k = c.choice("bad %d" % i, ["bad", "huge"])
    lo, hi = {"bad": (0.4, 0.99), "huge": (0.1, 0.36)}[k]
    r = c.real("q%d" % i, lo, hi)
    return r**-8, (0.333 if k == "huge" else r * 0.9)


def h_control(c):
    """rejected: shrink; accepted: next step by the factor .9 err^(-1/8) within [.333, 6], not larger than the last after a rejection"""
    h = c.real("h", 0.1, 1) * c.choice("direction", [1, -1])
    K = c.choice("rejections", [0, 1, 2])
    errs, want = [], h
    for i in range(K):
        e, f = grow(c, i, False)
        errs.append(e)
        want = want * f
    e, f = grow(c, K, True)
    errs.append(e)
    seen = []
    s = scripted(c, errs, seen)
    x0 = s.x * 1.0
    s.step(h, Rhs())
    c.same("estimates used", len(seen), K + 1)
    c.eq("step", s.hdid, want)
    c.eq("x", s.x, x0 + want)
    c.eq("y", s.y[0], 1 + 0.5 * want, rtol=1e-9, tol=1e-12)
    nxt = f
    if K:
        nxt = f if bool(f <= 1.0) else 1.0
    c.eq("next", s.hnext, want * nxt)


def h_forget(c):
    """a rejection only limits the growth of the step right after it"""
    h = c.real("h", 0.1, 1)
    r = c.real("r", 1.2, 6.0)
    q = c.real("q", 0.4, 0.99)
    s = scripted(c, [q**-8, r**-8, r**-8])
    s.step(h, Rhs())
    h1 = s.hnext
    c.eq("after a rejection", h1, h * q * 0.9)
    s.step(h1, Rhs())
    c.eq("afterwards", s.hnext, h1 * r * 0.9)


def h_isolated(c):
    """what one integration experiences does not influence another"""
    h = c.real("h", 0.1, 1)
    r = c.real("r", 1.2, 6.0)
    q = c.real("q", 0.4, 0.99)
    a = scripted(c, [q**-8])
    b = scripted(c, [r**-8])
    try:
        a.step(h, Rhs())           # (runs out of estimates after a rejection)
    except (StopIteration, RuntimeError):
        pass
    order = c.choice("created", ["before", "after"])
    if order == "after":
        b = scripted(c, [r**-8])
    b.step(h, Rhs())
    c.eq("step", b.hdid, h)
    c.eq("next", b.hnext, h * r * 0.9)


def h_underflow(c):
    """steps that become too small to change x are refused, so are steps that are no numbers"""
    np = c.np
    h = 1e-15
    s = scripted(c, [1e30] * 50)
    c.raises("underflow", OverflowError, lambda: s.step(h, Rhs()))


def h_small(c):
    """small steps are no underflow where they still change x: near the origin they may be as small as they like"""
    u = c.choice("size", [1e-14, 1e-30, 1e3])
    h = c.real("h", 0.1, 1) * u * c.choice("direction", [1, -1])
    w = c.choice("x0", ["origin", "same size", "larger"])
    x0 = 0.0 if w == "origin" else c.real("at", 1, 2) * u * (1 if w == "same size" else 1e10)
    K = c.choice("rejections", [1, 2])
    errs, f = [], 1.0
    for i in range(K):
        q = c.real("q%d" % i, 0.4, 0.99)
        errs.append(q**-8)
        f = f * q * 0.9
    errs.append(c.real("r", 1.2, 6.0)**-8)
    s = scripted(c, errs, x0=x0 * 1.0)
    s.step(h, Rhs())
    c.eq("step", s.hdid / u, h / u * f)
    c.eq("x", s.x / u, (x0 + h * f) / u, rtol=1e-9)
