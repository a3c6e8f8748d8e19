"""C25 the ODE driver"""
from props.common import *

OPTS = {"*": {"val_rtol": 1e-6}}


def ode(c):
    return c.mod("pynlo.util.ode_solve.steppers")


class Rhs(object):
    def deriv(self, x, y, dydx):
        dydx[:] = 1.0


def stepper(c, script, log, f, complex_=False, check=True):
    """a stepper that follows the script: entries (fraction of the step it manages, next step it suggests)"""
    Base = ode(c).StepperBase
    np = c.np

    class S(Base):
        def step(self, htry, RHS):
            frac, nxt = script(len(log), self.x, htry)
            log.append((self.x, htry))
            self.xold = self.x
            self.hdid = htry * frac if frac is not None else htry
            self.x = self.x + self.hdid
            self.hnext = nxt
            self.y = c.array([f(self.x)], "c" if complex_ else "f")

        def dense_out(self, x, h):
            # inside the last step
            if check:
                c.true("dense output inside the step", (x - self.xold) * (x - self.x) <= 1e-9 * h * h)
                c.true("step given to dense output", abs(h - self.x + self.xold) <= 1e-12)
            return c.array([f(x)], "c" if complex_ else "f")
    return S


def ends(c, direction=None):
    """start and end, forwards or backwards"""
    x1 = c.real("x1", -2, 2)
    L = c.real("L", 0.5, 2)
    d = c.choice("direction", [1, -1]) if direction is None else direction
    return x1, L, d


def h_dense(c):
    """values at the requested positions, the first and the last included, whatever the steps are"""
    np = c.np
    x1, L, d = ends(c)
    x2 = x1 + L * d
    n = c.choice("saves", [1, 2] if c.tier == "quick" else [1, 2, 3, 5])
    K = 2 if c.tier == "quick" else 3
    steps = [c.real("h%d" % i, 0.1, 3) for i in range(K)]
    log = []

    def script(i, x, h):
        return None, d * (steps[i + 1] if i + 1 < K else 100.0)
    a, b = c.real("a", -1, 1), c.real("b", -1, 1)
    f = lambda x: a + b * x
    out = ode(c).Output(n)
    y0 = c.array([f(x1)], "f")
    # (the sign of the first step is that of the integration, whatever is given)
    h1 = steps[0] * (c.choice("sign", [1, -1]) if n == 1 else 1)
    o = ode(c).ODEint(y0, x1, x2, 1e-6, 1e-6, h1, 0.0, out, stepper(c, script, log, f), Rhs())
    o.integrate()
    c.same("points", out.count, n + 1)
    c.eq("x", out.xsave[:n + 1], x1 + (x2 - x1) * np.arange(n + 1) / n, atol=1e-12)
    c.eq("y", out.ysave[:n + 1, 0], a + b * (x1 + (x2 - x1) * np.arange(n + 1) / n), atol=1e-12)
    c.eq("end", o.s.x, x2)
    c.eq("solution at the end", y0[0], f(x2))
    c.eq("first step", log[0][1] * d, np.minimum(steps[0], L) if bool(abs(steps[0] - L) > 1e-3) else log[0][1] * d)
    for x, h in log:
        c.true("never beyond the end", (x + h - x2) * d <= 1e-9)


def h_steps(c):
    """without dense output every step is saved; the suggested step is what is tried next"""
    np = c.np
    x1, L, d = ends(c)
    x2 = x1 + L * d
    K = 3
    log = []
    fr = [c.choice("part %d" % i, [1.0, 0.5]) for i in range(2)]
    st = [c.real("h%d" % i, 0.02, 0.1) for i in range(K)]

    def script(i, x, h):
        return (fr[i] if i < 2 else None), d * (st[i + 1] if i + 1 < K else 100.0)
    f = lambda x: 3 * x + 1
    save = c.choice("save", [True, False])
    out = ode(c).Output(0) if save else ode(c).Output()
    y0 = c.array([f(x1)], "f")
    o = ode(c).ODEint(y0, x1, x2, 1e-6, 1e-6, st[0], 0.0, out, stepper(c, script, log, f), Rhs(), dense=False)
    o.integrate()
    x = [x1]
    for i in range(K):
        x.append(x[-1] + d * st[i] * (fr[i] if i < 2 else 1.0))
    x.append(x2)
    c.same("steps", len(log), 4)
    for i in range(4):
        c.eq("from", log[i][0], x[i])
        c.eq("tried", log[i][1], d * st[i] if i < 3 else x2 - x[3])
    c.eq("solution at the end", y0[0], f(x2))
    bad = sum(1 for v in fr if v != 1.0)
    c.same("good and bad steps", (o.nok, o.nbad), (4 - bad, bad))
    if save:
        c.same("points", out.count, 5)
        c.eq("x", out.xsave[:5], c.array(x, "f"))
        c.eq("y", out.ysave[:5, 0], c.array([f(v) for v in x], "f"))
    else:
        c.same("nothing saved", out.count, 0)


def h_many(c):
    """more points than room was made for"""
    np = c.np
    L = c.real("L", 0.5, 2)
    n = c.choice("saves", [499, 500, 1003])
    f = lambda x: 2 - x
    log = []
    out = ode(c).Output(n)
    y0 = c.array([f(0 * L)], "f")
    o = ode(c).ODEint(y0, 0.0, L, 1e-6, 1e-6, L, 0.0, out, stepper(c, lambda i, x, h: (None, 1.0), log, f, check=False), Rhs())
    o.integrate()
    c.same("points", out.count, n + 1)
    c.eq("x", out.xsave[:n + 1], L * np.arange(n + 1) / n, atol=1e-12)
    c.eq("y", out.ysave[:n + 1, 0], 2 - L * np.arange(n + 1) / n, atol=1e-12)


def h_two(c):
    """complex systems; two outputs and integrations do not disturb each other; the given array gets the solution"""
    np = c.np
    x1, L, d = ends(c)
    x2 = x1 + L * d
    outs, sols = [], []
    for k in range(2):
        f = (lambda x: (1 + 2j) * x) if k == 0 else (lambda x: x - 1j)
        out = ode(c).Output(2)
        y0 = c.array([f(x1)], "c")
        o = ode(c).ODEint(y0, x1, x2, 1e-6, 1e-6, L, 0.0, out, stepper(c, lambda i, x, h: (None, d * 1.0), [], f, True), Rhs())
        outs.append((out, o, y0, f))
    for out, o, y0, f in outs:
        o.integrate()
    xs = c.array([x1, x1 + L * d / 2, x2], "f")
    for out, o, y0, f in outs:
        c.same("points", out.count, 3)
        c.eq("x", out.xsave[:3], xs, atol=1e-12)
        c.eq("y", out.ysave[:3, 0], f(xs), atol=1e-12)
        c.eq("end", y0[0], f(x2))


def h_errors(c):
    """steps below the minimum are refused; dense output needs an Output that has it"""
    np = c.np
    x1, L, d = ends(c)
    x2 = x1 + L * d
    f = lambda x: x + 0.0
    hmin = c.real("hmin", 0.01, 0.1)
    k = c.choice("next step", [0.5, 1.5])
    log = []

    def script(i, x, h):
        return None, d * (hmin * k if i == 0 else 100.0)
    y0 = c.array([f(x1)], "f")
    o = ode(c).ODEint(y0, x1, x2, 1e-6, 1e-6, L / 2, hmin, ode(c).Output(1), stepper(c, script, log, f), Rhs())
    if k < 1:
        c.raises("too small", RuntimeError, o.integrate)
        c.same("steps", len(log), 1)
    else:
        o.integrate()
        c.eq("end", y0[0], x2)
        c.same("steps", len(log), 3)
    for out in (ode(c).Output(), ode(c).Output(0)):
        o = ode(c).ODEint(y0, x1, x2, 1e-6, 1e-6, L / 2, hmin, out, stepper(c, script, [], f), Rhs())
        c.raises("no dense output", AttributeError, o.integrate)
