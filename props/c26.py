"""C26 the Runge-Kutta method (Dormand-Prince 8(5,3))"""
from props.common import *
from math import factorial

OPTS = {"*": {"val_rtol": 1e-6}}


class Rhs(object):
    def __init__(self, f):
        self.f = f

    def deriv(self, x, y, dydx):
        v = self.f(x, y)
        for i in range(len(v)):
            dydx[i] = v[i]


def start(c, x0, y0, f, kind="f", dense=True, err=0.5, tol=1e-3):
    """a stepper at x0 that accepts every step"""
    D = c.mod("pynlo.util.ode_solve.dopr853").StepperDopr853

    class S(D):
        def error(self, h):
            return err
    y = c.array(y0, kind)
    d = c.array(list(f(x0, y)), kind)
    return (S if err is not None else D)(y, d, x0, tol, tol, dense), Rhs(f)


def h_quad(c):
    """right-hand sides that are polynomials in x of degree 7 at most are integrated exactly, forwards and backwards"""
    x0, h = c.real("x0", -1, 1), c.real("h", 0.1, 1) * c.choice("direction", [1, -1])
    a = c.reals("a", 8, -1, 1)
    y0 = c.real("y0", -1, 1)
    f = lambda x, y: [sum(a[p] * x**p for p in range(8))]
    s, r = start(c, x0, [y0], f, dense=False)
    s.step(h, r)
    c.eq("y", s.y[0], y0 + sum(a[p] * ((x0 + h)**(p + 1) - x0**(p + 1)) / (p + 1) for p in range(8)), tol=1e-11)
    c.eq("x", s.x, x0 + h)
    c.eq("from", s.xold, x0)
    c.eq("step", s.hdid, h)
    c.eq("derivative there", s.dydx[0], f(x0 + h, None)[0], tol=1e-12)


def h_dense(c):
    """in between: exact for degree 6 at most, and the end points are those of the step"""
    x0, h = c.real("x0", -1, 1), c.real("h", 0.1, 1) * c.choice("direction", [1, -1])
    a = c.reals("a", 7, -1, 1)
    y0 = c.real("y0", -1, 1)
    f = lambda x, y: [sum(a[p] * x**p for p in range(7))]
    s, r = start(c, x0, [y0], f)
    s.step(h, r)
    t = c.real("t", 0, 1)
    F = lambda x: y0 + sum(a[p] * (x**(p + 1) - x0**(p + 1)) / (p + 1) for p in range(7))
    c.eq("inside", s.dense_out(x0 + t * h, h)[0], F(x0 + t * h), tol=1e-9)
    c.eq("start", s.dense_out(x0, h)[0], y0)
    c.eq("end", s.dense_out(x0 + h, h)[0], s.y[0], tol=1e-13)


def h_linear(c):
    """y' = a y + b with complex a agrees with the solution through eighth order (seventh in between)"""
    n = c.choice("direction", [1, -1])
    order = c.choice("order", [8, 7])
    h = c.series("h", order, 0.5, 1)
    a, b = c.cplx("a", 0.2), c.cplx("b", 0.2)
    y0 = c.num("0.5") + 1j * c.num("0.75")
    f = lambda x, y: [a * y[0] + b]
    s, r = start(c, 0.0, [y0], f, "c")
    H = h * n
    s.step(H, r)
    co = [y0]
    m = order if c.symbolic else 14
    for k in range(m):
        co.append((a * co[-1] + (b if k == 0 else 0)) / (k + 1))
    val = lambda u: sum(co[k] * u**k for k in range(m + 1))
    atol = {} if c.symbolic else dict(rtol=0, atol=1e-8)
    c.eq("y", s.y[0], val(H), tol=1e-10, **atol)
    if order == 7:
        t = c.real("t", 0, 1)
        c.eq("inside", s.dense_out(t * H, H)[0], val(t * H), tol=1e-10, **atol)


def h_nonlinear(c):
    """a nonlinear, x-dependent system of two equations: eighth order"""
    np = c.np
    order = 8
    h = c.series("h", order, 0.5, 1)
    a, b = c.real("a", -0.2, 0.2), c.real("b", -0.2, 0.2)
    q = c.num("0.1")
    f = lambda x, y: [a * y[1] + q * y[0] * y[1] + b * x * y[0], b * y[0] * y[0] - q * y[1] + a * q * x]
    y0 = [c.num("0.5"), c.num("-0.75")]
    s, r = start(c, 0.0, y0, f, dense=False)
    s.step(h, r)
    Y = [[y0[0]], [y0[1]]]
    m = order if c.symbolic else 14
    for k in range(m):
        cv = lambda i, j: sum(Y[i][l] * Y[j][k - l] for l in range(k + 1))
        d0 = a * Y[1][k] + q * cv(0, 1) + (b * Y[0][k - 1] if k else 0)
        d1 = b * cv(0, 0) - q * Y[1][k] + (a * q if k == 1 else 0)
        Y[0].append(d0 / (k + 1))
        Y[1].append(d1 / (k + 1))
    for i in range(2):
        c.eq("y", s.y[i], sum(Y[i][k] * h**k for k in range(m + 1)), tol=1e-11, **({} if c.symbolic else dict(rtol=0, atol=1e-9)))


def h_estimate(c):
    """the error estimate is nothing for solutions of degree 5 at most"""
    x0, h = c.real("x0", -1, 1), c.real("h", 0.1, 1) * c.choice("direction", [1, -1])
    a = c.reals("a", 5, -1, 1)
    y0 = c.real("y0", -1, 1)
    f = lambda x, y: [sum(a[p] * x**p for p in range(5))]
    s, r = start(c, x0, [y0], f, dense=False)
    s.step(h, r)
    c.eq("fifth order", s.yerr2[0], 0.0, tol=1e-12, atol=1e-9)
    s, r = start(c, x0, [y0], lambda x, y: [sum(a[p] * x**p for p in range(3))], dense=False)
    s.step(h, r)
    c.eq("third order", s.yerr[0], 0.0, tol=1e-12, atol=1e-9)


def h_scale(c):
    """the estimate is h err5^2/sqrt(err5^2 + 0.01 err3^2), root mean square over the components, in units of atol + rtol max(|y|, |y new|)"""
    np = c.np
    n = 2
    kind = c.choice("kind", ["f", "c"])
    new = c.reals if kind == "f" else None
    v = lambda nm: c.reals(nm, n, -1, 1) if kind == "f" else c.cplxs(nm, n, 1.0)
    y, yo, e5, e3 = v("y"), v("yout"), v("e5"), v("e3")
    h = c.real("h", 0.1, 1) * c.choice("direction", [1, -1])
    atol, rtol = c.real("atol", 0.1, 1), c.real("rtol", 0.1, 1)
    D = c.mod("pynlo.util.ode_solve.dopr853").StepperDopr853
    s = D(y, y * 0, 0.0, atol, rtol, False)
    s.yout[:] = yo
    s.yerr[:] = e3
    s.yerr2[:] = e5
    r = s.error(h)
    A = lambda x: (x * x.conjugate()).real
    sk = []
    for i in range(n):
        p, q = A(y[i]), A(yo[i])
        sk.append(atol + rtol * np.sqrt(p if bool(p >= q) else q))
    E5 = sum(A(e5[i]) / sk[i]**2 for i in range(n))
    E3 = sum(A(e3[i]) / sk[i]**2 for i in range(n))
    c.assume(E5 + E3 > 0.001)
    c.eq("squared", r**2 * (E5 + E3 / 100) * n, h**2 * E5**2)
    c.true("not negative", r >= 0)


def h_constant(c):
    """constant solutions: no error, the step is accepted and the next one is the largest allowed"""
    h = c.real("h", 0.1, 1) * c.choice("direction", [1, -1])
    y0 = c.reals("y0", 2, -1, 1)
    tol = c.real("tol", 1e-6, 1)
    s, r = start(c, 0.5, list(y0), lambda x, y: [0.0, 0.0], err=None, tol=tol)
    s.step(h, r)
    c.eq("y", s.y, y0)
    c.eq("x", s.x, 0.5 + h)
    c.eq("next", s.hnext, 6 * h)
    c.eq("inside", s.dense_out(0.5 + h / 3, h), y0)


def h_driver(c):
    """several steps under the driver, rejections included: exact for degree 6 at most, at every saved position"""
    np = c.np
    O = c.mod("pynlo.util.ode_solve.steppers")
    D = c.mod("pynlo.util.ode_solve.dopr853").StepperDopr853
    K = c.choice("rejections", [0, 1])
    errs = iter([1e9 if i < K else 1.0 for i in range(100)])

    class S(D):
        def error(self, h):
            return next(errs)
    d = c.choice("direction", [1, -1])
    x0, L = c.real("x0", -1, 1), c.real("L", 0.5, 1)
    a = c.reals("a", 3, -1, 1)
    b = c.real("b", -1, 1)
    y0 = c.reals("y0", 2, -1, 1)
    f = lambda x, y: [a[0] + a[1] * x**3 + a[2] * x**6, b * x * x]
    n = c.choice("saves", [1, 3])
    out = O.Output(n)
    ys = c.array([y0[0], y0[1]], "f")
    o = O.ODEint(ys, x0, x0 + d * L, 1e-3, 1e-3, L * c.num(c.choice("first", ["2/5", "1"])), 0.0, out, S, Rhs(f))
    o.integrate()
    F = lambda x: y0[0] + a[0] * (x - x0) + a[1] * (x**4 - x0**4) / 4 + a[2] * (x**7 - x0**7) / 7
    G = lambda x: y0[1] + b * (x**3 - x0**3) / 3
    c.same("points", out.count, n + 1)
    for k in range(n + 1):
        x = x0 + d * L * k / n
        c.eq("x", out.xsave[k], x, atol=1e-12)
        c.eq("y0", out.ysave[k, 0], F(x), tol=1e-9)
        c.eq("y1", out.ysave[k, 1], G(x), tol=1e-9)
    c.eq("end", ys, c.array([F(x0 + d * L), G(x0 + d * L)], "f"), tol=1e-9)
    c.eq("derivative evaluated at the end", o.s.dydx[1], b * (x0 + d * L)**2, tol=1e-9)
