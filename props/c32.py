"""C32 propagation to a goal of average output power"""
from props.common import *


def amplifier(c, p, frep, power, log):
    """an SSFM whose propagation returns a pulse with the average power power(output_power)"""
    S = c.mod("pynlo.interactions.FourWaveMixing.SSFM").SSFM
    np = c.np

    class X(S):
        def propagate(self, pulse_in, fiber, n_steps, output_power=None, reload_fiber_each_step=False):
            P = power(output_power)
            q = pulse_in.create_cloned_pulse()
            # energy is (N-1) dT |A|^2 for a constant field (trapezoidal rule)
            q.set_AT(np.ones(p.NPTS) * np.sqrt(P / (frep * (p.NPTS - 1) * p.dT_mks)))
            out = (np.linspace(0, 1, n_steps + 1), "AW%d" % len(log), "AT%d" % len(log), q)
            log.append((pulse_in, fiber, n_steps, output_power, P, out))
            return out
    return X()


def start(c):
    p, W, lam = mk(c, 2)
    p.set_AT(c.array([1 + 0j, 2 + 0j], "c"))
    return p, p.frep_mks


def common(c, r, log, p, fiber, n, goal, tol):
    (z, AW, AT, q), scale = r
    last = log[-1]
    c.same("steps of the final run", (last[1] is fiber, last[2]), (True, n))
    c.same("trial runs are a single step", [l[2] for l in log[:-1]], [1] * (len(log) - 1))
    c.eq("final run", last[3], goal * scale)
    c.true("result of the final run", q is last[5][3])
    c.same("records", (AW, AT), last[5][1:3])
    c.eq("z", z, last[5][0])
    c.true("input", last[0] is p)
    return scale


def h_affine(c):
    """a response that is linear in the requested power: reached within three trial runs, from any guess"""
    np = c.np
    p, frep = start(c)
    log = []
    goal, tol = c.real("goal", 0.1, 5), c.real("tol", 0.01, 0.2)
    a, b = c.real("a", 0.2, 2), c.real("b", 0.01, 0.05)
    s = amplifier(c, p, frep, lambda x: a * x + b, log)
    fiber = object()
    n = c.choice("steps", [1, 7])
    k = {} if c.choice("guess", [0, 1]) == 0 else dict(scalefactor_guess=c.real("guess", 0.3, 3))
    r = s.propagate_to_gain_goal(p, fiber, n, power_goal=goal, powertol=tol, **k)
    scale = common(c, r, log, p, fiber, n, goal, tol)
    c.eq("first trial", log[0][3], goal * k.get("scalefactor_guess", 1.0))
    P = a * goal * scale + b
    c.true("power reached", abs(P - goal) <= tol * goal * (1 + 1e-9))
    c.eq("reported pulse", r[0][3].calc_epp() * frep, P)
    c.true("three trials", len(log) <= 4)


def h_any(c):
    """whatever the trials return: the scale of a trial that reached the goal is used"""
    np = c.np
    p, frep = start(c)
    log, seen = [], []
    goal, tol = c.real("goal", 1, 2), 0.05
    K = c.choice("trials", [1, 2, 3])

    def power(x):
        i = len(seen)
        if i < K - 1:
            seen.append((x, goal * (c.real("P%d" % i, 0.2, 0.9) if c.choice("below %d" % i, [1, 0]) else c.real("P%d" % i, 1.06, 2))))
        elif i == K - 1:
            seen.append((x, goal * c.real("P%d" % i, 0.96, 1.04)))
        else:
            return goal
        for j in range(i):
            c.assume((seen[j][1] - seen[i][1] > 0.01) | (seen[i][1] - seen[j][1] > 0.01))
        return seen[i][1]
    s = amplifier(c, p, frep, power, log)
    fiber = object()
    r = s.propagate_to_gain_goal(p, fiber, 5, power_goal=goal, powertol=tol)
    scale = common(c, r, log, p, fiber, 5, goal, tol)
    c.same("stops at the first success", len(log), K + 1)
    c.eq("scale of the successful trial", goal * scale, seen[-1][0])


def h_good_guess(c):
    """a guess that is good enough is used as it is; defaults"""
    p, frep = start(c)
    log = []
    e = c.real("e", -0.049, 0.049)
    s = amplifier(c, p, frep, lambda x: 1 + e, log)
    k = {} if c.choice("guess", [0, 1]) == 0 else dict(scalefactor_guess=c.real("guess", 0.3, 3))
    fiber = object()
    r = s.propagate_to_gain_goal(p, fiber, 3, **k)
    scale = common(c, r, log, p, fiber, 3, 1.0, 0.05)
    c.same("one trial", len(log), 2)
    c.eq("scale", scale, k.get("scalefactor_guess", 1.0))
