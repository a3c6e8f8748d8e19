"""C29 coherence"""
from props.common import *


def stub(c, p, M, K, log, free=True):
    """an SSFM whose propagation only records what it is asked and returns arbitrary fields"""
    S = c.mod("pynlo.interactions.FourWaveMixing.SSFM").SSFM
    np = c.np
    N = p.NPTS
    if not free:
        ph = [[[0.0 * c.pi for k in range(K)] for n in range(N)] for m in range(M)]
        r = [[[1.0 + m + n + k for k in range(K)] for n in range(N)] for m in range(M)]
    else:
        ph = [[[c.real("ph%d_%d_%d" % (m, n, k), -3, 3) for k in range(K)] for n in range(N)] for m in range(M)]
        r = [[[c.real("r%d_%d_%d" % (m, n, k), 0.1, 5) for k in range(K)] for n in range(N)] for m in range(M)]

    class X(S):
        def propagate(self, pulse_in, fiber, n_steps, output_power=None, reload_fiber_each_step=False):
            m = len(log) % M
            E = c.np.array([[r[m][n][k] * cis(c, ph[m][n][k]) for k in range(K)] for n in range(N)])
            out = (c.np.linspace(0, 1, n_steps + 1), E, 2 * E, pulse_in.create_cloned_pulse())
            log.append((pulse_in.AW * 1.0, fiber, n_steps, output_power, reload_fiber_each_step, out))
            return out
    return X(), ph


def h_g12(c):
    """|mean over all pairs of different trials of conj(E1) E2 / |E1 E2||, between 0 and 1"""
    np = c.np
    N, K = 2, 1
    M = c.choice("trials", [2, 3] if c.tier == "quick" else [2, 3, 4])
    p, W, lam, x = mkf(c, N, dom="W")
    log = []
    s, ph = stub(c, p, M, K, log)
    g, res = s.calculate_coherence(p, "fiber", num_trials=M, n_steps=K)
    c.same("trials", (len(log), len(res)), (M, M))
    c.same("shape", np.shape(g), (N, K))
    for n in range(N):
        for k in range(K):
            m = 0
            for i in range(M):
                for j in range(i):
                    m = m + 2 * np.cos(ph[i][n][k] - ph[j][n][k])
            m = m / (M * (M - 1))
            # (the mean over ordered pairs is real)
            c.eq("g12", g[n, k]**2, m**2, atol=1e-9)
            c.true("not negative", g[n, k] >= 0)
            c.le("at most 1", g[n, k], 1.0 + 1e-9)
    c.eq("pulse in", p.AW, x)


def h_same(c):
    """trials that agree up to a factor are perfectly coherent"""
    np = c.np
    N, M = 2, c.choice("trials", [2, 3])
    p, W, lam, x = mkf(c, N, dom="W")
    S = c.mod("pynlo.interactions.FourWaveMixing.SSFM").SSFM
    E0 = [[c.real("r%d" % n, 0.1, 5) * cis(c, c.real("ph%d" % n, -3, 3))] for n in range(N)]
    f = [c.real("f%d" % m, 0.1, 5) for m in range(M)]
    it = iter(f)

    class X(S):
        def propagate(self, pulse_in, fiber, n_steps, output_power=None, reload_fiber_each_step=False):
            E = np.array(E0) * next(it)
            return np.linspace(0, 1, n_steps + 1), E, E, pulse_in
    g, res = X().calculate_coherence(p, "fiber", num_trials=M, n_steps=1)
    c.eq("coherent", g, np.ones((N, 1)))


def h_trials(c):
    """every trial gets the pulse plus fresh noise of the requested kind; a seed makes them repeatable; everything is passed on"""
    np = c.np
    N, M = 2, 2
    p, W, lam, x = mkf(c, N, dom="W")
    log = []
    s, ph = stub(c, p, M, 3, log, False)
    kind = c.choice("noise", ["one_photon_freq", "sqrt_N_freq", None])
    seed = c.choice("seed", [0, 7, None])
    P = c.real("P", 0.1, 5)
    fiber = object()
    k = {} if kind is None else dict(noise_type=kind)
    if seed is not None:
        k["random_seed"] = seed
    reload = c.choice("reload", [True, False])
    np.random.seed(11)
    g, res = s.calculate_coherence(p, fiber, num_trials=M, n_steps=3, output_power=P, reload_fiber_each_step=reload, **k)
    c.same("shape", np.shape(g), (N, 3))
    np.random.seed(11 if seed is None else seed)
    for m in range(M):
        q = p.create_cloned_pulse()
        q.add_noise(noise_type=kind or "one_photon_freq")
        AW, f, n, pw, rl, out = log[m]
        c.eq("noise", (AW - x) * 1e12, (q.AW - x) * 1e12)
        c.same("arguments", (f is fiber, n, rl), (True, 3, reload))
        c.eq("power", pw, P)
        y, A, B, pin, pout = res[m]
        c.eq("z", y, out[0])
        c.eq("AW", A, out[1])
        c.eq("AT", B, out[2])
        c.true("pulse out", pout is out[3])
    c.eq("pulse in", p.AW, x)
    if seed is not None:
        g2, res2 = s.calculate_coherence(p, fiber, num_trials=M, n_steps=3, output_power=P, reload_fiber_each_step=reload, **k)
        for m in range(M):
            c.eq("repeatable", (log[M + m][0] - x) * 1e12, (log[m][0] - x) * 1e12)


def h_defaults(c):
    """five trials, no reload, no output power, 50 steps"""
    p, W, lam, x = mkf(c, 2, dom="W")
    log = []
    s, ph = stub(c, p, 5, 1, log, False)
    s.calculate_coherence(p, "fiber")
    c.same("defaults", [l[1:5] for l in log], [("fiber", 50, None, False)] * 5)
