"""C31 saved three-wave-mixing runs read back"""
from props.common import *

OPTS = {"*": {"val_rtol": 1e-9}}


def rw(c):
    return c.mod("pynlo.interactions.ThreeWaveMixing.multi_run_rw")


class Rhs(object):
    def deriv(self, x, y, dydx):
        dydx[:] = 0.0


class Integrand(object):
    """what the writer needs of a dfg_problem: three pulses"""
    def __init__(self, p, s, i):
        self.pump, self.sgnl, self.idlr = p, s, i


def run(c, N, tag, n, dense=True, problem=False):
    """an integration of three fields over n steps with arbitrary intermediate values"""
    ST = c.mod("pynlo.util.ode_solve.steppers")
    if problem:
        d, p, s, x, _, _ = dfg_problem(c, N, fixed=True, L=0.01)
        g = d
    else:
        fr = c.real("frep" + tag, 1, 1000)
        P = c.mod("pynlo.light.PulseBase").Pulse
        ps = []
        for k, nm in enumerate("psi"):
            q = P(frep_MHz=fr, n=N)
            q.set_time_window_ps(c.real("W%s%s" % (nm, tag), 1, 10))
            q.set_center_wavelength_nm(c.real("lam%s%s" % (nm, tag), 500, 5000))
            ps.append(q)
        g = Integrand(*ps)
    Y = [c.cplxs("Y%s%d" % (tag, j), 3 * N) for j in range(n + 1)]
    y0 = c.array(Y[0], "c").copy()
    # a non-dense run of n steps: every step is saved;  a dense one: n saves within one step
    out = ST.Output(n) if dense else ST.Output(0)

    class S(ST.StepperBase):
        k = 0

        def step(self, htry, RHS):
            self.xold = self.x
            self.hdid = htry
            self.x = self.x + htry
            self.hnext = htry
            S.k += 0 if dense else 1
            self.y = c.array(Y[n] if dense else Y[S.k], "c")

        def dense_out(self, x, h):
            S.k += 1
            return c.array(Y[S.k], "c")
    o = ST.ODEint(y0, 0.0, 1.0, 1e-6, 1e-6, 1.0 if dense else c.num("1/%d" % n) if c.symbolic else 1.0 / n, 0.0, out, S, Rhs(), dense=dense)
    o.integrate()
    return g, o, Y


def same_run(c, tag, got, g, Y, N):
    for j, (nm, q) in enumerate(zip(("pump", "signal", "idler"), got)):
        w = (g.pump, g.sgnl, g.idlr)[j]
        c.same(tag + nm + " points", int(q.NPTS), N)
        c.eq(tag + nm + " field", q.AW, Y[j * N:(j + 1) * N])
        c.eq(tag + nm + " window", q.time_window_ps, w.time_window_ps)
        c.eq(tag + nm + " centre", q.center_wavelength_nm, w.center_wavelength_nm)
        c.eq(tag + nm + " rep rate", q.frep_MHz, w.frep_MHz)
        c.eq(tag + nm + " W", q.W_mks, w.W_mks)


def raises(f, E):
    try:
        f()
    except E:
        return True
    return False


def h_roundtrip(c):
    """fields, grids, rep rate and parameter of every run, at every saved position"""
    N = c.choice("N", [4] if c.tier == "quick" else [2, 4, 8])
    n = c.choice("saves", [1, 2] if c.tier == "quick" else [1, 2, 3, 5])
    dense = c.choice("dense", [True, False])
    f = c.outfile("run.h5")
    w = rw(c).DFGWriter(f, "power")
    runs, par = [], []
    for k in range(2):
        r = run(c, N, "abc"[k], n + k, dense)
        v = c.real("param%d" % k, -10, 10)
        w.add_run(r[0], r[1], v)
        runs.append(r)
        par.append(v)
    w.tables_file.close()
    r = rw(c).DFGReader(f, "power")
    c.same("runs", r.run_ctr, 2)
    for k in range(2):
        c.eq("param", r.get_run_param(k), par[k])
        for z in range(n + k + 1):
            same_run(c, "", r.get_run(k, z), runs[k][0], runs[k][2][z], N)
        same_run(c, "last z ", r.get_run(k), runs[k][0], runs[k][2][n + k], N)
    c.eq("param of the last run", r.get_run_param(), par[1])
    same_run(c, "last run ", r.get_run(), runs[1][0], runs[1][2][n + 1], N)
    same_run(c, "last run, first z ", r.get_run(z_num=0), runs[1][0], runs[1][2][0], N)
    r.tables_file.close()


def h_order(c):
    """runs come in the order they were added, then no more; runs that do not exist are refused"""
    N = 2
    f = c.outfile("run.h5")
    w = rw(c).DFGWriter(f, "angle")
    K = c.choice("runs", [1, 3, 12])
    gs = []
    for k in range(K):
        g, o, Y = run(c, N, "r%d" % k, 1)
        w.add_run(g, o, 1.0 * k)
        gs.append((g, Y))
    w.tables_file.close()
    r = rw(c).DFGReader(f, "angle")
    c.same("runs", r.run_ctr, K)
    z = c.choice("z", [None, 0, 1])
    for k in range(K):
        same_run(c, "", r.get_next_run(z), gs[k][0], gs[k][1][1 if z is None else z], N)
        c.eq("param", r.get_run_param(k), 1.0 * k)
    c.true("no more runs", r.get_next_run() is None)
    for k in (-1, K, K + 5):
        c.true("run does not exist", raises(lambda: r.get_run(k), IndexError))
        c.true("param does not exist", raises(lambda: r.get_run_param(k), IndexError))
    r.tables_file.close()


def h_rewrite(c):
    """a parameter written again replaces the old runs; other parameters in the same file are kept"""
    N = 2
    f = c.outfile("run.h5")
    first = c.choice("first", ["a", "b"])
    other = "b" if first == "a" else "a"
    mod = rw(c)
    keep = {}
    for step, (nm, K) in enumerate(((first, 2), (other, 1), (first, 1))):
        w = mod.DFGWriter(f, nm)
        keep[nm] = []
        for k in range(K):
            g, o, Y = run(c, N, "s%d%d" % (step, k), 1)
            w.add_run(g, o, 10.0 * step + k)
            keep[nm].append((g, Y, 10.0 * step + k))
        w.tables_file.close()
    for nm in "ab":
        r = mod.DFGReader(f, nm)
        c.same("runs", r.run_ctr, len(keep[nm]))
        for k, (g, Y, v) in enumerate(keep[nm]):
            same_run(c, nm + " ", r.get_run(k), g, Y[1], N)
            c.eq("param", r.get_run_param(k), v)
        r.tables_file.close()


def h_problem(c):
    """a dfg_problem itself can be saved"""
    N = 4
    f = c.outfile("run.h5")
    w = rw(c).DFGWriter(f, "gap")
    g, o, Y = run(c, N, "", 1, problem=True)
    v = c.real("param", -1, 1)
    w.add_run(g, o, v)
    w.tables_file.close()
    r = rw(c).DFGReader(f, "gap")
    same_run(c, "", r.get_run(), g, Y[1], N)
    c.eq("param", r.get_run_param(), v)
    r.tables_file.close()
