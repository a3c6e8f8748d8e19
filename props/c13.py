"""C13 set-up and results of a difference-frequency problem"""
from props.common import *


def _make(c, N, mode="simple", wg=True, **k):
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    (p, xp), (s, xs) = dfg_pulses(c, N, True, **k)
    n, table = dfg_indices(c, N)
    x = crystal(c, table, mode=mode, length=c.real("L", 1e-3, 2e-2), deff=c.real("deff", 1e-12, 5e-11))
    kw = {"wg_mode": True, "Aeff_squm": c.real("Aeff", 1, 1000)} if wg else {"pump_waist": c.real("w0", 1e-5, 1e-4)}
    return D(p, s, x, disable_SPM=True, **kw), p, s, x, n, xp, xs


class Out:
    """what the ODE solver hands back"""
    def __init__(self, xsave, ysave, count):
        self.xsave, self.ysave, self.count = xsave, ysave, count


def h_setup(c):
    """the idler grid sits at the difference frequency; the start vector is the three spectra; inputs are only read"""
    np = c.np
    N = c.choice("N", [2, 4])
    d, p, s, x, n, xp, xs = _make(c, N)
    lp, ls, W = p.center_wavelength_nm, s.center_wavelength_nm, p.time_window_ps
    for i in (d.idlr, d.idlr_in):
        grids_ok(c, i, N, W, 1 / (1 / lp - 1 / ls), "idler ")
        c.eq("idler repetition rate", i.frep_mks, p.frep_mks)
    c.eq("idler starts from noise fields only", d.ystart[2 * N:], d.idlr_in.AW)
    c.eq("pump first", d.ystart[:N], xp)
    c.eq("then signal", d.ystart[N:2 * N], xs)
    c.same("three fields", len(d.ystart), 3 * N)
    grids_ok(c, p, N, W, lp, "pump ")
    grids_ok(c, s, N, W, ls, "signal ")
    c.eq("pump kept", p.AW, xp)
    c.eq("signal kept", s.AW, xs)
    # later changes of what was handed in do not reach the problem
    y = c.cplxs("y", 3 * N)
    z = c.real("z", 1e-5, 1e-3)
    r0 = np.zeros(3 * N, dtype=complex)
    d.deriv(z, y, r0)
    which = c.choice("change", ["crystal", "pump", "signal", "start"])
    if which == "crystal":
        x.deff = 0.0
        x._length = 1.0
        x.mode = "BPM"
    elif which == "pump":
        p.set_AW(np.zeros(N))
        p.set_center_wavelength_nm(700)
    elif which == "signal":
        s.set_AW(np.zeros(N))
        s.set_time_window_ps(9)
    else:
        d.ystart[0] = 17
        c.eq("start vector is its own", p.AW, xp)
        c.eq("start vector is its own", d.pump.AW, xp)
    r1 = np.zeros(3 * N, dtype=complex)
    d.deriv(z, y, r1)
    c.eq("unaffected by later changes", r1, r0)
    c.eq("state only read", y, c.cplxs("y", 3 * N))


def h_two(c):
    """two problems do not share anything"""
    np = c.np
    N = 2
    d, p, s, x, n, xp, xs = _make(c, N)
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    y = c.cplxs("y", 3 * N)
    z = c.real("z", 1e-5, 1e-3)
    r0 = np.zeros(3 * N, dtype=complex)
    d.deriv(z, y, r0)
    x2 = crystal(c, lambda wl, axis: 1.5 * np.ones(N), mode="simple", length=0.01, deff=1e-11)
    e = D(p, s, x2, disable_SPM=True, wg_mode=True, Aeff_squm=3)
    q = np.zeros(3 * N, dtype=complex)
    e.deriv(2 * z, y[::-1], q)
    r1 = np.zeros(3 * N, dtype=complex)
    d.deriv(z, y, r1)
    c.eq("other problem does not matter", r1, r0)


def h_refuse(c):
    """grids that overlap or have different lengths are refused"""
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    case = c.choice("case", ["pump/signal", "signal/idler", "length", "fine"])
    N = 4
    fr = c.real("frep", 1, 1000)
    n, table = dfg_indices(c, N)
    x = crystal(c, table, mode="simple", length=0.01, deff=1e-12)

    def mkp(lo, hi, nm, N=4, Wlo=2, Whi=5):
        p = Pulse(frep_MHz=fr, n=N)
        p.set_time_window_ps(c.real("W" + nm, Wlo, Whi))
        p.set_center_wavelength_nm(c.real("lam" + nm, lo, hi))
        p.set_AW(c.array([0.5, 0.4, 1.0, 0.2], "c")[:N])
        return p
    if case == "pump/signal":
        # windows so short that the grids overlap: df = 1/W, N/2 steps down from the pump reach the signal
        p, s = mkp(1000, 1010, "p", Wlo=0.02, Whi=0.03), mkp(1200, 1220, "s", Wlo=0.02, Whi=0.03)
    elif case == "signal/idler":
        p, s = mkp(1000, 1010, "p"), mkp(1950, 1990, "s", Wlo=0.025, Whi=0.03)
    elif case == "length":
        p, s = mkp(1000, 1100, "p"), mkp(1500, 1600, "s", N=2)
    else:
        p, s = mkp(1000, 1100, "p"), mkp(1500, 1600, "s")
    ok = True
    try:
        D(p, s, x, disable_SPM=True, wg_mode=True, Aeff_squm=10)
    except ValueError:
        ok = False
    c.same("accepted", ok, case == "fine")


def h_process(c):
    """saved fields get the phases of propagation put back, in the frame of the pump"""
    np = c.np
    N = c.choice("N", [2, 4])
    rows, count = c.choice("saved", [(3, 3), (3, 2), (2, 1)])
    d, p, s, x, n, xp, xs = _peaked(c, N)
    Y = [c.cplxs("Y%d" % i, 3 * N) for i in range(rows)]
    ys = c.array([list(r) for r in Y], "c")
    zs = c.reals("zs", rows, 0, 1e-2)
    out = Out(c.array(list(zs), "f"), ys, count)
    r = d.process_stepper_output(out)
    W = [2 * c.pi * 1e12 * Fgrid(c, N, p.time_window_ps, l) for l in (p.center_wavelength_nm, s.center_wavelength_nm, d.idlr.center_wavelength_nm)]
    nn = [n["p"], n["s"], n["i"]]
    c.same("number of saves", int(r.n_saves), count)
    t0 = n["p"][d_peak(N)] / c.c
    lam = [p.center_wavelength_nm, s.center_wavelength_nm, d.idlr.center_wavelength_nm]
    for i in range(count):
        c.eq("z", r.get_z(i), zs[i])
        for j, get in enumerate((r.get_pump, r.get_sgnl, r.get_idlr)):
            q = get(i)
            ph = cis(c, (nn[j] / c.c - t0) * W[j] * zs[i])
            c.eq("field %d" % j, q.AW, Y[i][j * N:(j + 1) * N] * ph)
            grids_ok(c, q, N, p.time_window_ps, lam[j], "result ")
            c.eq("result repetition rate", q.frep_mks, p.frep_mks)
    for i in range(rows):
        c.eq("solver output untouched", ys[i], Y[i])
    c.eq("solver output untouched", out.xsave, zs)
    q = d.process_stepper_output(out)
    c.eq("processing again", q.get_sgnl(0).AW, r.get_sgnl(0).AW)
    c.eq("problem untouched", d.pump.AW, xp)
    # working with a result pulse does not change the stored results
    a = r.get_pump(0).AW
    w = r.get_pump(0)
    w.set_AW(np.zeros(N))
    c.eq("results survive use", r.get_pump(0).AW, a)
    # in any order
    j = c.choice("wave", [0, 1, 2])
    get = (r.get_pump, r.get_sgnl, r.get_idlr)[j]
    for i in (0, count - 1, 0, 0):
        q = get(i)
        c.eq("in any order", q.AW, Y[i][j * N:(j + 1) * N] * cis(c, (nn[j] / c.c - t0) * W[j] * zs[i]))
        c.eq("centre, in any order", q.center_wavelength_nm, lam[j])


def d_peak(N):
    return N // 2


def _peaked(c, N):
    """a pump with its strongest point in the middle, so that 'the pump speed' is known"""
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    (p, _), (s, xs) = dfg_pulses(c, N, False)
    n, table = dfg_indices(c, N)
    x = crystal(c, table, mode="simple", length=c.real("L", 1e-3, 2e-2), deff=1e-12)
    d = D(p, s, x, disable_SPM=True, wg_mode=True, Aeff_squm=10)
    return d, p, s, x, n, p.AW.copy(), xs


OPTS = {"h_process": {"lazy_max": True}}
