"""helpers shared by the harnesses (executed with exact and with ordinary numbers alike)"""


def mk(c, N, tag="", cls=None, frep=True, Wlo=0.01, Whi=1000, llo=100, lhi=20000):
    """a Pulse with an arbitrary grid"""
    Pulse = cls or c.mod("pynlo.light.PulseBase").Pulse
    W = c.real("W" + tag, Wlo, Whi)
    lam = c.real("lam" + tag, llo, lhi)
    if frep:
        p = Pulse(frep_MHz=c.real("frep" + tag, 0.001, 10000), n=N)
    else:
        p = Pulse(n=N)
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    return p, W, lam


def mkf(c, N, tag="", dom="T", **k):
    """... with an arbitrary complex field"""
    p, W, lam = mk(c, N, tag, **k)
    x = c.cplxs("A" + tag, N)
    if dom == "T":
        p.set_AT(x)
    else:
        p.set_AW(x)
    return p, W, lam, x


def abs2(x):
    return (x * x.conj()).real


def cis(c, ph):
    """exp(i ph)"""
    np = c.np
    return np.cos(ph) + 1j * np.sin(ph)


def fourier(c, x):
    """AW_k = 1/N sum_j AT_j exp(+2 pi i (k-N/2)(j-N/2)/N), written out"""
    np = c.np
    N = len(x)
    k = np.arange(N) - N // 2
    E = cis(c, 2 * c.pi * np.outer(k, k) / N)
    return (E * x[None, :]).sum(axis=1) / N


def ifourier(c, X):
    np = c.np
    N = len(X)
    k = np.arange(N) - N // 2
    E = cis(c, -2 * c.pi * np.outer(k, k) / N)
    return (E * X[None, :]).sum(axis=1)


def Fgrid(c, N, W, lam):
    """frequencies (THz)"""
    return (c.np.arange(N) - N / 2) / W + c.c * 1e-3 / lam


def grids_ok(c, p, N, W, lam, tag=""):
    """every grid representation of p agrees with (N, W ps, lam nm)"""
    np = c.np
    k = np.arange(N)
    F = Fgrid(c, N, W, lam)
    V = 2 * c.pi * (k - N / 2) / W
    c.same(tag + "NPTS", int(p.NPTS), N)
    c.eq(tag + "time_window_ps", p.time_window_ps, W, rtol=1e-9)
    c.eq(tag + "time_window_mks", p.time_window_mks, W * 1e-12, rtol=1e-9)
    c.eq(tag + "T_ps", p.T_ps, (k - N / 2) * W / N, rtol=1e-9)
    c.eq(tag + "T_mks", p.T_mks, (k - N / 2) * W / N * 1e-12, rtol=1e-9)
    c.eq(tag + "dT_ps", p.dT_ps, W / N, rtol=1e-9)
    c.eq(tag + "dT_mks", p.dT_mks, W / N * 1e-12, rtol=1e-9)
    c.eq(tag + "V_THz", p.V_THz, V, rtol=1e-9)
    c.eq(tag + "V_mks", p.V_mks, V * 1e12, rtol=1e-9)
    c.eq(tag + "W_THz", p.W_THz, 2 * c.pi * F, rtol=1e-9)
    c.eq(tag + "W_mks", p.W_mks, 2 * c.pi * F * 1e12, rtol=1e-9)
    c.eq(tag + "F_THz", p.F_THz, F, rtol=1e-9)
    c.eq(tag + "F_mks", p.F_mks, F * 1e12, rtol=1e-9)
    c.eq(tag + "dF_THz", p.dF_THz, 1 / W, rtol=1e-9)
    c.eq(tag + "dF_mks", p.dF_mks, 1e12 / W, rtol=1e-9)
    c.eq(tag + "wl_nm", p.wl_nm, c.c * 1e-3 / F, rtol=1e-9)
    c.eq(tag + "wl_mks", p.wl_mks, c.c * 1e-12 / F, rtol=1e-9)
    c.eq(tag + "center_wavelength_nm", p.center_wavelength_nm, lam, rtol=1e-9)
    c.eq(tag + "center_wavelength_mks", p.center_wavelength_mks, lam * 1e-9, rtol=1e-9)
    c.eq(tag + "center_frequency_THz", p.center_frequency_THz, c.c * 1e-3 / lam, rtol=1e-9)
    c.eq(tag + "center_frequency_mks", p.center_frequency_mks, c.c * 1e9 / lam, rtol=1e-9)


def crystal(c, table=None, mode="PP", length=None, deff=None, cls=None, **kw):
    """a Crystal whose index of refraction is table(wl_nm, axis) (an arbitrary function in the harness)"""
    Crystal = c.mod("pynlo.media.crystals.CrystalContainer").Crystal

    class X(Crystal):
        def n(self, wl_nm, axis=None):
            return table(wl_nm, axis)
    par = dict(kw)
    if length is not None:
        par["length"] = length
    x = X(par)
    x.mode = mode
    x.deff = deff
    return x


def dfg_pulses(c, N, fields=True, W=None, fixed=False):
    """pump and signal pulses on grids that do not overlap, and the unknown fields"""
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    W = c.real("W", 2, 5) if W is None else W
    fr = c.real("frep", 1, 1000)
    out = []
    if fixed:
        W = 3.125
    for nm, lo, hi in (("p", 1000, 1100), ("s", 1500, 1600)):
        p = Pulse(frep_MHz=fr, n=N)
        p.set_time_window_ps(W)
        p.set_center_wavelength_nm((lo + 50 if fixed else c.real("lam" + nm, lo, hi)))
        if fields:
            x = c.cplxs("A" + nm, N)
        else:
            x = c.array([(1 + 0.5j) * (0.5 if k != N // 2 else 2.0) for k in range(N)], "c")
        p.set_AW(x)
        out.append((p, x))
    return out


def dfg_indices(c, N, fixed=False):
    """an index of refraction for every frequency of the three grids (and the two axes), in normal dispersion: the ranges
    are disjoint so that the code's search for the fastest pulse and the smallest spot has one outcome"""
    n = {}

    def table(wl, axis):
        wl = c.np.asarray(wl)
        f = wl[N // 2]
        which = "p" if bool(f < 1200) else "s" if bool(f < 2000) else "i"
        key = which + (axis or "")
        if key not in n:
            lo = {"p": 2.3, "s": 2.0, "i": 1.7}[which] - {"": 0, "mix": 0, "o": 0.1}.get(axis or "", 0.05)
            st = 0.25 / N
            n[key] = c.array([lo + st * k for k in range(N)], "f") if fixed else c.array([c.real("n%s[%d]" % (key, k), lo + st * k, lo + st * (k + 0.9)) for k in range(N)], "f")
        return n[key]
    return n, table


def dfg_problem(c, N, wg=True, mode="PP", L=None, pp=None, fields=False, fixed=False, **kw):
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    (p, xp), (s, xs) = dfg_pulses(c, N, fields, fixed=fixed)
    n, table = dfg_indices(c, N, fixed)
    deff = c.real("deff", 1e-12, 5e-11)
    x = crystal(c, table, mode=mode, length=L if L is not None else c.real("L", 1e-3, 2e-2), deff=deff)
    if mode == "PP":
        x.pp = pp if pp is not None else (lambda z: 1.0)
    if wg:
        kw["wg_mode"] = True
        kw.setdefault("Aeff_squm", c.real("Aeff", 1, 1000))
    else:
        kw.setdefault("pump_waist", c.real("w0", 1e-5, 1e-4))
    d = D(p, s, x, disable_SPM=True, **kw)
    return d, p, s, x, n, deff
