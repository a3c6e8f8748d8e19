"""C07 copies of a pulse are complete and independent"""
from props.common import *


def _same(c, q, N, W, lam, fr, x, tag=""):
    grids_ok(c, q, N, W, lam, tag)
    c.eq(tag + "frep", q.frep_MHz, fr)
    c.eq(tag + "AT", q.AT, x)
    c.eq(tag + "AW", q.AW, fourier(c, x))


def _copy(c, p, how, M):
    Pulse = c.mod("pynlo.light.PulseBase").Pulse
    if how == "create":
        return p.create_cloned_pulse()
    if M is None:
        q = Pulse()
    else:
        q, W2, lam2, y = mkf(c, M, tag="q")
        q.wl_nm, q.W_mks
    if how == "clone":
        q.clone_pulse(p)
    else:
        q.load_pulse_dict(p.get_pulse_dict())
    return q


def _setup(c):
    N = c.choice("N", [4, 2])
    p, W, lam, x = mkf(c, N)
    p.set_frep_MHz(c.real("fr", 0, 10000))
    how = c.choice("how", ["create", "clone", "dict"])
    M = None if how == "create" else c.choice("target", [None, 4, 2, 6])
    return p, N, W, lam, x, c.real("fr", 0, 10000), how, M


def h_equal(c):
    p, N, W, lam, x, fr, how, M = _setup(c)
    p.wl_nm, p.W_mks
    q = _copy(c, p, how, M)
    _same(c, q, N, W, lam, fr, x)
    _same(c, p, N, W, lam, fr, x, "original ")


def h_independent(c):
    p, N, W, lam, x, fr, how, M = _setup(c)
    q = _copy(c, p, how, M)
    a, b = (p, q) if c.choice("change", ["copy", "original"]) == "copy" else (q, p)
    b.set_AT(b.AT * 2 + 1)
    b.chirp_pulse_W(0.01)
    b.set_time_window_ps(c.real("W2", 0.01, 100))
    b.set_center_wavelength_nm(c.real("lam2", 100, 2000))
    b.set_frep_MHz(c.real("fr2", 1, 100))
    b.wl_nm, b.W_mks
    _same(c, a, N, W, lam, fr, x)


def h_dict(c):
    """the dictionary holds plain values that describe the pulse, and is not tied to it"""
    N = 4
    p, W, lam, x = mkf(c, N)
    d = p.get_pulse_dict()
    c.same("keys", sorted(d), ["AT_im", "AT_re", "NPTS", "center_wavelength_nm", "frep_MHz", "time_window_ps"])
    c.same("NPTS", int(d["NPTS"]), N)
    c.eq("time window", d["time_window_ps"], W)
    c.eq("centre", d["center_wavelength_nm"], lam)
    c.eq("frep", d["frep_MHz"], c.real("frep", 0.001, 10000))
    c.same("lists", [type(d["AT_re"]).__name__, type(d["AT_im"]).__name__], ["list", "list"])
    c.eq("re", c.array(d["AT_re"]), x.real)
    c.eq("im", c.array(d["AT_im"]), x.imag)
    p.set_AT(x * 2)
    c.eq("re later", c.array(d["AT_re"]), x.real)
    d["AT_re"][0] = 7
    c.eq("pulse", p.AT, x * 2)


def h_derived_from(c):
    """interpolated and subset pulses are independent of the pulse they come from"""
    N = 4
    p, W, lam, x = mkf(c, N, llo=500, lhi=2000, Wlo=1)
    how = c.choice("how", ["interp", "subset"])
    if how == "interp":
        q = p.interpolate_to_new_center_wl(lam)
    else:
        q = p.create_subset_pulse(lam, 2)
    q.set_AW(q.AW * 3)
    q.set_time_window_ps(3.0)
    q.set_center_wavelength_nm(700.0)
    grids_ok(c, p, N, W, lam)
    c.eq("AT", p.AT, x)


def h_long(c):
    """more points, some of them free"""
    np = c.np
    N = 64
    p, W, lam = mk(c, N)
    x = c.array([c.num("0.5") + 1j * c.num("0.25") * (m % 7) for m in range(N)], "c")
    for m in (0, 1, N // 2, N - 1):
        x[m] = c.cplx("A%d" % m, 2.0)
    p.set_AT(x)
    q = _copy(c, p, c.choice("how", ["create", "clone", "dict"]), 4)
    k = np.arange(N) - N // 2
    c.eq("AT", q.AT, x)
    c.eq("F", q.F_THz, k / W + c.c * 1e-3 / lam)
    c.eq("T", q.T_ps, k * W / N)
    q.set_AT(x * 2)
    c.eq("original", p.AT, x)
    p.set_AT(x * 3)
    c.eq("copy", q.AT, x * 2)
