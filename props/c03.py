"""C03 grids never depend on what was set or read before"""
from props.common import *


def _touch(p):
    for a in ("wl_nm", "W_mks", "F_mks", "wl_mks", "T_ps", "V_THz", "F_THz", "dF_mks", "W_THz"):
        getattr(p, a)


def _op(c, p, st, kind, i):
    N, W, lam = st
    if kind == "n":
        N = c.choice("N%d" % i, [2, 4, 6])
        p.set_NPTS(N)
    elif kind == "t":
        W = c.real("W%d" % i, 0.01, 1000)
        p.set_time_window_ps(W)
    elif kind == "ts":
        W = c.real("W%d" % i, 0.01, 1000)
        p.set_time_window_s(W * 1e-12)
    elif kind == "w":
        lam = c.real("lam%d" % i, 100, 20000)
        p.set_center_wavelength_nm(lam)
    elif kind == "f":
        D = c.real("D%d" % i, 0.01, 1000)
        p.set_frequency_window_THz(D)
        W = N / D
    return N, W, lam


def h_history(c):
    """three grid changes, grids read (or not) in between: final grids are those of the final settings"""
    N = 4
    p, W, lam = mk(c, N)
    st = (N, W, lam)
    reads = c.choice("reads", [1, 0])
    n = 2 if c.tier == "quick" else 3
    for i in range(n):
        if reads:
            _touch(p)
        st = _op(c, p, st, c.choice("op%d" % i, ["t", "w", "n", "f"]), i)
    grids_ok(c, p, *st)
    grids_ok(c, p, *st, tag="again ")


def h_return(c):
    """change and change back: nothing left over"""
    p, W, lam = mk(c, 4)
    _touch(p)
    k = c.choice("op", ["t", "w", "n"])
    st = _op(c, p, (4, W, lam), k, 1)
    if c.choice("read", [1, 0]):
        _touch(p)
    p.set_NPTS(4)
    p.set_time_window_ps(W)
    p.set_center_wavelength_nm(lam)
    grids_ok(c, p, 4, W, lam)


def h_two_pulses(c):
    """grids of one pulse are not affected by another pulse"""
    p, W, lam = mk(c, 4)
    _touch(p)
    q, W2, lam2 = mk(c, c.choice("N", [2, 4, 6]), tag="q")
    _touch(q)
    grids_ok(c, p, 4, W, lam)
    p.set_time_window_ps(W2)
    _touch(p)
    grids_ok(c, q, int(q.NPTS), W2, lam2, tag="q ")
    grids_ok(c, p, 4, W2, lam, tag="p ")


def h_returned_arrays(c):
    """writing into an array that was read does not change the pulse"""
    p, W, lam, x = mkf(c, 4)
    a = c.choice("attr", ["wl_nm", "W_mks", "F_mks", "wl_mks", "W_THz", "F_THz", "T_ps", "T_mks", "V_THz", "V_mks", "AW", "AT"])
    g = getattr(p, a)
    g[1] = g[1] * 2 + 1
    g = getattr(p, a)
    g *= 3
    grids_ok(c, p, 4, W, lam)
    c.eq("AT", p.AT, x)


def h_reading_is_pure(c):
    """reading does not change the pulse"""
    p, W, lam, x = mkf(c, 4)
    for a in ("wl_nm", "W_mks", "F_mks", "wl_mks", "T_ps", "T_mks", "V_THz", "V_mks", "AW", "AT", "dF_THz", "cache_hash"):
        getattr(p, a)
    p.calc_epp()
    p.calculate_weighted_avg_frequency_mks()
    p.calculate_intensity_autocorrelation()
    p.get_pulse_dict()
    c.eq("AT", p.AT, x)
    grids_ok(c, p, 4, W, lam)
