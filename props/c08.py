"""C08 operations that change or select the grid"""
from props.common import *

OPTS = {"h_subset": {"max_paths": 600}}


def h_expand(c):
    np = c.np
    N = c.choice("N", [2, 4])
    k = c.choice("k", [1, 2])
    loc = c.choice("loc", ["before", "after", "even", None])
    p, W, lam, x = mkf(c, N)
    p.wl_nm, p.W_mks
    if loc is None:
        p.expand_time_window(k)
        loc = "before"
    else:
        p.expand_time_window(k, loc)
    M = N * 2**k
    grids_ok(c, p, M, W * 2**k, lam)
    new = M - N
    b = {"before": new, "after": 0, "even": new // 2}[loc]
    z = lambda n: np.zeros(n)
    c.eq("field", p.AT, np.hstack((z(b), x, z(new - b))))


def h_expand_bad(c):
    p, W, lam, x = mkf(c, 2)
    c.raises("unknown location", ValueError, lambda: p.expand_time_window(1, "middle"))


def h_subset(c):
    """the sub-grid is exactly a stretch of the old one"""
    N, M = c.choice("NM", [(6, 2), (8, 4)] if c.tier == "quick" else [(6, 2), (8, 4), (12, 6), (8, 6)])
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    i = c.choice("centre", list(range(M // 2, N - M // 2 + 1)))
    if i >= N:
        i = N - M // 2
    d = c.real("d", -0.4, 0.4)
    f = p.F_THz[i] + d / W
    # the closest grid point in wavelength is i
    wl = p.wl_nm[i] * (1 + d * c.num("1e-3")) if c.tier == "quick" else p.wl_nm[i] * (1 + d * c.num("1e-4"))
    for j in (i - 1, i + 1):
        if 0 <= j < N:
            g = p.wl_nm[j]
            if j < i:
                c.assume(g - wl > wl - p.wl_nm[i])
                c.assume(g - wl > p.wl_nm[i] - wl)
            else:
                c.assume(wl - g > wl - p.wl_nm[i])
                c.assume(wl - g > p.wl_nm[i] - wl)
    q = p.create_subset_pulse(wl, M)
    c.same("NPTS", int(q.NPTS), M)
    c.eq("frequencies", q.F_THz, p.F_THz[i - M // 2:i + M // 2])
    c.eq("field", q.AW, x[i - M // 2:i + M // 2])
    c.eq("centre", q.center_wavelength_nm, p.wl_nm[i])
    c.eq("window", q.time_window_ps, W)
    c.eq("frep", q.frep_MHz, p.frep_MHz)
    c.eq("original", p.AW, x)


def h_subset_bad(c):
    p, W, lam, x = mkf(c, 4)
    M = c.choice("M", [4, 6])
    c.raises("not smaller", ValueError, lambda: p.create_subset_pulse(lam, M))


def h_rotate(c):
    """the field is rotated by the whole number of grid steps nearest to the requested colour change"""
    np = c.np
    N = c.choice("N", [2, 4, 6])
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    m = c.choice("m", [0, 1, -1, 2, -3])
    d = c.real("d", -0.499, 0.499)
    f = p.center_frequency_THz + (m + d) / W
    p.rotate_spectrum_to_new_center_wl(c.c * 1e-3 / f)
    c.eq("field", p.AW, np.roll(x, m))
    grids_ok(c, p, N, W, lam)


def h_interpolate(c):
    """linear interpolation of the spectrum at the absolute frequencies of the new grid, zero outside the old one"""
    np = c.np
    N = 4
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    m = c.choice("m", [0, 1, -1, 2, -2, 5])
    s = c.choice("s", [0, 1])
    t = c.real("t", 0.01, 0.99) if s else 0
    f = p.center_frequency_THz + (m + t) / W
    lam2 = c.c * 1e-3 / f
    q = p.interpolate_to_new_center_wl(lam2)
    want = []
    for k in range(N):
        j = k + m
        if s == 0:
            want.append(x[j] if 0 <= j < N else 0)
        else:
            want.append(x[j] * (1 - t) + x[j + 1] * t if 0 <= j and j + 1 < N else 0)
    if s == 1 or abs(m) >= N:
        c.eq("field", q.AW, c.array(want, "c"), rtol=1e-4)
    else:
        # grid points coincide: rounding decides whether an end point counts as outside, so only interior points
        A = q.AW
        for k in range(N):
            if 0 < k + m < N - 1:
                c.eq("interior", A[k], want[k], rtol=1e-4)
    grids_ok(c, q, N, W, lam2, "new ")
    c.eq("frep", q.frep_MHz, p.frep_MHz)
    grids_ok(c, p, N, W, lam, "old ")
    c.eq("old field", p.AW, x)


def h_filter(c):
    """exactly the points outside [lower, upper] are removed"""
    N = 4
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    wl = p.wl_nm
    # any band edges: between two points, or beyond the ends
    i, j = c.choice("band", [(0, 3), (0, 1), (2, 2), (1, 2), (3, 3), (4, 4), (0, 0), (2, -1), (3, 0)])
    t = c.real("t", 0.05, 0.95)
    edges = [wl[0] * c.num("1.05")] + [wl[k] + (wl[k - 1] - wl[k]) * t for k in range(1, N)] + [wl[N - 1] * c.num("0.95")]
    # points i..j (decreasing wavelength) lie inside
    if i == 4:
        lo, hi = edges[4] * c.num("0.8"), edges[4]
        i, j = 1, 0
    else:
        # (an upper edge below the lower edge: nothing lies inside)
        hi, lo = edges[i], edges[j + 1]
    p.filter_by_wavelength_nm(lo, hi)
    want = [x[k] if i <= k <= j else 0 for k in range(N)]
    c.eq("field", p.AW, c.array(want, "c"))
    grids_ok(c, p, N, W, lam)


def h_filter_edges(c):
    """points on the edges stay"""
    N = 4
    p, W, lam, x = mkf(c, N, dom="W", Wlo=1, Whi=20, llo=500, lhi=1500)
    wl = p.wl_nm
    i, j = c.choice("band", [(1, 2), (0, 3), (2, 2)])
    p.filter_by_wavelength_nm(wl[j], wl[i])
    want = [x[k] if i <= k <= j else 0 for k in range(N)]
    c.eq("field", p.AW, c.array(want, "c"))


def h_long(c):
    """more points, some of them free"""
    np = c.np
    N = 64
    what = c.choice("what", ["expand", "subset", "rotate", "filter"])
    p, W, lam = mk(c, N, Wlo=4, Whi=20, llo=500, lhi=1500)
    if what in ("subset", "filter"):
        W, lam = c.num("8.5"), c.num("1030.0")
        p.set_time_window_ps(W)
        p.set_center_wavelength_nm(lam)
    x = c.array([c.num("0.5") + 1j * c.num("0.25") * (m % 7) for m in range(N)], "c")
    for m in (0, 1, 10, N // 2, 33, N - 1):
        x[m] = c.cplx("A%d" % m, 2.0)
    f0 = p.center_frequency_THz
    if what == "expand":
        p.set_AT(x)
        k, loc = 1, c.choice("loc", ["before", "after", "even"])
        p.expand_time_window(k, loc)
        M = N * 2**k
        b = {"before": M - N, "after": 0, "even": (M - N) // 2}[loc]
        c.eq("field", p.AT, np.hstack((np.zeros(b), x, np.zeros(M - N - b))))
        c.eq("window", p.time_window_ps, W * 2**k)
        c.eq("points", len(p.T_ps), M)
        return
    p.set_AW(x)
    if what == "subset":
        M, i = c.choice("M", [8, 32]), c.choice("i", [40, 20, 32])
        q = p.create_subset_pulse(p.wl_nm[i], M)
        c.eq("field", q.AW, x[i - M // 2:i + M // 2])
        c.eq("frequencies", q.F_THz, p.F_THz[i - M // 2:i + M // 2])
    elif what == "rotate":
        m = c.choice("m", [1, -20, 31])
        p.rotate_spectrum_to_new_center_wl(c.c * 1e-3 / (f0 + (m + c.real("d", -0.49, 0.49)) / W))
        c.eq("field", p.AW, np.roll(x, m))
    else:
        i, j = c.choice("band", [(10, 50), (33, 33), (0, 20)])
        p.filter_by_wavelength_nm(p.wl_nm[j], p.wl_nm[i])
        want = [x[k] if i <= k <= j else 0 for k in range(N)]
        c.eq("field", p.AW, c.array(want, "c"))
