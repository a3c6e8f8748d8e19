"""C04 the two pictures of a field are one discrete Fourier pair"""
from props.common import *


def _N(c):
    return c.choice("N", [2, 4, 6] if c.tier == "quick" else [2, 4, 6, 8, 12, 16])


def h_roundtrip(c):
    N = _N(c)
    p, W, lam = mk(c, N)
    x = c.cplxs("x", N)
    if c.choice("dom", ["T", "W"]) == "T":
        p.set_AT(x)
        c.eq("AT", p.AT, x)
        c.eq("AW", p.AW, fourier(c, x))
        c.eq("back", ifourier(c, p.AW), x)
    else:
        p.set_AW(x)
        c.eq("AW", p.AW, x)
        c.eq("AT", p.AT, ifourier(c, x))
    c.eq("Parseval", abs2(p.AT).sum(), N * abs2(p.AW).sum())


def h_rewrite(c):
    """writing a field twice, in either picture: the last one counts, entirely"""
    N = 4
    p, W, lam, x = mkf(c, N, dom=c.choice("first", ["T", "W"]))
    y = c.cplxs("y", N)
    if c.choice("second", ["T", "W"]) == "T":
        p.set_AT(y)
        c.eq("AT", p.AT, y)
        c.eq("AW", p.AW, fourier(c, y))
    else:
        p.set_AW(y)
        c.eq("AW", p.AW, y)
        c.eq("AT", p.AT, ifourier(c, y))


def h_fft_util(c):
    u = c.mod("pynlo.util")
    N = _N(c)
    M = 2
    np = c.np
    shp = c.choice("shape", ["1d", "ax0", "ax1", "3d"])
    a = c.real("s", -3, 3)
    if shp == "1d":
        x = c.cplxs("x", N)
        y = c.cplxs("y", N)
        f, g = u.FFT_t(x), u.IFFT_t(x)
        c.eq("FFT_t", f, fourier(c, x))
        c.eq("IFFT_t", g, ifourier(c, x))
        c.eq("inverse", u.IFFT_t(f), x)
        c.eq("inverse 2", u.FFT_t(g), x)
        c.eq("linear", u.FFT_t(x + a * y), f + a * u.FFT_t(y))
        return
    if shp == "3d":
        N = 2
    x = c.cplxs("x", N * M)
    if shp == "ax0":
        m = x.reshape(N, M)
        ax = 0
        want = np.array([fourier(c, m[:, j]) for j in range(M)]).T
        wanti = np.array([ifourier(c, m[:, j]) for j in range(M)]).T
    elif shp == "ax1":
        m = x.reshape(M, N)
        ax = 1
        want = np.array([fourier(c, m[j]) for j in range(M)])
        wanti = np.array([ifourier(c, m[j]) for j in range(M)])
    else:
        m = x.reshape(2, 1, 2)
        ax = 2
        want = np.array([fourier(c, m[j, 0]) for j in range(2)]).reshape(2, 1, 2)
        wanti = np.array([ifourier(c, m[j, 0]) for j in range(2)]).reshape(2, 1, 2)
    f, g = u.FFT_t(m, ax), u.IFFT_t(m, ax)
    c.eq("FFT_t", f, want)
    c.eq("IFFT_t", g, wanti)
    c.eq("inverse", u.IFFT_t(f, ax), m)
    c.eq("inverse 2", u.FFT_t(g, ax), m)


def h_input_untouched(c):
    """fields handed in are copied, not adopted"""
    N = 4
    p, W, lam = mk(c, N)
    x = c.cplxs("x", N)
    y = x.copy()
    dom = c.choice("dom", ["T", "W"])
    (p.set_AT if dom == "T" else p.set_AW)(x)
    c.eq("argument", x, y)
    x[0] = x[0] + 1
    x *= 2
    c.eq("field", p.AT if dom == "T" else p.AW, y)
    z = p.AW
    z *= 2
    c.eq("field after writing into AW", p.AT if dom == "T" else p.AW, y)


def h_long(c):
    """realistic numbers of points: every single sample (two at a time) spreads as it should"""
    np = c.np
    N = c.choice("N", [24, 64, 256] if c.tier == "quick" else [24, 48, 64, 256, 512])
    p, W, lam = mk(c, N)
    i, j = c.choice("samples", [(0, 1), (N // 2, N // 2 + 1), (N // 4, N - 1)])
    a, b = c.cplx("a", 2.0), c.cplx("b", 2.0)
    x = np.zeros(N, dtype=complex)
    x[i] = a
    x[j] = b
    k = np.arange(N) - N // 2
    E = lambda s, m: cis(c, 2 * c.pi * s * k * (m - N // 2) / N)
    if c.choice("dom", ["T", "W"]) == "T":
        p.set_AT(x)
        c.eq("AT", p.AT, x)
        c.eq("AW", p.AW, (a * E(1, i) + b * E(1, j)) / N)
    else:
        p.set_AW(x)
        c.eq("AW", p.AW, x)
        c.eq("AT", p.AT, a * E(-1, i) + b * E(-1, j))
