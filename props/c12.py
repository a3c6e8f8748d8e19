"""C12 three-wave mixing conserves photons and energy"""
from props.common import *


def _rates(c, d, y, z, N):
    dy = c.np.zeros(3 * N, dtype=complex)
    d.deriv(z, y, dy)
    return dy


def _parts(v, N):
    return v[:N], v[N:2 * N], v[2 * N:]


def _W(c, d, p, s, N):
    """absolute angular frequencies of the three grids; the idler is centred on the difference frequency"""
    k = (c.np.arange(N) - N // 2)
    fp, fs = p.center_frequency_THz, s.center_frequency_THz
    w = lambda f: 2 * c.pi * 1e12 * (f + k / p.time_window_ps)
    return w(fp), w(fs), w(fp - fs)


def _coupling(c, N, y, z, k, a, W, n, deff, A, phases):
    """the three coupled-wave equations, written out; A: area per frequency"""
    np = c.np
    e0, c0 = c.const("epsilon_0"), c.c
    u = [y_ * ph / np.sqrt(A_ * n_ * e0 * c0) for y_, ph, n_, A_ in zip(_parts(y, N), phases, n, A)]
    h = N // 2
    S = [np.zeros(N, dtype=complex) for _ in range(3)]
    for i in range(N):
        for j in range(N):
            m = i + j - h          # pump index for signal i, idler j
            if 0 <= m < N:
                S[0][m] = S[0][m] + u[1][i] * u[2][j]
                S[1][i] = S[1][i] + u[0][m] * u[2][j].conjugate()
                S[2][j] = S[2][j] + u[0][m] * u[1][i].conjugate()
    return [2j * deff * W_ / (c0 * n_) * np.sqrt(A_ * n_ * e0 * c0) * S_ / ph for W_, n_, A_, S_, ph in zip(W, n, A, S, phases)]


def _phases(c, N, z, n, W):
    ph = []
    for n_, W_ in zip(n, W):
        ph.append(cis(c, n_ * W_ / c.c * z))
    return ph


def h_waveguide(c):
    """coupled-wave equations, Manley-Rowe and power conservation with a common effective area"""
    np = c.np
    N = c.choice("N", [2, 4])
    mode = c.choice("mode", ["simple", "PP+", "PP-"])
    pp = c.real("pp", 1e-5, 4e-5)
    t = c.real("t", 0.01, 0.49)
    if mode == "simple":
        z = c.real("z", 0, 1e-3)
        d, p, s, x, n, deff = dfg_problem(c, N, mode="simple")
    else:
        z = (t + (0 if mode == "PP+" else c.num("0.5"))) * pp
        d, p, s, x, n, deff = dfg_problem(c, N, mode="PP", L=pp * c.num("1.5"), pp=lambda zz: pp)
    sg = -1 if mode == "PP-" else 1
    y = c.cplxs("y", 3 * N)
    dy = _rates(c, d, y, z, N)
    Wp, Ws, Wi = _W(c, d, p, s, N)
    R = [2 * (a.conj() * b).real for a, b in zip(_parts(y, N), _parts(dy, N))]
    P = [(r / w * 1e15).sum() for r, w in zip(R, (Wp, Ws, Wi))]
    c.eq("signal and idler photons are created in pairs", P[1], P[2], rtol=1e-5)
    c.eq("each pair costs one pump photon", P[0], -P[1], rtol=1e-5)
    c.eq("power", R[1].sum() + R[2].sum(), -R[0].sum(), rtol=1e-5)
    nn = [n["p"], n["s"], n["i"]]
    W = (Wp, Ws, Wi)
    ph = _phases(c, N, z, nn, W)
    A = c.real("Aeff", 1, 1000) * 1e-12 * np.ones(N)
    want = _coupling(c, N, y, z, None, None, W, nn, sg * deff, [A, A, A], ph)
    for nm, a, b in zip(("pump", "signal", "idler"), _parts(dy, N), want):
        c.eq(nm + " equation", a, b, rtol=1e-5)


def h_linear_off(c):
    """no pump and no idler, or a crystal without nonlinearity: nothing happens"""
    np = c.np
    N = 4
    d, p, s, x, n, deff = dfg_problem(c, N, mode="simple")
    which = c.choice("only", [0, 1, 2, 3])
    y = c.cplxs("y", 3 * N)
    if which < 3:
        m = np.zeros(3 * N)
        m[which * N:(which + 1) * N] = 1
        y = y * m
    else:
        d.crystal.deff = 0.0
    z = c.real("z", 0, 1e-3)
    c.eq("no change", _rates(c, d, y, z, N), np.zeros(3 * N), atol=1e-300)


def h_beams(c):
    """Gaussian beams: areas follow the pump spot; photon balance of three lines is exact"""
    np = c.np
    N = 2
    gouy = c.choice("gouy", [False, True])
    mode = c.choice("mode", ["simple", "BPM"])
    L = c.real("L", 1e-3, 2e-2)
    d, p, s, x, n, deff = dfg_problem(c, N, wg=False, mode=mode, L=L, fixed=True, apply_gouy_phase=gouy)
    y = c.cplxs("y", 3 * N)
    z = c.real("z", 1e-6, 1e-3)
    dy = _rates(c, d, y, z, N)
    W = _W(c, d, p, s, N)
    ax = {"p": "mix", "s": "o", "i": "o"} if mode == "BPM" else {"p": "", "s": "", "i": ""}
    nn = [n["p" + ax["p"]], n["s" + ax["s"]], n["i" + ax["i"]]]
    w0 = c.real("w0", 1e-5, 1e-4)
    zf = z - L / 2
    # all beams share one Rayleigh range, that of the pump centre
    zr = w0**2 * W[0][N // 2] * nn[0][N // 2] / (2 * c.c)
    area = [c.pi * (2 * c.c * zr / (w * n_)) * (1 + (zf / zr)**2) for w, n_ in zip(W, nn)]
    ph = _phases(c, N, z, nn, W)
    if gouy:
        g = (zr + 1j * zf) / np.sqrt(zr * zr + zf * zf)
        ph = [q * g for q in ph]
    want = _coupling(c, N, y, z, None, None, W, nn, deff, [area[0]] * 3, ph)
    for nm, a, b in zip(("pump", "signal", "idler"), _parts(dy, N), want):
        c.eq(nm + " equation", a, b, rtol=1e-5)


def h_convolutions(c):
    """the FFT-based sums over frequency pairs are linear (nothing wraps around)"""
    np = c.np
    import_ = c.mod("pynlo.interactions.ThreeWaveMixing.DFG_integrand")
    N = c.choice("N", [2, 4, 6])
    f = import_.fftcomputer(N)
    a, b = c.cplxs("a", N), c.cplxs("b", N)
    h = N // 2
    cv = [sum(a[i] * b[m + h - i] for i in range(N) if 0 <= m + h - i < N) for m in range(N)]
    cr = [sum(a[m + i - h] * b[i].conjugate() for i in range(N) if 0 <= m + i - h < N) for m in range(N)]
    c.eq("sum frequencies", f.conv(a, b), c.array(cv, "c"))
    c.eq("difference frequencies", f.corr(a, b), c.array(cr, "c"))
    c.eq("again", f.conv(b, a), c.array(cv, "c"))


def h_spm_default(c):
    """with chi-3 terms on (the default) the integrand can be evaluated"""
    N = 2
    D = c.mod("pynlo.interactions.ThreeWaveMixing").dfg_problem
    (p, xp), (s, xs) = dfg_pulses(c, N)
    n, table = dfg_indices(c, N)
    x = crystal(c, table, mode="simple", length=0.01, deff=1e-12)
    x.n2 = 1e-20
    d = D(p, s, x)
    dy = c.np.zeros(3 * N, dtype=complex)
    d.deriv(1e-3, c.cplxs("y", 3 * N), dy)
    c.same("evaluated", len(dy), 3 * N)


OPTS = {"h_beams": {"numeric_constants": True}}
