"""C34 containers for the three fields and their beams"""
from props.common import *


def mod(c):
    return c.mod("pynlo.interactions.ThreeWaveMixing.field_classes")


def h_fields(c):
    """each field is set and read on its own, all at once in the order pump, signal, idler"""
    np = c.np
    N = c.choice("N", [1, 3, 4])
    T = mod(c).ThreeFields
    x, other = T(N), T(N)
    c.eq("empty", x.get_all(), np.zeros((3, N)))
    f = {k: c.cplxs(k, N) for k in ("pump", "sgnl", "idlr")}
    order = c.choice("order", [("pump", "sgnl", "idlr"), ("idlr", "pump", "sgnl"), ("sgnl", "idlr", "pump")])
    how = c.choice("how", ["each", "all"])
    if how == "each":
        for k in order:
            getattr(x, "set_" + k)(f[k])
    else:
        x.set_all(c.array([f[k][j] for k in ("pump", "sgnl", "idlr") for j in range(N)], "c").reshape(3, N))
    for k in order:
        c.eq(k, getattr(x, "get_" + k)(), f[k])
    for i, k in enumerate(("pump", "sgnl", "idlr")):
        c.eq("all " + k, x.get_all()[i], f[k])
    # what was handed in stays what it was, another container is not affected
    g = c.cplxs("g", N)
    keep = g.copy()
    getattr(x, "set_" + order[0])(g)
    c.eq("replaced", getattr(x, "get_" + order[0])(), keep)
    c.eq("untouched " + order[1], getattr(x, "get_" + order[1])(), f[order[1]])
    g[:] = 7.0
    c.eq("no reference kept", getattr(x, "get_" + order[0])(), keep)
    c.eq("other container", other.get_all(), np.zeros((3, N)))
    x.k0s[1] = 5.0
    c.eq("other k0s", other.k0s[1], 0.0)
    c.eq("new k0s", T(N).k0s[1], 0.0)


def h_copy(c):
    """a copy has the same fields and is independent in both directions"""
    N = 3
    x = mod(c).ThreeFields(N)
    f = {k: c.cplxs(k, N) for k in ("pump", "sgnl", "idlr")}
    for k in f:
        getattr(x, "set_" + k)(f[k])
    y = x.create_copy()
    c.same("points", y.NPTS, N)
    for k in f:
        c.eq("copy " + k, getattr(y, "get_" + k)(), f[k])
    g = c.cplxs("g", N)
    a, b = c.choice("direction", [("x", "y"), ("y", "x")])
    a, b = {"x": x, "y": y}[a], {"x": x, "y": y}[b]
    k = c.choice("which", ["pump", "sgnl", "idlr"])
    getattr(a, "set_" + k)(g)
    for j in f:
        c.eq("independent " + j, getattr(b, "get_" + j)(), f[j])
        c.eq("changed " + j, getattr(a, "get_" + j)(), g if j == k else f[j])


def h_overlap(c):
    """mean of the two waists, whichever two beams; anything else is refused"""
    B = mod(c).beam_parameters
    w = [c.real("w%d" % i, 1e-6, 1e-3) for i in range(3)]
    v = [c.real("v%d" % i, 1e-6, 1e-3) for i in range(3)]
    x, y = B(*w), B(*v)
    for i in range(3):
        for j in range(3):
            c.eq("overlap", x.calculate_overlap(i, j), (w[i] + w[j]) / 2)
            c.eq("other beams", y.calculate_overlap(i, j), (v[i] + v[j]) / 2)
    for a, b in ((3, 0), (0, 3), (-1, 1), (2, -1), (7, 7)):
        c.raises("no such field", ValueError, lambda: x.calculate_overlap(a, b))
    for a, b in ((1.0, 0), (0, "1"), (None, 2)):
        c.raises("no index", TypeError, lambda: x.calculate_overlap(a, b))
