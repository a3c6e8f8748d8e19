"""Translation of Expr / SymBool into z3 real arithmetic."""
import sys
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from fractions import Fraction
from . import expr as X
from .expr import Expr
from . import ival

STAT = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "time": 0.0}
_vars = {}
_root = {}
_pow = {}
_expv = {}
_phasev = {}
_side = {}           # key -> list of z3 constraints


def rv(fr):
    return z3.RealVal(str(fr.numerator) + ("/" + str(fr.denominator) if fr.denominator != 1 else ""))


class Used:
    """collects side constraints for everything that was translated"""
    def __init__(self):
        self.keys = {}
        self.order = []

    def add(self, key):
        if key not in self.keys:
            self.keys[key] = True
            self.order.append(key)


def gvar(g, U):
    """z3 variable(s) for generator g: (re, im or None)"""
    G = X.GENS[g]
    key = ("g", g)
    if key in _vars:
        r = _vars[key]
        _need(key, U)
        return r
    side = []
    deps = []
    if G.kind == "c" and G.conj is not None and g not in X.INV:
        base = min(g, G.conj)
        nm = X.GENS[base].name
        re_, im_ = z3.Real(nm + ".re"), z3.Real(nm + ".im")
        r = (re_, im_ if g == base else -im_)
        if X.GENS[base].hi is not None:
            b = rv(Fraction(X.GENS[base].hi))
            side += [re_ <= b, re_ >= -b, im_ <= b, im_ >= -b]
        _vars[key] = r
        _side[key] = (side, deps)
    elif g in X.INV:
        p = X.INV[g]
        if p.is_real():
            v = z3.Real("inv!%d" % g)
            r = (v, None)
            _vars[key] = r
            _side[key] = (side, deps)
            u = Used()
            pr, pi_ = tr(p, u)
            side.append(v * pr == 1)
            deps += u.order
        else:
            v, w = z3.Real("inv!%d.re" % g), z3.Real("inv!%d.im" % g)
            r = (v, w)
            _vars[key] = r
            _side[key] = (side, deps)
            u = Used()
            pr, pi_ = tr(p, u)
            side += [v * pr - w * pi_ == 1, v * pi_ + w * pr == 0]
            deps += u.order
    else:
        v = z3.Real(G.name if len(G.name) < 40 and not isinstance(G.defn, tuple) else "atom!%d" % g)
        r = (v, None)
        _vars[key] = r
        _side[key] = (side, deps)
        if g == X.PI.gid:
            side += [v > rv(Fraction("3.14159265358979")), v < rv(Fraction("3.14159265358980"))]
        elif g in X.CONST_VAL:
            if G.name[0] == "#":
                side.append(v == int(G.name[1:]))
            else:
                side.append(v == rv(X.frac(X.CONST_VAL[g])))
        elif g in X.SQ:
            u = Used()
            pr, pi_ = tr(X.SQ[g], u)
            side += [v >= 0, v * v == pr]
            deps += u.order
        elif g in X.ANG:
            side += [v > -rv(Fraction("3.1415926535898")), v < rv(Fraction("3.1415926535898"))]
        elif isinstance(G.defn, tuple) and G.defn[0] == "pow":
            u = Used()
            pr, _ = tr(G.defn[1], u)
            f = G.defn[2]
            side.append(v >= 0)
            if f.denominator <= 8:
                side.append(v ** f.denominator == pr ** f.numerator)
            else:
                side.append(z3.And(z3.Implies(pr > 1, z3.And(v > 1, v < pr)), z3.Implies(z3.And(pr > 0, pr < 1), z3.And(v < 1, v > pr)),
                                   z3.Implies(pr == 1, v == 1)))
            deps += u.order
        elif isinstance(G.defn, tuple) and G.defn[0] in ("fn:arcsin", "fn:arctan"):
            h = rv(Fraction("1.5707963267949"))
            side += [v >= -h, v <= h]
            u = Used()
            pr, _ = tr(G.defn[1], u)
            side += [z3.Implies(pr > 0, v > 0), z3.Implies(pr < 0, v < 0), z3.Implies(pr == 0, v == 0)]
            deps += u.order
        elif isinstance(G.defn, tuple) and G.defn[0] == "fn:max":
            u = Used()
            a, b = tr(G.defn[1], u)[0], tr(G.defn[2], u)[0]
            side += [v >= a, v >= b, z3.Or(v == a, v == b)]
            deps += u.order
        elif isinstance(G.defn, tuple) and G.defn[0] == "fn:arccos":
            side += [v >= 0, v <= rv(Fraction("3.1415926535898"))]
            u = Used()
            pr, _ = tr(G.defn[1], u)
            h0, h1 = rv(Fraction("1.5707963267948")), rv(Fraction("1.5707963267949"))
            side += [z3.Implies(pr >= 0, v <= h1), z3.Implies(pr <= 0, v >= h0)]
            deps += u.order
        if G.lo is not None:
            side.append(v >= rv(X.frac(G.lo)))
        if G.hi is not None:
            side.append(v <= rv(X.frac(G.hi)))
        if G.pos and g not in X.CONST_VAL:
            side.append(v > 0)
    _need(key, U)
    return _vars[key]


def _need(key, U):
    U.add(key)
    for d in _side[key][1]:
        U.add(d)


def root_var(g, den, U):
    key = ("r", g, den)
    if key not in _vars:
        v = z3.Real("root!%d!%d" % (g, den))
        b = gvar(g, U)[0]
        _vars[key] = (v, None)
        if den <= 12:
            _side[key] = ([v > 0, v ** den == b], [("g", g)])
        else:
            _side[key] = ([v > 0], [("g", g)])
    _need(key, U)
    return _vars[key][0]


def phase_var(k, U):
    """(cos, sin) of pi k/PH"""
    if k == 0:
        return z3.RealVal(1), z3.RealVal(0)
    if k == X.IPH:
        return z3.RealVal(0), z3.RealVal(1)
    key = ("p", k)
    if key not in _vars:
        import math
        c, s = z3.Real("cos!%d" % k), z3.Real("sin!%d" % k)
        th = math.pi * k / X.PH
        eps = 1e-12
        side = [c * c + s * s == 1]
        for v, f in ((c, math.cos(th)), (s, math.sin(th))):
            side += [v >= rv(Fraction(f - eps)), v <= rv(Fraction(f + eps))]
        if k * 2 == X.IPH:
            side += [c == s, 2 * c * c == 1]
        _vars[key] = (c, s)
        _side[key] = (side, [])
    _need(key, U)
    return _vars[key]


def exp_var(i, U):
    """(re, im) of exp(EXPS[i])"""
    key = ("e", i)
    if key not in _vars:
        P = X.EXPS[i]
        R, Im = P.real(), P.imag()
        side, deps = [], []
        if R.is_zero():
            c, s = z3.Real("cosE!%d" % i), z3.Real("sinE!%d" % i)
            side.append(c * c + s * s == 1)
            r = (c, s)
        else:
            m = z3.Real("expE!%d" % i)
            side.append(m > 0)
            u = Used()
            try:
                rr, _ = tr(R, u)
                side += [m >= 1 + rr, z3.Implies(rr < 0, m < 1), z3.Implies(rr > 0, m > 1)]
                deps += u.order
            except X.DomainError:
                pass
            if Im.is_zero():
                r = (m, None)
            else:
                c, s = z3.Real("cosE!%d" % i), z3.Real("sinE!%d" % i)
                side.append(c * c + s * s == 1)
                r = (m * c, m * s)
        _vars[key] = r
        _side[key] = (side, deps)
    _need(key, U)
    return _vars[key]


def cmul(a, b):
    if a[1] is None and b[1] is None:
        return (a[0] * b[0], None)
    if a[1] is None:
        return (a[0] * b[0], a[0] * b[1])
    if b[1] is None:
        return (a[0] * b[0], a[1] * b[0])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cpow(a, n):
    r = None
    for _ in range(n):
        r = a if r is None else cmul(r, a)
    return r


def tr(E, U):
    """z3 (re, im or None) of Expr; negative powers become fresh inverses"""
    res, ims = [], []
    for (m, k, e), c in E.t.items():
        v = (rv(c), None)
        for g, x in m:
            b = gvar(g, U)
            if x.__class__ is Fraction:
                d = x.denominator
                if d <= 12:
                    b = (root_var(g, d, U), None)
                    n = x.numerator
                else:
                    key = ("w", g, x)
                    if key not in _vars:
                        w = z3.Real("pow!%d!%s" % (g, x))
                        bb = b[0]
                        side = [w > 0]
                        if x > 0:
                            side += [z3.Implies(bb > 1, w > 1), z3.Implies(bb < 1, w < 1)]
                            lo, hi = x.numerator // x.denominator, -((-x.numerator) // x.denominator)
                            side += [z3.Implies(bb >= 1, z3.And(w >= bb ** lo if lo else w >= 1, w <= bb ** hi))]
                        else:
                            side += [z3.Implies(bb > 1, w < 1), z3.Implies(bb < 1, w > 1)]
                        _vars[key] = (w, None)
                        _side[key] = (side, [("g", g)])
                    _need(key, U)
                    v = cmul(v, _vars[key])
                    continue
            else:
                n = x
            if n < 0:
                b = inv_var(g, x, b, U)
                n = -n
            v = cmul(v, cpow(b, n)) if b[1] is not None else (v[0] * (b[0] ** n if n != 1 else b[0]), v[1] * (b[0] ** n if n != 1 else b[0]) if v[1] is not None else None)
        if k:
            cs = phase_var(k, U)
            if k == X.IPH:
                v = (-v[1] if v[1] is not None else z3.RealVal(0), v[0])
            else:
                v = cmul(v, cs)
        if e:
            v = cmul(v, exp_var(e, U))
        res.append(v[0])
        if v[1] is not None:
            ims.append(v[1])
    r = z3.Sum(res) if len(res) > 1 else (res[0] if res else z3.RealVal(0))
    i = None
    if ims:
        i = z3.Sum(ims) if len(ims) > 1 else ims[0]
    return (r, i)


def inv_var(g, x, b, U):
    d = x.denominator if x.__class__ is Fraction else 1
    key = ("i", g, d)
    if key not in _vars:
        if b[1] is None:
            v = z3.Real("rcp!%d!%d" % (g, d))
            _vars[key] = (v, None)
            _side[key] = ([v * b[0] == 1], [("g", g)] + ([("r", g, d)] if d > 1 else []))
        else:
            v, w = z3.Real("rcp!%d.re" % g), z3.Real("rcp!%d.im" % g)
            _vars[key] = (v, w)
            _side[key] = ([v * b[0] - w * b[1] == 1, v * b[1] + w * b[0] == 0], [("g", g)])
    _need(key, U)
    return _vars[key]


def clear_neg(E):
    """multiply by a positive monomial so positive generators have no negative power"""
    mn = {}
    for (m, k, e) in E.t:
        for g, x in m:
            G = X.GENS[g]
            if x < 0 and (G.pos) and g not in X.SQ:
                if x < mn.get(g, 0):
                    mn[g] = x
    if not mn:
        return E
    f = Expr({(tuple(sorted((g, -x) for g, x in mn.items())), 0, 0): X.F1})
    return E * f


def tb(c, U):
    """SymBool -> z3 Bool"""
    if c.op == "const":
        return z3.BoolVal(c.a)
    if c.op == "not":
        return z3.Not(tb(c.a, U))
    if c.op == "and":
        return z3.And(tb(c.a, U), tb(c.b, U))
    if c.op == "or":
        return z3.Or(tb(c.a, U), tb(c.b, U))
    if c.op == "raw":
        return c.a(U)
    E = clear_neg(c.a)
    if c.op == "eq":
        E = clear_neg(E.clear())
        r, i = tr(E, U)
        return r == 0 if i is None else z3.And(r == 0, i == 0)
    r, i = tr(E, U)
    return r < 0 if c.op == "lt" else r <= 0


def nonzero(E, U):
    r, i = tr(clear_neg(E), U)
    return r != 0 if i is None else z3.Or(r != 0, i != 0)


def sides(U):
    out = []
    done = set()
    stack = list(U.order)
    while stack:
        k = stack.pop()
        if k in done:
            continue
        done.add(k)
        s, d = _side[k]
        out += s
        stack += d
    return out


def _conj_key(key):
    c = Expr({key: X.F1}).conj()
    if len(c.t) != 1:
        return key, X.F1
    k2, v = next(iter(c.t.items()))
    return k2, v


class Lin:
    """linear relaxation: every monomial is its own unknown; squares of moduli are >= 0"""
    def __init__(self):
        self.v = {}
        self.keys = set()
        self.facts = []

    def var(self, key):
        r = self.v.get(key)
        if r is None:
            k2, c = _conj_key(key)
            z = z3.Real("lin!%d" % len(self.v))
            r = (z, Fraction(1))
            self.v[key] = r
            if k2 != key and c == 1 and k2 not in self.v:
                self.v[k2] = r
            elif k2 != key and k2 in self.v and c == 1:
                r = self.v[k2]
                self.v[key] = r
            s = mono_sign(key)
            if s:
                self.facts.append(z > 0 if s == 2 else z >= 0)
            m, k, e = key
            if len(m) == 1 and m[0][1] == 1 and not k and not e:
                G = X.GENS[m[0][0]]
                if G.kind != "c":
                    if G.lo is not None:
                        self.facts.append(z >= rv(X.frac(G.lo)))
                    if G.hi is not None:
                        self.facts.append(z <= rv(X.frac(G.hi)))
        return r[0]

    def lin(self, E):
        out = []
        for key, c in E.t.items():
            m, k, e = key
            self.keys.add(key)
            out.append(rv(c) * self.var(key) if m or k or e else rv(c))
        return z3.Sum(out) if out else z3.RealVal(0)

    def tb(self, c):
        if c.op == "const":
            return z3.BoolVal(c.a)
        if c.op == "not":
            return z3.Not(self.tb(c.a))
        if c.op == "and":
            return z3.And(self.tb(c.a), self.tb(c.b))
        if c.op == "or":
            return z3.Or(self.tb(c.a), self.tb(c.b))
        if c.op == "raw" or c.op == "eq" and not c.a.is_real():
            return z3.FreshBool("lin")
        if not c.a.t:
            return z3.BoolVal(c.op in ("eq", "le"))
        E = X._pos_content(c.a)[1]
        l = self.lin(E)
        return l == 0 if c.op == "eq" else l < 0 if c.op == "lt" else l <= 0

    def add_facts(self):
        E_keys = list(self.keys)
        E_set = set(E_keys)
        if len(E_keys) > 2500:
            return
        for Z in list(X.NONNEG):
            if len(Z.t) < 2:
                continue
            ks = sorted(Z.t, key=X._lead_key)
            done = set()
            for M in (ks[0], ks[-1]):
                inv = Expr({M: X.F1})
                md = dict(M[0])
                for T in E_keys:
                    if T[1] != M[1] or T[2] != M[2]:
                        continue
                    td = dict(T[0])
                    q = {}
                    ok = True
                    for g in set(md) | set(td):
                        x = td.get(g, 0) - md.get(g, 0)
                        if x:
                            if not X.GENS[g].pos:
                                ok = False
                                break
                            q[g] = x
                    if not ok:
                        continue
                    qm = tuple(sorted(q.items()))
                    if qm in done:
                        continue
                    done.add(qm)
                    if len(done) > 12:
                        break
                    if len(Z.t) > 30 and sum((_mono(kk, qm) in E_set) for kk in Z.t) < 2:
                        continue      # a big fact about something else
                    self.facts.append(self.lin(Z * Expr({(qm, 0, 0): X.F1}) if qm else Z) >= 0)


def _bound(key):
    """upper bound of the magnitude of a monomial from the bounds of its generators, or None"""
    m, k, e = key
    if e:
        return None
    b = Fraction(1)
    for g, x in m:
        G = X.GENS[g]
        if g in X.CONST_VAL:
            v = Fraction(X.CONST_VAL[g])
            lo, hi = v * Fraction(999999999999, 10**12), v * Fraction(1000000000001, 10**12)
        elif g in X.SQ or g in X.INV or g in X.ANG:
            return None
        elif G.kind == "c":
            B = G if G.hi is not None else X.GENS[G.conj]
            if B.hi is None:
                return None
            lo, hi = Fraction(0), X.frac(B.hi) * Fraction(3, 2)
        elif G.lo is None or G.hi is None:
            return None
        else:
            l, h = X.frac(G.lo), X.frac(G.hi)
            lo, hi = (l, h) if l > 0 else (Fraction(0), max(abs(l), abs(h)))
        w = hi if x > 0 else lo
        if w == 0:
            if x < 0:
                return None
            return Fraction(0)
        if x == int(x):
            b *= w ** int(x)
        else:
            b *= Fraction(float(w) ** float(x)) * Fraction(1000001, 1000000)
    return b


def surely_within(ds, t):
    """the solver shows |Re d|, |Im d| <= t from the bounds of every monomial alone"""
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 20000)
    fs = []
    n = 0
    for d in ds:
        re, im = [], []
        for key, c in d.t.items():
            b = _bound(key)
            if b is None:
                return False
            for part in (re, im):
                v = z3.Real("mono!%d" % n)
                n += 1
                s.add(v <= rv(b), v >= rv(-b))
                part.append(rv(c) * v)
        for part in (re, im):
            fs += [z3.Sum(part) > rv(t), z3.Sum(part) < rv(-t)]
    s.add(z3.Or(*fs))
    STAT["queries"] += 1
    r = s.check() == z3.unsat
    STAT["unsat" if r else "unknown"] += 1
    return r


def _mono(key, qm):
    return (X._mono_mul(key[0], qm)[0], key[1], key[2]) if qm else key


def mono_sign(key):
    """2 if the monomial is > 0, 1 if >= 0, 0 if unknown"""
    m, k, e = key
    if k:
        return 0
    if e and not X.EXPS[e].is_real():
        return 0
    s = 2
    d = dict(m)
    for g, x in m:
        G = X.GENS[g]
        if G.pos:
            continue
        if g in X.SQ:
            s = 1
        elif G.kind != "c" and x.__class__ is int and x % 2 == 0:
            s = 1
        elif g in X.INV:
            if not X.INV[g].is_real() or not inv_positive(g):
                return 0
        elif G.kind == "c":
            if G.conj is None or d.get(G.conj) != x:
                return 0
            s = 1
        else:
            return 0
    return s


_invpos = {}


def inv_positive(g):
    """1/p > 0 wherever it exists, p a sum of squares"""
    if g not in _invpos:
        _invpos[g] = False
        from .sym import SymBool
        if len(X.INV[g].t) < 2000:
            _invpos[g] = linear_unsat([SymBool("lt", X.INV[g])])
    return _invpos[g]


def _size(c):
    if c.op in ("and", "or"):
        return _size(c.a) + _size(c.b)
    if c.op == "not":
        return _size(c.a)
    return len(c.a.t) if isinstance(c.a, Expr) else 1


def linear_unsat(conds):
    """True if the linear relaxation of the conditions has no solution (sound for 'unsat' only)"""
    L = Lin()
    fs = [L.tb(c) for c in conds]
    if not L.v:
        return False
    L.add_facts()
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 1500)
    s.add(*fs)
    s.add(*L.facts)
    return s.check() == z3.unsat


def check(constraints, timeout_ms=5000, want_model=False):
    """constraints: list of functions U -> z3 Bool, or SymBools.  Returns (verdict, model)"""
    import time
    t0 = time.time()
    U = Used()
    fs = []
    if not any(callable(c) for c in constraints) and sum(_size(c) for c in constraints) < 6000:
        if linear_unsat(constraints):
            STAT["queries"] += 1
            STAT["unsat"] += 1
            STAT["time"] += time.time() - t0
            return "unsat", None
        v, pt = ival.solve(constraints, 0.3)
        if v == "unsat" or v == "sat":
            STAT["queries"] += 1
            STAT[v] += 1
            STAT["interval"] = STAT.get("interval", 0) + 1
            STAT["time"] += time.time() - t0
            return v, (Point(pt) if v == "sat" and want_model else None)
    for c in constraints:
        fs.append(c(U) if callable(c) else tb(c, U))
    fs += sides(U)
    fs = [f for f in fs if not z3.is_true(f)]
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*fs)
    r = s.check()
    if r == z3.unknown:
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", timeout_ms)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    if r == z3.unknown and not any(callable(c) for c in constraints):
        v, pt = ival.solve(constraints, max(1.0, timeout_ms / 1000.0))
        if v != "unknown":
            STAT["queries"] += 1
            STAT[v] += 1
            STAT["interval"] = STAT.get("interval", 0) + 1
            STAT["time"] += time.time() - t0
            return v, (Point(pt) if v == "sat" and want_model else None)
    STAT["queries"] += 1
    STAT["time"] += time.time() - t0
    v = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
    STAT[v] += 1
    return v, (s.model() if v == "sat" and want_model else None)


class Point:
    """a solution found by the interval solver: generator -> value"""
    def __init__(self, vals):
        self.vals = vals


def model_value(model, v):
    x = model.eval(v, model_completion=True)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
