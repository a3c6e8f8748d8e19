"""Interval branch-and-prune for conditions over box-bounded real unknowns.

Every operation is computed in double precision on vectors of boxes and widened outwards, so an interval always contains the
true range; a box is discarded only when some condition is certainly false on all of it.  The verdict "unsat" means that
every box was discarded; "sat" that the conditions certainly hold at one point."""
import math, time
import numpy as np
from . import expr as X
from .expr import Expr

REL = 8e-16
TINY = 1e-290


class Give(Exception):
    pass


def _out(lo, hi):
    return lo - np.abs(lo) * REL - TINY, hi + np.abs(hi) * REL + TINY


def _add(a, b):
    return _out(a[0] + b[0], a[1] + b[1])


def _mul(a, b):
    with np.errstate(all="ignore"):
        p = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        p = [np.where(np.isnan(x), 0.0, x) for x in p]
    lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
    hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
    return _out(lo, hi)


def _inv(a):
    lo, hi = a
    with np.errstate(all="ignore"):
        bad = (lo <= 0) & (hi >= 0)
        # one-sided zero
        l = np.where(bad, -np.inf, 1.0 / hi)
        h = np.where(bad, np.inf, 1.0 / lo)
    return _out(l, h)


def _ipow(a, n):
    if n == 0:
        return np.ones_like(a[0]), np.ones_like(a[0])
    if n < 0:
        return _inv(_ipow(a, -n))
    lo, hi = a
    with np.errstate(all="ignore"):
        if n % 2:
            l, h = lo ** n, hi ** n
        else:
            l, h = lo ** n, hi ** n
            m = np.maximum(l, h)
            l = np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(l, h))
            h = m
    for _ in range(max(1, n.bit_length())):
        l, h = _out(l, h)
    return l, h


def _rpow(a, f):
    """a**f for a >= 0, f a Fraction"""
    lo, hi = np.maximum(a[0], 0.0), np.maximum(a[1], 0.0)
    p = float(f)
    with np.errstate(all="ignore"):
        l, h = lo ** p, hi ** p
        if f < 0:
            l, h = h, l
    l = l - np.abs(l) * 4e-15
    h = h + np.abs(h) * 4e-15 + TINY
    return np.maximum(l, 0.0), h


def _cosr(lo, hi):
    w = hi - lo
    full = ~(w < 6.2) | ~(np.abs(lo) < 1e8)
    with np.errstate(all="ignore"):
        c0, c1 = np.cos(lo), np.cos(hi)
        mx = np.maximum(c0, c1)
        mn = np.minimum(c0, c1)
        k = np.floor((hi + 1e-7) / (2 * math.pi))
        hasmax = 2 * math.pi * k >= lo - 1e-7
        k = np.floor((hi + 1e-7 - math.pi) / (2 * math.pi))
        hasmin = 2 * math.pi * k + math.pi >= lo - 1e-7
    mx = np.where(hasmax | full, 1.0, np.minimum(mx + 1e-7, 1.0))
    mn = np.where(hasmin | full, -1.0, np.maximum(mn - 1e-7, -1.0))
    return mn, mx


class Boxes:
    """evaluation of expressions over a vector of boxes: lo/hi per base generator"""
    def __init__(self, names, lo, hi):
        self.names = names
        self.pos = {g: i for i, g in enumerate(names)}
        self.lo, self.hi = lo, hi
        self.B = lo.shape[1]
        self.memo = {}
        self.ememo = {}

    def full(self, l, h):
        return np.full(self.B, float(l)), np.full(self.B, float(h))

    def gen(self, g):
        r = self.memo.get(g)
        if r is None:
            r = self.memo[g] = self._gen(g)
        return r

    def _gen(self, g):
        """(interval of the real value) or a 4-tuple rectangle"""
        G = X.GENS[g]
        i = self.pos.get(g)
        if i is not None:
            return self.lo[i], self.hi[i]
        if g in X.CONST_VAL:
            v = float(X.CONST_VAL[g])
            if G.name[0] == "#":
                return self.full(v, v)
            return _out(*self.full(v, v))
        lo = -np.inf if G.lo is None else float(G.lo)
        hi = np.inf if G.hi is None else float(G.hi)
        if G.kind == "c" and g not in X.INV:
            M = hi * (1 + 1e-9)
            return (*self.full(-M, M), *self.full(-M, M))
        if g in X.INV:
            v = self.ev(X.INV[g])
            if len(v) == 2:
                return _inv(v)
            n = _add(_ipow(v[:2], 2), _ipow(v[2:], 2))
            n = _inv(n)
            return (*_mul(v[:2], n), *_mul((-v[3], -v[2]), n))
        if g in X.SQ:
            v = self.re(self.ev(X.SQ[g]))
            l, h = np.sqrt(np.maximum(v[0], 0)), np.sqrt(np.maximum(v[1], 0))
            l, h = _out(l, h)
            return np.maximum(l, 0), h
        if g in X.ANG:
            return self.full(-math.pi - 1e-9, math.pi + 1e-9)
        d = G.defn
        if isinstance(d, tuple) and d[0] == "pow":
            return _rpow(self.re(self.ev(d[1])), d[2])
        if isinstance(d, tuple) and str(d[0]).startswith("fn:") and isinstance(d[1], Expr):
            nm = d[0][3:]
            if nm in ("arcsin", "arccos", "arctan", "log"):
                v = self.re(self.ev(d[1]))
                with np.errstate(all="ignore"):
                    if nm == "arctan":
                        l, h = np.arctan(v[0]), np.arctan(v[1])
                    elif nm == "log":
                        l, h = np.log(np.maximum(v[0], 0)), np.log(np.maximum(v[1], 0))
                    else:
                        a, b = np.clip(v[0], -1, 1), np.clip(v[1], -1, 1)
                        l, h = (np.arcsin(a), np.arcsin(b)) if nm == "arcsin" else (np.arccos(b), np.arccos(a))
                return np.maximum(l - np.abs(l) * 1e-14 - 1e-15, lo), np.minimum(h + np.abs(h) * 1e-14 + 1e-15, hi)
            if nm == "max":
                a, b = self.re(self.ev(d[1])), self.re(self.ev(d[2]))
                return np.maximum(a[0], b[0]), np.maximum(a[1], b[1])
            if nm in ("wrapn", "unwrapn"):
                return self.full(-np.inf, np.inf)
        return self.full(max(lo, 0.0) if G.pos else lo, hi)

    def re(self, v):
        return v[:2]

    def ev(self, E):
        r = self.ememo.get(id(E))
        if r is not None and r[0] is E:
            return r[1]
        re = None
        im = None
        for (m, k, e), c in E.t.items():
            a = self.full(1, 1)
            b = None           # imaginary part
            f = float(c)
            a = _out(*self.full(f, f)) if f != c else self.full(f, f)
            done = set()
            dm = dict(m)
            for g, x in m:
                if g in done:
                    continue
                G = X.GENS[g]
                if G.kind == "c" and g not in X.INV and G.conj is not None and dm.get(G.conj) == x:
                    done.add(G.conj)
                    M = np.inf if X.GENS[g].hi is None and X.GENS[G.conj].hi is None else float(X.GENS[g].hi or X.GENS[G.conj].hi) * math.sqrt(2)
                    v = self.full(0, M * M * (1 + 1e-9))
                    v = _ipow(v, x) if x.__class__ is int else _rpow(v, x)
                else:
                    v = self.gen(g)
                    if len(v) == 4:
                        if x.__class__ is not int:
                            raise Give
                        w = v
                        if x < 0:
                            n = _inv(_add(_ipow(v[:2], 2), _ipow(v[2:], 2)))
                            w = (*_mul(v[:2], n), *_mul((-v[3], -v[2]), n))
                        for _ in range(abs(x)):
                            a, b = self.cmul(a, b, w[:2], w[2:])
                        continue
                    v = _ipow(v, x) if x.__class__ is int else _rpow(v, x)
                a = _mul(a, v)
                if b is not None:
                    b = _mul(b, v)
            if k:
                th = math.pi * k / X.PH
                cc, ss = math.cos(th), math.sin(th)
                z = (1e-15, 1e-15)
                if k == X.IPH:
                    a, b = self.cmul(a, b, self.full(0, 0), self.full(1, 1))
                else:
                    a, b = self.cmul(a, b, self.full(cc - 1e-15, cc + 1e-15), self.full(ss - 1e-15, ss + 1e-15))
            if e:
                v = self.ev(X.EXPS[e])
                with np.errstate(all="ignore"):
                    l, h = np.exp(v[0]), np.exp(v[1])
                mag = (l * (1 - 1e-14), h * (1 + 1e-14) + TINY)
                if len(v) == 2:
                    a = _mul(a, mag)
                    if b is not None:
                        b = _mul(b, mag)
                else:
                    if not np.all(v[0] == 0) or not np.all(v[1] == 0):
                        a = _mul(a, mag)
                        b = _mul(b, mag) if b is not None else None
                    cs = _cosr(v[2], v[3])
                    sn = _cosr(v[2] - math.pi / 2, v[3] - math.pi / 2)
                    a, b = self.cmul(a, b, cs, sn)
            re = a if re is None else _add(re, a)
            if b is not None:
                im = b if im is None else _add(im, b)
        if re is None:
            re = self.full(0, 0)
        r = re if im is None else (*re, *im)
        self.ememo[id(E)] = (E, r)
        return r

    def cmul(self, a, b, c, d):
        """(a + i b)(c + i d), b possibly None"""
        if b is None:
            return _mul(a, c), _mul(a, d)
        x, y = _mul(b, d), _mul(b, c)
        return _add(_mul(a, c), (-x[1], -x[0])), _add(_mul(a, d), y)

    # ---- truth: +1 certainly true, -1 certainly false, 0 unknown
    def truth(self, c):
        if c.op == "const":
            return np.full(self.B, 1 if c.a else -1)
        if c.op == "not":
            return -self.truth(c.a)
        if c.op == "and":
            return np.minimum(self.truth(c.a), self.truth(c.b))
        if c.op == "or":
            return np.maximum(self.truth(c.a), self.truth(c.b))
        if c.op == "raw":
            return np.zeros(self.B, int)
        E = simplify(c.a, c.op)
        v = self.ev(E)
        if c.op == "eq":
            f = (v[0] > 0) | (v[1] < 0)
            if len(v) == 4:
                f = f | (v[2] > 0) | (v[3] < 0)
            return np.where(f, -1, 0)
        lo, hi = v[:2]
        if c.op == "lt":
            return np.where(hi < 0, 1, np.where(lo >= 0, -1, 0))
        return np.where(hi <= 0, 1, np.where(lo > 0, -1, 0))

    def take(self, idx):
        return Boxes(self.names, self.lo[:, idx], self.hi[:, idx])


_simp = {}


def simplify(E, op):
    """divide by a common factor that is positive"""
    key = E
    r = _simp.get(key)
    if r is None:
        r = E
        if E.t and E.is_real():
            r = X._pos_content(_flip(E))[1]
            com = None
            for (m, k, e) in r.t:
                d = {g: x for g, x in m if g in X.SQ and x > 0}
                com = d if com is None else {g: min(x, d[g]) for g, x in com.items() if g in d}
            # only roots of quantities that are certainly positive
            com = {g: x for g, x in (com or {}).items() if _surely_pos(X.SQ[g])}
            if com:
                t = {}
                for (m, k, e), c in r.t.items():
                    mm = tuple((g, x - com.get(g, 0)) for g, x in m)
                    t[(tuple((g, x) for g, x in mm if x), k, e)] = c
                r = Expr(t)
        if len(_simp) > 20000:
            _simp.clear()
        _simp[key] = r
    return r


def _flip(E):
    """replace common factors 1/p by p (same sign)"""
    for _ in range(4):
        com = None
        for (m, k, e) in E.t:
            s = {g for g, x in m if g in X.INV and x.__class__ is int and x % 2 and X.GENS[g].kind != "c"}
            com = s if com is None else com & s
            if not com:
                return E
        g = max(com)
        if len(X.INV[g].t) * len(E.t) > 400:
            return E
        t = {}
        for (m, k, e), c in E.t.items():
            t[(tuple((h, x - 1 if h == g else x) for h, x in m if h != g or x != 1), k, e)] = c
        E = Expr(t) * X.INV[g]
    return E


_sp = {}


def _surely_pos(p):
    r = _sp.get(p)
    if r is None:
        from .sym import SymBool
        from . import zb
        r = zb.linear_unsat([SymBool("le", p)]) or solve([SymBool("le", p)], 0.5)[0] == "unsat"
        _sp[p] = r
    return r


def _gens(c, acc):
    if c.op in ("and", "or"):
        _gens(c.a, acc)
        _gens(c.b, acc)
    elif c.op == "not":
        _gens(c.a, acc)
    elif isinstance(c.a, Expr):
        c.a.gens(acc)


def nterms(c):
    if c.op in ("and", "or"):
        return nterms(c.a) + nterms(c.b)
    if c.op == "not":
        return nterms(c.a)
    return len(c.a.t) if isinstance(c.a, Expr) else 0


def solve(conds, budget, max_boxes=200000):
    """('unsat'|'sat'|'unknown', point or None)"""
    t0 = time.time()
    flat = []
    stack = list(conds)
    while stack:
        c = stack.pop()
        if c.op == "and":
            stack += [c.a, c.b]
        elif c.op == "not" and c.a.op == "or":
            from .sym import SymBool
            stack += [SymBool("not", c.a.a), SymBool("not", c.a.b)]
        elif c.op != "const" or not c.a:
            flat.append(c)
    flat.sort(key=nterms)
    big = [c for c in flat if nterms(c) <= 400]
    dropped = len(big) < len(flat)
    flat = big
    if not flat:
        return "unknown", None
    acc = set()
    for c in flat:
        _gens(c, acc)
    names = []
    for g in sorted(acc):
        G = X.GENS[g]
        if G.kind == "c" or G.defn is not None or g in X.CONST_VAL or G.lo is None or G.hi is None or g in X.INV or g in X.SQ:
            continue
        names.append(g)
    try:
        return _run(flat, names, t0, budget, max_boxes, dropped)
    except (Give, OverflowError, X.DomainError, ValueError):
        return "unknown", None


def _run(flat, names, t0, budget, max_boxes, dropped):
    n = len(names)
    lo = np.array([[float(X.GENS[g].lo)] for g in names]).reshape(n, 1)
    hi = np.array([[float(X.GENS[g].hi)] for g in names]).reshape(n, 1)
    w0 = np.maximum(hi - lo, 1e-300)
    level = 0
    allgens = set()
    for c in flat:
        _gens(c, allgens)
    closed = all(X.GENS[g].kind != "c" for g in allgens)
    work = [(lo, hi)]
    count = 0
    tried = 0
    while work:
        lo, hi = work.pop()
        if lo.shape[1] > 2048:
            h = lo.shape[1] // 2
            work += [(lo[:, h:], hi[:, h:]), (lo[:, :h], hi[:, :h])]
            continue
        if time.time() - t0 > budget or count > max_boxes:
            return "unknown", None
        count += lo.shape[1]
        B = Boxes(names, lo, hi)
        alive = np.ones(B.B, bool)
        every = np.ones(B.B, bool)
        undecided = []
        for c in flat:
            t = B.truth(c)
            alive &= t >= 0
            every &= t > 0
            if (t == 0).any():
                undecided.append(c)
            if not alive.any():
                break
        if not alive.any():
            continue
        sure = alive & every
        if sure.any() and not dropped:
            i = int(np.argmax(sure))
            return "sat", {g: float((lo[j, i] + hi[j, i]) / 2) for j, g in enumerate(names)}
        lo, hi = lo[:, alive], hi[:, alive]
        if closed and not dropped and tried < 12:
            # a point
            tried += 1
            mid = (lo[:, :64] + hi[:, :64]) / 2
            P = Boxes(names, mid, mid)
            ok = np.ones(P.B, bool)
            for c in flat:
                ok &= P.truth(c) > 0
                if not ok.any():
                    break
            if ok.any():
                i = int(np.argmax(ok))
                return "sat", {g: float(mid[j, i]) for j, g in enumerate(names)}
        if n == 0:
            return "unknown", None
        # which variable narrows the undecided conditions most
        u = undecided[-1] if undecided else flat[-1]
        E = _main(u)
        ax = None
        if E is not None and n > 1:
            mid = (lo + hi) / 2
            S = min(lo.shape[1], 256)
            best = None
            for j in range(n):
                l2, h2 = lo[:, :S].copy(), hi[:, :S].copy()
                l2[j], h2[j] = mid[j, :S], mid[j, :S]
                v = Boxes(names, l2, h2).ev(E)
                with np.errstate(all="ignore"):
                    w = np.nan_to_num(v[1] - v[0], nan=1e300, posinf=1e300)
                # break ties by relative width
                w = w * (1 - 1e-3 * ((hi[j, :S] - lo[j, :S]) / w0[j, 0]))
                best = w[None, :] if best is None else np.vstack([best, w[None, :]])
            votes = np.bincount(np.argmin(best, axis=0), minlength=n)
            ax = int(np.argmax(votes))
            rel = (hi - lo) / w0
            if rel[ax].max() < 1e-9:
                ax = None
        if ax is None:
            ax = int(np.argmax(((hi - lo) / w0).max(axis=1)))
        if ((hi - lo) / w0).max() < 1e-10:
            return "unknown", None
        m = (lo[ax] + hi[ax]) / 2
        l2, h2 = lo.copy(), hi.copy()
        h2[ax] = m
        l3, h3 = lo.copy(), hi.copy()
        l3[ax] = m
        work.append((np.hstack([l2, l3]), np.hstack([h2, h3])))
    return "unsat", None


def _main(c):
    if c.op == "not":
        return _main(c.a)
    if c.op in ("and", "or"):
        return _main(c.b)
    if isinstance(c.a, Expr):
        return simplify(c.a, c.op)
    return None
