"""Exact symbolic scalars.

An Expr is a finite sum of terms  c * mono * e^{i pi k/12288} * exp(P)  with c a
rational, mono a product of powers of generators (real or complex unknowns and
algebraic atoms), k a phase index and P another Expr (interned).  Equal normal
forms mean equal values; the converse holds up to the algebraic atoms, whose
defining equations are applied by `clear()` and handed to the solver.
"""
from fractions import Fraction
import math, cmath
import numbers
import mpmath

PH = 12288            # pi
FULL = 2 * PH
IPH = PH // 2         # i = e^{i pi/2}
F0, F1 = Fraction(0), Fraction(1)

TRUNC = {}            # gid -> highest exponent kept (truncated power series)


class Gen:
    __slots__ = ("gid", "name", "kind", "pos", "lo", "hi", "conj", "defn", "integer", "nz", "args")

    def __init__(self, gid, name, kind, pos=False, lo=None, hi=None, defn=None, integer=False, nz=False):
        self.gid, self.name, self.kind = gid, name, kind
        self.pos, self.lo, self.hi, self.defn = pos, lo, hi, defn
        self.conj = gid
        self.integer = integer
        self.nz = nz or pos

    def __repr__(self):
        return self.name


GENS = []
BYNAME = {}
SQ = {}               # gid of sqrt atom -> Expr p   (g*g == p)
INV = {}              # gid of inverse atom -> Expr p (g*p == 1)
ANG = {}              # gid of angle atom -> Expr z   (g == arg z)
PRIME = {}            # gid of a prime-number constant -> the prime (kept at exponents between 0 and 1)
ATOMS = {}            # structural key -> gid
EXPS = [None]         # exponent table, id 0 = no factor
EXPID = {}
_mono_cache = {}
_exp_cache = {}


class DomainError(Exception):
    """An operation left the domain this engine encodes."""


def new_gen(name, kind, **kw):
    g = BYNAME.get((name, kind))
    if g is not None:
        for k, v in kw.items():
            setattr(g, k, v)
        return g
    g = Gen(len(GENS), name, kind, **kw)
    GENS.append(g)
    BYNAME[(name, kind)] = g
    if kind == "c":
        h = Gen(len(GENS), name + "*", "c")
        GENS.append(h)
        g.conj, h.conj = h.gid, g.gid
    return g


def _mono_mul(a, b):
    """product of two monomials; also says whether sqrt powers need reducing"""
    if not a:
        return b, False
    if not b:
        return a, False
    key = (a, b) if a <= b else (b, a)
    r = _mono_cache.get(key)
    if r is not None:
        return r
    out = []
    red = False
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, gb = a[i][0], b[j][0]
        if ga == gb:
            e = a[i][1] + b[j][1]
            if e != 0:
                if e.__class__ is Fraction and e.denominator == 1:
                    e = e.numerator
                out.append((ga, e))
                if ga in SQ and e != 1 or ga in PRIME and not 0 < e < 1:
                    red = True
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = (tuple(out), red)
    if len(_mono_cache) > 2000000:
        _mono_cache.clear()
    _mono_cache[key] = r
    return r


def _canon_phase(k):
    """list of (sign, canonical k)"""
    k %= FULL
    if k % 3 == 0:
        return ((1, k),) if k < PH else ((-1, k - PH),)
    v = (2 * k) % 3
    u = ((k - 8192 * v) // 3) % 8192
    s = 1
    if u >= 4096:
        u -= 4096
        s = -1
    if v == 1:
        return ((s, 3 * u + 8192),)
    return ((-s, 3 * u), (-s, 3 * u + 8192))


_phase_cache = {}


def _phase(k):
    r = _phase_cache.get(k)
    if r is None:
        r = _phase_cache[k] = _canon_phase(k)
    return r


def _exp_intern(e):
    """intern an exponent Expr (not zero) -> id"""
    key = frozenset(e.t.items())
    i = EXPID.get(key)
    if i is None:
        i = len(EXPS)
        EXPS.append(e)
        EXPID[key] = i
    return i


def _exp_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b) if a < b else (b, a)
    r = _exp_cache.get(key)
    if r is None:
        s = EXPS[a] + EXPS[b]
        r = _exp_intern(s) if s.t else 0
        _exp_cache[key] = r
    return r


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise DomainError("non-finite constant %r" % x)
    return Fraction(repr(x))


class Expr:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    # ---- construction
    @staticmethod
    def const(c):
        c = frac(c)
        return Expr({((), 0, 0): c}) if c else ZERO

    @staticmethod
    def gen(g, e=1):
        return Expr({(((g.gid, e),), 0, 0): F1})

    # ---- basics
    def __eq__(self, o):
        return self is o or (o.__class__ is Expr and self.t == o.t)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def same(self, o):
        return self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        """rational constant"""
        t = self.t
        return not t or (len(t) == 1 and ((), 0, 0) in t)

    def const_value(self):
        return self.t.get(((), 0, 0), F0)

    def __neg__(self):
        return Expr({k: -v for k, v in self.t.items()})

    def __add__(self, o):
        a, b = self.t, o.t
        if not a:
            return o
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for k, v in b.items():
            w = r.get(k)
            if w is None:
                r[k] = v
            else:
                w = w + v
                if w:
                    r[k] = w
                else:
                    del r[k]
        return Expr(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return ZERO
        if c == 1:
            return self
        return Expr({k: v * c for k, v in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) == 1 and ((), 0, 0) in a:
            return o.scale(a[((), 0, 0)])
        if len(b) == 1 and ((), 0, 0) in b:
            return self.scale(b[((), 0, 0)])
        if len(a) > 1 and len(b) > 1 and INV:
            c = _cancel(self, o)
            if c is not None:
                return c
        elif INV and (len(a) > 1 or len(b) > 1):
            c = _cancel(self, o)
            if c is not None:
                return c
        r = {}
        later = None
        trunc = TRUNC
        bl = b.items()
        groups = None
        if len(trunc) == 1 and len(a) * len(b) > 64:
            tg, lim = next(iter(trunc.items()))
            groups = {}
            for it in bl:
                groups.setdefault(next((x for g, x in it[0][0] if g == tg), 0), []).append(it)
            lo = {}
        for (m1, k1, e1), c1 in a.items():
            if groups is not None:
                d1 = next((x for g, x in m1 if g == tg), 0)
                bl = lo.get(d1)
                if bl is None:
                    bl = lo[d1] = [it for d, its in groups.items() if d1 + d <= lim for it in its]
            for (m2, k2, e2), c2 in bl:
                m, red = _mono_mul(m1, m2)
                if trunc and _truncated(m):
                    continue
                c = c1 * c2
                e = _exp_mul(e1, e2) if (e1 or e2) else 0
                if red:
                    if later is None:
                        later = []
                    later.append((m, k1 + k2, e, c))
                    continue
                k = k1 + k2
                if k == 0:
                    key = (m, 0, e)
                    w = r.get(key)
                    if w is None:
                        r[key] = c
                    else:
                        w = w + c
                        if w:
                            r[key] = w
                        else:
                            del r[key]
                    continue
                for s, kk in _phase(k):
                    key = (m, kk, e)
                    cc = c if s > 0 else -c
                    w = r.get(key)
                    if w is None:
                        r[key] = cc
                    else:
                        w = w + cc
                        if w:
                            r[key] = w
                        else:
                            del r[key]
        if later:
            for m, k, e, c in later:
                for key, v in _reduced_term(m, k, e, c).t.items():
                    w = r.get(key)
                    if w is None:
                        r[key] = v
                    else:
                        w = w + v
                        if w:
                            r[key] = w
                        else:
                            del r[key]
        return Expr(r)

    def pow_int(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return self.inv().pow_int(-n)
        if len(self.t) == 1:
            (m, k, e), c = next(iter(self.t.items()))
            ok = not any(g in SQ or g in PRIME for g, _ in m) and k % 3 == 0
            if ok:
                mm = tuple((g, _ip(x * n)) for g, x in m)
                ee = 0
                if e:
                    ee = _exp_intern(EXPS[e].scale(Fraction(n)))
                if TRUNC and _truncated(mm):
                    return ZERO
                r = {}
                for s, kk in _phase(k * n % FULL):
                    r[(mm, kk, ee)] = c ** n * s
                return Expr(r)
        r = None
        base = self
        while n:
            if n & 1:
                r = base if r is None else r * base
            n >>= 1
            if n:
                base = base * base
        return r

    def inv(self):
        t = self.t
        if not t:
            raise ZeroDivisionError("symbolic division by zero")
        if TRUNC:
            s = _series_inv(self)
            if s is not None:
                return s
        if len(t) == 1:
            (m, k, e), c = next(iter(t.items()))
            mm = tuple((g, -x) for g, x in m if g not in INV or x < 0)
            ee = 0
            if e:
                ee = _exp_intern(-EXPS[e])
            r = _reduced_term(mm, -k, ee, 1 / c) if any(g in SQ or g in PRIME for g, _ in m) else _mk(mm, -k, ee, 1 / c)
            for g, x in m:
                if g in INV and x > 0:
                    r = r * INV[g].pow_int(int(x))
            return r
        com = None
        for (m, k, e) in t:
            d = {g: x for g, x in m if g in INV and x > 0}
            com = d if com is None else {g: min(x, d[g]) for g, x in com.items() if g in d}
            if not com:
                break
        if com:
            r = Expr({(_mono_mul(m, tuple(sorted((g, -x) for g, x in com.items())))[0], k, e): c for (m, k, e), c in t.items()}).inv()
            for g, x in com.items():
                r = r * INV[g].pow_int(int(x))
            return r
        lead, p = self.normalised()
        a = _alg_inv(p)
        if a is not None:
            return lead.inv() * a if isinstance(lead, Expr) else Expr.const(1 / lead) * a
        key = ("inv", p)
        g = _atom(key, "1/(%s)" % _short(p))
        if g.gid not in INV:
            INV[g.gid] = p
            if p.is_real():
                g.kind = "r"
            else:
                pc = p.conj()
                g.kind = "c"
                g.conj = None      # computed through INV
        return Expr({(((g.gid, 1),), 0, 0): F1}) * lead.inv()

    def normalised(self):
        """(leading term L, p) with self == L*p and p's leading coefficient 1"""
        t = self.t
        lead = max(t, key=_lead_key)
        c = t[lead]
        L = Expr({lead: c})
        m, k, e = lead
        if any(g in SQ or g in INV for g, _ in m) or k % 3:
            # keep sqrt powers where they are: divide only by the coefficient and plain generators
            m2 = tuple((g, x) for g, x in m if g not in SQ and g not in INV)
            L = Expr({(m2, k if k % 3 == 0 else 0, e): c})
            m, k = m2, (k if k % 3 == 0 else 0)
        if (k or (e and not EXPS[e].is_real()) or any(GENS[g].kind == "c" for g, _ in m)) and self.is_real():
            # a real value stays real
            m3 = tuple((g, x) for g, x in m if GENS[g].kind != "c")
            ee = 0
            if e:
                er = EXPS[e].real()
                ee = _exp_intern(er) if er.t else 0
            L = Expr({(m3, 0, ee): c})
        p = self * _invterm(L)
        return L, p

    def conj(self):
        out = None
        r = {}
        extra = []
        for (m, k, e), c in self.t.items():
            if any(GENS[g].kind == "c" for g, _ in m):
                mm = []
                bad = []
                for g, x in m:
                    G = GENS[g]
                    if G.kind == "c":
                        if G.conj is None:
                            bad.append((g, x))
                        else:
                            mm.append((G.conj, x))
                    else:
                        mm.append((g, x))
                mm = tuple(sorted(mm))
                if bad:
                    ee = _exp_intern(EXPS[e].conj()) if e else 0
                    te = _mk(mm, -k, ee, c)
                    for g, x in bad:
                        if g in INV:
                            te = te * INV[g].conj().pow_int(-x)
                        else:
                            raise DomainError("conjugate of complex atom")
                    extra.append(te)
                    continue
            else:
                mm = m
            ee = _exp_intern(EXPS[e].conj()) if e else 0
            for s, kk in _phase(-k):
                key = (mm, kk, ee)
                w = r.get(key, F0) + c * s
                if w:
                    r[key] = w
                else:
                    r.pop(key, None)
        out = Expr(r)
        for x in extra:
            out = out + x
        return out

    def is_real(self):
        for (m, k, e) in self.t:
            if k or e or any(GENS[g].kind == "c" for g, _ in m):
                return (self - self.conj()).is_zero()
        return True

    def real(self):
        if self.is_real():
            return self
        return (self + self.conj()).scale(Fraction(1, 2))

    def imag(self):
        if self.is_real():
            return ZERO
        return (self - self.conj()) * MI_HALF

    def gens(self, acc=None):
        """all generator ids, atoms' definitions included"""
        if acc is None:
            acc = set()
        for (m, k, e) in self.t:
            for g, _ in m:
                if g not in acc:
                    acc.add(g)
                    G = GENS[g]
                    if G.kind == "c" and G.conj is not None:
                        acc.add(G.conj)
                    d = SQ.get(g) or INV.get(g) or ANG.get(g)
                    if d is not None:
                        d.gens(acc)
                    elif isinstance(G.defn, tuple):
                        for a in G.defn[1:]:
                            if isinstance(a, Expr):
                                a.gens(acc)
            if e:
                EXPS[e].gens(acc)
        return acc

    def clear(self):
        """Multiply by denominators until no inverse atom is left.  Zero iff self is zero
        (denominators are nonzero wherever the expression is defined)."""
        e = self
        while True:
            mx = {}
            for (m, k, x) in e.t:
                for g, p in m:
                    if g in INV and p > mx.get(g, 0):
                        mx[g] = p
            if not mx:
                return e
            g = max(mx)                # latest definition first
            n = mx[g]
            p = INV[g]
            parts = {}
            for (m, k, x), c in e.t.items():
                d = 0
                mm = m
                for i, (gg, q) in enumerate(m):
                    if gg == g:
                        d = q
                        mm = m[:i] + m[i + 1:]
                        break
                parts.setdefault(d, {})[(mm, k, x)] = c
            out = ZERO
            for d, tt in parts.items():
                out = out + Expr(tt) * p.pow_int(n - d)
            e = out

    # ---- numeric evaluation
    def ev(self, env, mp=False):
        """evaluate at env: gid -> number (floats/complex); atoms computed on demand"""
        tot = mpmath.mpf(0) if mp else 0.0
        for (m, k, e), c in self.t.items():
            v = (mpmath.mpf(c.numerator) / c.denominator) if mp else (c.numerator / c.denominator)
            for g, x in m:
                b = gen_value(g, env, mp)
                if x.__class__ is Fraction:
                    b = (b ** (mpmath.mpf(x.numerator) / x.denominator)) if mp else b ** (x.numerator / x.denominator)
                else:
                    b = b ** x
                v = v * b
            if k:
                if mp:
                    v = v * mpmath.expjpi(mpmath.mpf(k) / PH)
                else:
                    v = v * (1j if k == IPH else cmath.exp(1j * math.pi * k / PH))
            if e:
                w = EXPS[e].ev(env, mp)
                if mp:
                    v = v * mpmath.exp(w)
                else:
                    w = complex(w)
                    if w.real > 700:
                        raise OverflowError
                    v = v * cmath.exp(w)
            tot = tot + v
        return tot

    def __repr__(self):
        return _short(self, 100000)


def _truncated(m):
    for g, x in m:
        lim = TRUNC.get(g)
        if lim is not None and x > lim:
            return True
    return False


def _ip(x):
    if x.__class__ is Fraction and x.denominator == 1:
        return x.numerator
    return x


def _lead_key(k):
    m, ph, e = k
    return (tuple(sorted(((g, x) for g, x in m), reverse=True)), ph, e)


def _mk(m, k, e, c):
    if TRUNC and _truncated(m):
        return ZERO
    r = {}
    for s, kk in _phase(k % FULL):
        r[(m, kk, e)] = c * s
    return Expr(r)


def _invterm(L):
    (m, k, e), c = next(iter(L.t.items()))
    mm = tuple((g, -x) for g, x in m)
    f = _reduced_term if any(g in PRIME for g, _ in m) else _mk
    return f(mm, -k, _exp_intern(-EXPS[e]) if e else 0, 1 / c)


def _reduced_term(m, k, e, c):
    """term whose sqrt-atom exponents may lie outside {0,1}"""
    keep = []
    out = None
    for g, x in m:
        if g in SQ and x != 1:
            q, r = divmod(x, 2)
            if isinstance(r, Fraction) and r.denominator != 1:
                raise DomainError("fractional power of a root atom")
            if r:
                keep.append((g, 1))
            f = SQ[g].pow_int(int(q))
            out = f if out is None else out * f
        elif g in PRIME:
            w = math.floor(x)
            c = c * Fraction(PRIME[g]) ** w
            if x != w:
                keep.append((g, x - w))
        else:
            keep.append((g, x))
    base = _mk(tuple(keep), k, e, c)
    return base if out is None else base * out


def _cancel(a, b):
    """(sum with inverse atoms) * (multiple of a denominator): cancel exactly"""
    for p, q in ((a, b), (b, a)):
        if len(q.t) < 2 or len(q.t) > 60 or len(p.t) > 400:
            continue
        common = None
        for (m, k, e) in p.t:
            s = {g for g, x in m if g in INV and x >= 1}
            common = s if common is None else common & s
            if not common:
                break
        if not common:
            continue
        L, qq = q.normalised()
        for g in common:
            if INV[g].t == qq.t:
                r = {}
                for (m, k, e), c in p.t.items():
                    mm = tuple((gg, x - 1 if gg == g else x) for gg, x in m)
                    mm = tuple((gg, x) for gg, x in mm if x != 0)
                    r[(mm, k, e)] = c
                return Expr(r) * L
    return None


def _series_inv(self):
    """1/(a0 + a1 eps + ...) truncated, when a0 is invertible without TRUNC gens"""
    a0 = {}
    rest = {}
    for key, c in self.t.items():
        if any(g in TRUNC for g, _ in key[0]):
            rest[key] = c
        else:
            a0[key] = c
    if not rest:
        return None
    if not a0:
        return None
    i0 = Expr(a0).inv()
    d = -(Expr(rest) * i0)
    out = ONE
    term = ONE
    while True:
        term = term * d
        if term.is_zero():
            return out * i0
        out = out + term


def _atom(key, name):
    g = ATOMS.get(key)
    if g is None:
        G = Gen(len(GENS), name, "r", defn=key)
        GENS.append(G)
        ATOMS[key] = G.gid
        return G
    return GENS[g]


def _short(e, n=60):
    out = []
    for (m, k, x), c in list(e.t.items())[: (n if n > 1000 else 8)]:
        s = str(c)
        for g, p in m:
            s += "*%s" % GENS[g].name + ("" if p == 1 else "^%s" % p)
        if k:
            s += "*i" if k == IPH else "*w%d" % k
        if x:
            s += "*exp(%s)" % _short(EXPS[x], n)
        out.append(s)
    r = " + ".join(out) or "0"
    return r if len(r) <= n else r[:n] + "..."


ZERO = Expr({})
ONE = Expr({((), 0, 0): F1})
I = Expr({((), IPH, 0): F1})
MI_HALF = Expr({((), IPH, 0): Fraction(-1, 2)})

PI = new_gen("pi", "r", pos=True)
CONST_VAL = {}        # gid -> (float value, Fraction value)


def const_gen(name, value):
    g = new_gen(name, "r", pos=True)
    CONST_VAL[g.gid] = value
    return Expr.gen(g)


CONST_VAL[PI.gid] = math.pi
EPI = Expr.gen(PI)


# ---------------------------------------------------------------- functions
def exp(E):
    if E.is_zero():
        return ONE
    ph = 0
    factor = ONE
    rest = {}
    ser = {}
    for (m, k, e), c in E.t.items():
        if TRUNC and any(g in TRUNC for g, _ in m):
            ser[(m, k, e)] = c
            continue
        if e == 0 and k == IPH and m == ((PI.gid, 1),):
            q = c * PH
            if q.denominator == 1:
                ph = (ph + q.numerator) % FULL
                continue
        if e == 0 and k == IPH and len(m) == 2 and c.denominator == 1 and c.numerator % 2 == 0 \
                and (m[0] == (PI.gid, 1) and GENS[m[1][0]].integer and m[1][1] == 1):
            continue      # exp(2 pi i n)
        if e == 0 and k == IPH and len(m) == 1 and m[0][0] in ANG and m[0][1] == 1 and c.denominator in (1, 2):
            z = ANG[m[0][0]]
            # e^{i arg z} = z/|z|
            if c.denominator == 1:
                factor = factor * (z * absval(z).inv()).pow_int(c.numerator)
                continue
        rest[(m, k, e)] = c
    out = factor
    if ph:
        out = out * _mk((), ph, 0, F1)
    if rest:
        out = out * Expr({((), 0, _exp_intern(Expr(rest))): F1})
    if ser:
        d = Expr(ser)
        s = ONE
        term = ONE
        n = 0
        while True:
            n += 1
            term = (term * d).scale(Fraction(1, n))
            if term.is_zero():
                break
            s = s + term
        out = out * s
    return out


def _isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


_SMALL = [p for p in range(2, 200) if all(p % d for d in range(2, int(p ** .5) + 1))]


def root_const(c, r):
    """c**r for rational c>0 and rational r: rational * product of root atoms"""
    # c = n/d ; factor small primes, remainder as one atom
    out_c = F1
    mono = []
    for val, sgn in ((c.numerator, 1), (c.denominator, -1)):
        n = val
        fac = {}
        for p in _SMALL:
            while n % p == 0:
                fac[p] = fac.get(p, 0) + 1
                n //= p
        if n > 1:
            s = _isqrt_exact(n)
            if s is not None:
                fac[s] = fac.get(s, 0) + 2
            else:
                fac[n] = fac.get(n, 0) + 1
        for p, k in fac.items():
            x = r * k * sgn
            w = x.numerator // x.denominator
            out_c *= Fraction(p) ** w
            f = x - w
            if f:
                g = new_gen("#%d" % p, "r", pos=True)
                CONST_VAL[g.gid] = float(p)
                PRIME[g.gid] = p
                mono.append((g.gid, f))
    e = Expr.const(out_c)
    for g, f in mono:
        e = e * Expr({(((g, f),), 0, 0): F1})
    return norm_consts(e)


def norm_consts(e):
    """integer powers of prime-constant generators back into the coefficient"""
    need = False
    for (m, k, x) in e.t:
        for g, p in m:
            if GENS[g].name[0] == "#":
                if p >= 1 or p < 0:
                    need = True
    if not need:
        return e
    out = ZERO
    for (m, k, x), c in e.t.items():
        mm = []
        for g, p in m:
            if GENS[g].name[0] == "#":
                w = Fraction(p).numerator // Fraction(p).denominator
                c = c * Fraction(int(GENS[g].name[1:])) ** w
                p = p - w
                if p:
                    mm.append((g, p))
            else:
                mm.append((g, p))
        out = out + Expr({(tuple(mm), k, x): c})
    return out


def pos_mono(m):
    return all(GENS[g].pos for g, _ in m)


def rpow(E, r):
    """E**r for rational r, E real and (assumed) nonnegative unless r is an integer"""
    r = Fraction(r)
    if r.denominator == 1:
        return norm_consts(E.pow_int(r.numerator))
    if E.is_zero():
        return ZERO
    if len(E.t) == 1:
        (m, k, e), c = next(iter(E.t.items()))
        if k == 0 and c > 0:
            pm = [(g, x) for g, x in m if GENS[g].pos and g not in SQ]
            rest = [(g, x) for g, x in m if not (GENS[g].pos and g not in SQ)]
            out = root_const(c, r)
            out = out * Expr({(tuple((g, _ip(x * r)) for g, x in pm), 0,
                               _exp_intern(EXPS[e].scale(r)) if e else 0): F1})
            out = norm_consts(out)
            if not rest:
                return out
            if r.denominator == 2:
                # even powers of real gens / |z|^2 pairs
                return out * _sqrt_atom(Expr({(tuple(rest), 0, 0): F1})).pow_int(r.numerator)
            R = Expr({(tuple(rest), 0, 0): F1})
            return out * _pow_atom(R, r)
        if r.denominator == 2:
            s = _complex_mono_sqrt(E)
            if s is not None:
                return s.pow_int(r.numerator)
        return _pow_atom(E, r) if r.denominator != 2 else _sqrt_atom(E).pow_int(r.numerator)
    # multi-term: pull out the positive common factor
    L, p = _pos_content(E)
    base = rpow(L, r)
    if r.denominator == 2:
        return base * _sqrt_atom(p).pow_int(r.numerator)
    return base * _pow_atom(p, r)


def _complex_mono_sqrt(E):
    return None


def _pos_content(E):
    """E = L*p, L a positive single term (gcd of positive gens, |leading coeff|)"""
    com = None
    for (m, k, e) in E.t:
        d = {g: x for g, x in m if GENS[g].pos and g not in SQ}
        if com is None:
            com = d
        else:
            for g in list(com):
                x = d.get(g, 0)
                y = com[g]
                if x == 0 or (x > 0) != (y > 0):
                    del com[g]
                else:
                    com[g] = min(x, y) if x > 0 else max(x, y)
    lead = max(E.t, key=_lead_key)
    c = abs(E.t[lead])
    L = Expr({(tuple(sorted(com.items())), 0, 0): c})
    return L, E * _invterm(L)


def _sqrt_atom(p):
    if p.same(ONE):
        return ONE
    # squares of real gens
    if len(p.t) == 1:
        (m, k, e), c = next(iter(p.t.items()))
    r = _try_square(p)
    if r is not None:
        return r
    key = ("sqrt", p)
    g = _atom(key, "sqrt(%s)" % _short(p))
    if g.gid not in SQ:
        SQ[g.gid] = p
    return Expr({(((g.gid, 1),), 0, 0): F1})


def _try_square(p):
    return None


def _pow_atom(p, r):
    """p**r, 0<r<1 handled as p^floor * atom"""
    w = r.numerator // r.denominator
    f = r - w
    key = ("pow", p, f)
    g = _atom(key, "(%s)^%s" % (_short(p), f))
    g.pos = True
    g.nz = True
    g.args = (p, f)
    g.defn = ("pow", p, f)
    a = Expr({(((g.gid, 1),), 0, 0): F1})
    return a * p.pow_int(w) if w else a


def sqrt(E):
    return rpow(E, Fraction(1, 2))


def absval(E):
    """|E| of a possibly complex expression (exact, no branching)"""
    if E.is_const():
        return Expr.const(abs(E.const_value()))
    if len(E.t) == 1:
        (m, k, e), c = next(iter(E.t.items()))
        ex = EXPS[e].real() if e else ZERO
        out = Expr.const(abs(c)) * exp(ex)
        for g, x in m:
            G = GENS[g]
            if G.pos:
                out = out * Expr({(((g, x),), 0, 0): F1})
            elif G.kind == "c" and g not in INV:
                a, b = sorted((g, G.conj))
                z = Expr({(((a, 1), (b, 1)), 0, 0): F1})
                note_nonneg(z)
                out = out * _sqrt_atom(z).pow_int(int(x))
            elif G.kind == "c":
                out = out * absval(INV[g]).inv().pow_int(int(x))
            elif g in SQ:
                out = out * Expr({(((g, x),), 0, 0): F1})
            else:
                out = out * _abs_real(Expr.gen(G)).pow_int(int(x)) if int(x) == x else None
        return out
    z = E * E.conj()
    note_nonneg(z)
    return sqrt(z)


NONNEG = {}          # expressions known to be non-negative (squares of moduli)


def note_nonneg(z):
    if TRUNC and any(g in TRUNC for (m, k, e) in z.t for g, _ in m):
        return          # only known up to higher orders
    if z.t and len(z.t) <= 400 and len(NONNEG) < 5000:
        NONNEG[_pos_content(z)[1]] = True


def _abs_real(E):
    note_nonneg(E * E)
    return _sqrt_atom(E * E)


def angle_atom(z):
    key = ("ang", z)
    g = _atom(key, "arg(%s)" % _short(z))
    if g.gid not in ANG:
        ANG[g.gid] = z
    return Expr({(((g.gid, 1),), 0, 0): F1})


def angle(E):
    """arg E.  For positive*exp(i theta) this is theta itself (mod 2 pi)."""
    if len(E.t) == 1:
        (m, k, e), c = next(iter(E.t.items()))
        if pos_mono(m) or all(GENS[g].pos or g in SQ for g, _ in m):
            th = ZERO
            if e:
                th = EXPS[e].imag()
            if k % FULL:
                th = th + EPI.scale(Fraction(k, PH))
            if c < 0:
                th = th + EPI
            return th
    return angle_atom(E)


def fn_atom(name, args, pos=False, lo=None, hi=None):
    key = ("fn", name) + tuple(args)
    g = _atom(key, "%s(%s)" % (name, ",".join(_short(a, 30) for a in args)))
    g.pos = pos
    g.lo, g.hi = lo, hi
    g.defn = ("fn:" + name,) + tuple(args)
    return Expr({(((g.gid, 1),), 0, 0): F1})


def log(E):
    if len(E.t) == 1:
        (m, k, e), c = next(iter(E.t.items()))
        if e and not m and c == 1 and k == 0:
            return EXPS[e]
    return fn_atom("log", (E,))


def arcsin(E):
    return fn_atom("arcsin", (E,))


_FN_EVAL = {"log": lambda x: math.log(x), "arcsin": lambda x: math.asin(x), "arccos": lambda x: math.acos(x),
            "arctan": math.atan, "max": max}


def _mpfn(name):
    return {"log": mpmath.log, "arcsin": mpmath.asin, "arccos": mpmath.acos, "arctan": mpmath.atan, "max": max}[name]


def cos(E):
    s = _trig_fn(E)
    if s is not None:
        return s[0]
    e = exp(I * E)
    f = exp(-(I * E))
    return (e + f).scale(Fraction(1, 2))


def sin(E):
    s = _trig_fn(E)
    if s is not None:
        return s[1]
    e = exp(I * E)
    f = exp(-(I * E))
    return (e - f) * MI_HALF


def _trig_fn(E):
    """split off a trailing arcsin/arccos/arctan atom with integer coefficient and
    expand by the addition formula"""
    for (m, k, e), c in E.t.items():
        if k == 0 and e == 0 and len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            G = GENS[m[0][0]]
            d = G.defn
            if isinstance(d, tuple) and d[0] in ("fn:arcsin", "fn:arccos", "fn:arctan"):
                x = d[1]
                if d[0] == "fn:arcsin":
                    s1, c1 = x, sqrt(ONE - x * x)
                elif d[0] == "fn:arccos":
                    s1, c1 = sqrt(ONE - x * x), x
                else:
                    c1 = sqrt(ONE + x * x).inv()
                    s1 = x * c1
                n = c.numerator
                rest = Expr({kk: v for kk, v in E.t.items() if kk != (m, k, e)})
                sgn = 1 if n > 0 else -1
                rest = rest + Expr({(m, k, e): Fraction(n - sgn)}) if n != sgn else rest
                if sgn < 0:
                    s1 = -s1
                cr, sr = cos(rest), sin(rest)
                return (c1 * cr - s1 * sr, s1 * cr + c1 * sr)
    return None


class _Over(dict):
    """an environment in which the integration variable has a value (nothing computed from it is kept)"""
    def __init__(self, env, g, x):
        dict.__init__(self)
        self.env, self.g, self.x = env, g, x

    def get(self, g, d=None):
        if g == self.g:
            return self.x
        v = dict.get(self, g)
        if v is None and g not in _dependent(self.g):
            v = self.env.get(g)
        return d if v is None else v

    def __contains__(self, g):
        return self.get(g) is not None


_DEP = {}


def _dependent(s):
    """generators that depend on s (recomputed when new ones have appeared)"""
    n, D = _DEP.get(s, (0, set()))
    if n != len(GENS):
        D = {g for g in range(len(GENS)) if g != s and GENS[g] is not None and s in Expr({(((g, 1),), 0, 0): F1}).gens()}
        _DEP[s] = (len(GENS), D)
    return D


_GAUSS = []


def _init_gauss():
    import numpy
    x, w = numpy.polynomial.legendre.leggauss(12)
    _GAUSS.extend((float(a + 1) / 2, float(b) / 2) for a, b in zip(x, w))


_init_gauss()


def gen_value(g, env, mp=False):
    v = env.get(g)
    if v is not None:
        return v
    G = GENS[g]
    if g in CONST_VAL:
        if g == PI.gid:
            v = mpmath.pi + 0 if mp else math.pi
        else:
            v = mpmath.mpf(CONST_VAL[g]) if mp else CONST_VAL[g]
    elif g in SQ:
        w = SQ[g].ev(env, mp)
        w = w.real
        v = (mpmath.sqrt(max(w, 0)) if mp else math.sqrt(max(w, 0.0)))
    elif g in INV:
        v = 1 / INV[g].ev(env, mp)
    elif g in ANG:
        w = ANG[g].ev(env, mp)
        v = mpmath.arg(w) if mp else cmath.phase(w)
    elif isinstance(G.defn, tuple) and G.defn[0] == "pow":
        w = G.defn[1].ev(env, mp).real
        r = G.defn[2]
        v = w ** (mpmath.mpf(r.numerator) / r.denominator) if mp else w ** (r.numerator / r.denominator)
    elif isinstance(G.defn, tuple) and G.defn[0].startswith("fn:"):
        nm = G.defn[0][3:]
        a = [x.ev(env, mp).real for x in G.defn[1:]]
        v = (_mpfn(nm) if mp else _FN_EVAL[nm])(*a)
    elif isinstance(G.defn, tuple) and G.defn[0] == "quad":
        # (evaluated only to compare the encoding with real runs)
        v = 0.0
        for x, w in _GAUSS:
            en = _Over(env, G.defn[2], x)
            v = v + w * G.defn[1].ev(en, mp).real
    elif G.kind == "c" and G.conj is not None and G.conj in env:
        w = env[G.conj]
        v = mpmath.conj(w) if mp else complex(w).conjugate()
    else:
        raise KeyError("no value for generator %s" % G.name)
    env[g] = v
    return v


def diff(E, g):
    """partial derivative with respect to generator id g (a base real variable)"""
    out = ZERO
    for (m, k, e), c in E.t.items():
        for gg, x in m:
            d = _gen_diff(gg, g)
            if d is not None and not d.is_zero():
                mm = tuple((a, (b - 1 if a == gg else b)) for a, b in m)
                mm = tuple((a, b) for a, b in mm if b != 0)
                f = _reduced_term(mm, k, e, c * Fraction(x)) if any(a in SQ or a in PRIME for a, _ in mm) else _mk(mm, k, e, c * Fraction(x))
                out = out + f * d
        if e:
            d = diff(EXPS[e], g)
            if not d.is_zero():
                out = out + Expr({(m, k, e): c}) * d
    return out


def _gen_diff(gg, g):
    if gg == g:
        return ONE
    if gg in SQ:
        d = diff(SQ[gg], g)
        if d.is_zero():
            return None
        return d.scale(Fraction(1, 2)) * _reduced_term(((gg, -1),), 0, 0, F1)
    if gg in INV:
        d = diff(INV[gg], g)
        if d.is_zero():
            return None
        return -(d * Expr({(((gg, 2),), 0, 0): F1}))
    G = GENS[gg]
    if isinstance(G.defn, tuple) and G.defn[0] == "pow":
        d = diff(G.defn[1], g)
        if d.is_zero():
            return None
        return (d * Expr({(((gg, 1),), 0, 0): F1}) * G.defn[1].inv()).scale(G.defn[2])
    if isinstance(G.defn, tuple) and str(G.defn[0]).startswith("fn:"):
        x = G.defn[1]
        d = diff(x, g)
        if d.is_zero():
            return None
        nm = G.defn[0][3:]
        if nm == "arcsin":
            return d * sqrt(ONE - x * x).inv()
        if nm == "arccos":
            return -(d * sqrt(ONE - x * x).inv())
        if nm == "arctan":
            return d * (ONE + x * x).inv()
        if nm == "log":
            return d * x.inv()
        raise DomainError("derivative of " + nm)
    return None


# ---- principal-value bookkeeping: angle() = theta + 2 pi n(theta), n an integer atom
def wrapn(th):
    key = ("fn", "wrapn", th)
    g = _atom(key, "wrapn(%s)" % _short(th, 30))
    g.integer = True
    g.defn = ("fn:wrapn", th)
    return Expr({(tuple(sorted(((PI.gid, 1), (g.gid, 1)))), 0, 0): Fraction(2)})


def split_wrap(e):
    """(theta, 2 pi n part)"""
    n = {}
    rest = {}
    for k, c in e.t.items():
        m = k[0]
        if len(m) == 2 and m[0][0] == PI.gid and GENS[m[1][0]].integer:
            n[k] = c
        else:
            rest[k] = c
    return Expr(rest), Expr(n)


def unwrap_n(th, orig):
    """unknown multiple of 2 pi added by unwrap to an opaque principal value"""
    key = ("fn", "unwrapn", orig)
    g = _atom(key, "unwrapn(%s)" % _short(orig, 30))
    g.integer = True
    g.defn = ("fn:unwrapn", orig)
    return Expr({(tuple(sorted(((PI.gid, 1), (g.gid, 1)))), 0, 0): Fraction(2)})


_FN_EVAL["wrapn"] = lambda x: float(-math.floor((x + math.pi) / (2 * math.pi)))
_FN_EVAL["unwrapn"] = lambda x: 0.0


def subst(E, g, R):
    """E with the base generator g replaced by R; None where g hides inside an atom"""
    out = ZERO
    for (m, k, e), c in E.t.items():
        f = Expr({((), k, 0): c})
        for gg, x in m:
            if gg == g:
                if x.__class__ is Fraction and x.denominator != 1:
                    return None
                f = f * R.pow_int(int(x))
                continue
            d = SQ.get(gg) or INV.get(gg) or ANG.get(gg)
            G = GENS[gg]
            if d is not None and g in d.gens():
                if gg in INV and x == int(x):
                    s = subst(d, g, R)
                    if s is None or s.is_zero():
                        return None
                    f = f * s.inv().pow_int(int(x))
                    continue
                if gg in SQ and x == int(x):
                    s = subst(d, g, R)
                    if s is None:
                        return None
                    f = f * sqrt(s).pow_int(int(x))
                    continue
                return None
            if d is None and isinstance(G.defn, tuple) and any(isinstance(a, Expr) and g in a.gens() for a in G.defn[1:]):
                return None
            f = f * (_reduced_term(((gg, x),), 0, 0, F1) if gg in SQ or gg in PRIME else Expr({(((gg, x),), 0, 0): F1}))
        if e:
            s = subst(EXPS[e], g, R)
            if s is None:
                return None
            f = f * exp(s)
        out = out + f
    return out


def _alg_inv(p):
    """exact inverse of a polynomial in one real radical q^(1/n), q prime; None if p is not one"""
    gid = None
    n = 1
    for (m, k, e) in p.t:
        if k or e or len(m) > 1:
            return None
        if m:
            g, x = m[0]
            if g not in PRIME or gid not in (None, g):
                return None
            gid = g
            n = n * Fraction(x).denominator // math.gcd(n, Fraction(x).denominator)
    if gid is None or n > 12:
        return None
    q = Fraction(PRIME[gid])
    c = [F0] * n
    for (m, k, e), v in p.t.items():
        c[int(m[0][1] * n) if m else 0] += v
    # columns: p * q^(j/n) in the basis q^(i/n)
    M = [[F0] * n + [F1 if i == 0 else F0] for i in range(n)]
    for j in range(n):
        for i, v in enumerate(c):
            r, o = (i + j) % n, (i + j) // n
            M[r][j] += v * q**o
    for i in range(n):
        w = next((r for r in range(i, n) if M[r][i]), None)
        if w is None:
            return None
        M[i], M[w] = M[w], M[i]
        d = M[i][i]
        M[i] = [x / d for x in M[i]]
        for r in range(n):
            if r != i and M[r][i]:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    out = ZERO
    for i in range(n):
        v = M[i][n]
        if v:
            out = out + (Expr({(((gid, Fraction(i, n)),), 0, 0): v}) if i else Expr.const(v))
    return out


def solve_linear(E):
    """(g, R) with E == 0 <=> g == R for a base real generator that occurs linearly with a one-term coefficient, or None"""
    E = E.clear()
    best = None
    for (m, k, e), c in E.t.items():
        if k or e:
            return None
    for g in sorted(E.gens()):
        G = GENS[g]
        if G.kind != "r" or G.defn is not None or g in CONST_VAL or g in SQ or g in INV or g in ANG or g in PRIME:
            continue
        w = [(m, c) for (m, k, e), c in E.t.items() if any(gg == g for gg, _ in m)]
        if not w or any(dict(m)[g] != 1 for m, c in w):
            continue
        co = Expr({(tuple(t for t in m if t[0] != g), 0, 0): c for m, c in w})
        rest = Expr({(mm, k, e): cc for (mm, k, e), cc in E.t.items() if not any(gg == g for gg, _ in mm)})
        if len(w) > 1:
            lead, p = co.normalised()
            if _alg_inv(p) is None or any(not GENS[gg].nz for gg in co.gens() if gg not in PRIME):
                continue
        R = -(rest * co.inv())
        if g not in R.gens():
            return g, R
    return None
