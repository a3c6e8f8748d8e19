"""Path exploration by re-execution, obligations, and the two harness contexts."""
from fractions import Fraction
import random, math, time, traceback, hashlib
import numpy as np
from . import expr as X
from . import sym as S
from . import zb
from .expr import Expr, DomainError
from .sym import Sym, SymBool, s_not, s_and, s_or, to_bool


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


class Violated(Exception):
    pass


class Stop(BaseException):
    """enough found in this harness"""


def _subst_cond(c, g, R):
    """the condition with g replaced by R, None if it cannot be done"""
    if not isinstance(c, SymBool):
        return None
    if c.op == "const":
        return c
    if c.op == "not":
        a = _subst_cond(c.a, g, R)
        return None if a is None else s_not(a)
    if c.op in ("and", "or"):
        a, b = _subst_cond(c.a, g, R), _subst_cond(c.b, g, R)
        if a is None or b is None:
            return None
        return (s_and if c.op == "and" else s_or)(a, b)
    if not isinstance(c.a, Expr):
        return None
    if g not in c.a.gens():
        return c
    q = X.subst(c.a, g, R)
    return None if q is None else S._cmp(c.op, q)


class Env(dict):
    """concrete values of the unknowns; missing ones are drawn inside their bounds"""
    def __init__(self, ctx, idx):
        dict.__init__(self)
        self.ctx, self.idx = ctx, idx

    def get(self, g, d=None):
        v = dict.get(self, g)
        if v is not None:
            return v
        b = self.ctx.base.get(g)
        if b is None:
            return d
        name, kind, lo, hi = b
        r = random.Random("%s:%s:%s" % (self.ctx.seed, self.idx, name))
        if kind == "c":
            v = complex(r.uniform(-hi, hi), r.uniform(-hi, hi))
        elif lo > 0 and hi / lo > 50:
            v = math.exp(r.uniform(math.log(lo), math.log(hi)))
        else:
            v = r.uniform(lo, hi)
        self[g] = v
        return v


def ev_scale(E, env):
    """(value, sum of |terms|) in floats"""
    tot, sc = 0.0, 0.0
    for k, c in E.t.items():
        v = Expr({k: c}).ev(env)
        tot += v
        sc += abs(v)
    return tot, sc


def eval_cond(c, env):
    """True/False, or None if too close to call / not evaluable"""
    op = c.op
    if op == "const":
        return c.a
    if op == "not":
        r = eval_cond(c.a, env)
        return None if r is None else not r
    if op == "and":
        a, b = eval_cond(c.a, env), eval_cond(c.b, env)
        if a is False or b is False:
            return False
        return None if a is None or b is None else True
    if op == "or":
        a, b = eval_cond(c.a, env), eval_cond(c.b, env)
        if a or b:
            return True
        return None if a is None or b is None else False
    if op == "raw":
        return None
    try:
        v, sc = ev_scale(c.a, env)
    except (KeyError, OverflowError, ZeroDivisionError, ValueError):
        return None
    if abs(v) <= 1e-11 * sc:
        return None
    v = v.real if isinstance(v, complex) else v
    if op == "eq":
        return False
    return v < 0


def _cond_gens(c):
    if c.op in ("not", "and", "or"):
        r = _cond_gens(c.a)
        return r | _cond_gens(c.b) if c.b is not None else r
    return c.a.gens() if isinstance(c.a, Expr) else set()


class SymCtx:
    symbolic = True

    def __init__(self, ex, prefix, pool):
        self.ex = ex
        self.seed = ex.seed
        self.prefix = prefix
        self.trace = []           # decisions taken: (kind, value)
        self.conds = []           # path condition (SymBools)
        self.base = {}
        self.inputs = []          # (name, kind, gid)
        self.pool = [Env(self, i) for i in range(ex.npool)] if pool is None else pool
        for e in self.pool:
            e.ctx = self
        self.obs = []             # (label, [Expr...]) for encoder validation
        self.obligations = 0
        self.choices = {}
        self.np_mode = True
        self.fork_abs = True
        self.labels = []
        self.fmt = {}
        self.sign_cache = {}
        self.rnd_count = 0
        self.cleanup = []
        self.notes = ex.notes
        self.quiet = False
        self.tier = ex.tier
        self.optb = {}
        self.given = pool is not None
        self.bound_vars = set()   # integration variables

    # ------------------------------------------------------------ inputs
    @property
    def np(self):
        from . import npshim
        return npshim.NP

    @property
    def pi(self):
        return S.PI

    @property
    def c(self):
        return self.mod("scipy.constants").speed_of_light

    def const(self, name):
        return getattr(self.mod("scipy.constants"), name)

    def mod(self, name):
        return self.ex.loader.get(name)

    def num(self, s):
        return Sym(Expr.const(Fraction(str(s)) if not isinstance(s, (int, float)) else X.frac(s)))

    def opt_bounds(self, i):
        return self.optb.get(i, (1e-6, 10.0))

    def set_opt_bounds(self, i, lo, hi):
        self.optb[i] = (lo, hi)

    def opt_log(self):
        """(objective, start, args, returned point) of every minimiser call so far"""
        from . import shims
        return list(shims.OPT_LOG)

    def file(self, name, rows, sep=None):
        """a data file the code can read with genfromtxt/loadtxt"""
        from . import npshim
        npshim.STUBFILES[name] = rows
        npshim.STUBSEP[name] = sep
        return name

    def outfile(self, name):
        """name of a file the code may write (and read back)"""
        return name

    def textfile(self, name, text):
        self.ex.loader.files[name] = text
        return name

    def reconfigure(self, **cfg):
        self.ex.loader.reconfigure(**cfg)

    def real(self, name, lo, hi):
        lo, hi = _plain(lo), _plain(hi)
        g = X.new_gen(name, "r")
        g.lo, g.hi = lo, hi
        g.pos = lo > 0
        g.nz = lo > 0 or hi < 0
        zb._vars.pop(("g", g.gid), None)
        if g.gid not in self.base:
            self.inputs.append((name, "r", g.gid))
        self.base[g.gid] = (name, "r", float(lo), float(hi))
        return Sym(Expr.gen(g))

    def cplx(self, name, rad=2.0):
        rad = _plain(rad)
        g = X.new_gen(name, "c")
        g.hi = rad
        if g.gid not in self.base:
            self.inputs.append((name, "c", g.gid))
        self.base[g.gid] = (name, "c", -float(rad), float(rad))
        return Sym(Expr.gen(g))

    def reals(self, name, n, lo, hi):
        return self.array([self.real("%s[%d]" % (name, i), lo, hi) for i in range(n)], "f")

    def cplxs(self, name, n, rad=2.0):
        return self.array([self.cplx("%s[%d]" % (name, i), rad) for i in range(n)], "c")

    def array(self, xs, kind=None):
        from . import npshim
        return npshim.mkarr(xs, kind)

    def choice(self, name, options):
        options = list(options)
        i = self._choose_index(name, len(options))
        self.choices[name] = i
        return options[i]

    def _choose_index(self, name, n):
        if n == 1:
            return 0
        pos = len(self.trace)
        if pos < len(self.prefix):
            kind, v = self.prefix[pos][:2]
            self.trace.append(("choice", v, name))
            return v
        for v in range(1, n):
            self.ex.push(self.trace + [("choice", v, name)], None)
        self.trace.append(("choice", 0, name))
        return 0

    def assume(self, cond):
        c = to_bool(cond)
        if c.op == "const":
            if not c.a:
                raise Infeasible()
            return
        self.conds.append(c)
        if not self.given or len(self.trace) >= len(self.prefix):
            self.pool = [e for e in self.pool if eval_cond(c, e)]
        if not self.pool and len(self.trace) >= len(self.prefix):
            v, env = self._solve([])
            if v == "unsat":
                raise Infeasible()
            if env is not None:
                self.pool.append(env)

    # ------------------------------------------------------------ decisions
    def _solve(self, extra, timeout=None):
        conds = self.conds + extra
        sub = []
        try:
            eqs = self._equalities(conds)
            for g, R in eqs:
                b = self.base.get(g)
                cs = [_subst_cond(c, g, R) for c in conds]
                if b is None or any(c is None for c in cs):
                    continue
                lo, hi = X.Expr.const(X.frac(b[2])), X.Expr.const(X.frac(b[3]))
                conds = [c for c in cs + [S._cmp("le", lo - R), S._cmp("le", R - hi)] if not (c.op == "const" and c.a)]
                sub.append((g, R))
        except (ArithmeticError, DomainError):
            conds, sub = self.conds + extra, []
        v, model = zb.check(conds or [S.TRUE], timeout or self.ex.branch_timeout, want_model=True)
        env = None
        if v == "sat":
            env = self.env_from_model(model)
            for g, R in reversed(sub):
                try:
                    env[g] = float(complex(R.ev(env)).real)
                except Exception:
                    dict.pop(env, g, None)
        return v, env

    def env_from_model(self, model):
        env = Env(self, "m%d" % zb.STAT["queries"])
        if isinstance(model, zb.Point):
            for g, v in model.vals.items():
                if g in self.base:
                    env[g] = v
            return env
        for g, (name, kind, lo, hi) in self.base.items():
            r = zb._vars.get(("g", g))
            if r is None:
                continue
            a = zb.model_value(model, r[0])
            if kind == "c":
                b = zb.model_value(model, r[1])
                if a is not None and b is not None:
                    env[g] = complex(float(a), float(b))
            elif a is not None and lo <= float(a) <= hi:
                env[g] = float(a)      # (a variable the query does not mention has no value there)
        return env

    def decide(self, cond):
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos][1]
            self.trace.append(("br", v))
            self._add(cond if v else s_not(cond), filter_pool=(pos == len(self.prefix) - 1))
            return v
        self.ex.ndecide += 1
        t = [e for e in self.pool if eval_cond(cond, e) is True]
        f = [e for e in self.pool if eval_cond(cond, e) is False]
        ft, ff = bool(t), bool(f)
        if not ft:
            v, env = self._solve([cond])
            ft = v != "unsat"
            if env is not None:
                t = [env]
        if not ff:
            v, env = self._solve([s_not(cond)])
            ff = v != "unsat"
            if env is not None:
                f = [env]
        if not ft and not ff:
            raise Infeasible()
        if ft and ff:
            if self.bound_vars and self.bound_vars & _cond_gens(cond):
                raise X.DomainError("a decision that depends on the integration variable")
            self.ex.push(self.trace + [("br", False)], f)
            self.ex.nfork += 1
        take = ft
        self.trace.append(("br", take))
        self.conds.append(cond if take else s_not(cond))
        self.pool = t if take else f
        return take

    def _add(self, c, filter_pool=False):
        self.conds.append(c)
        # pools handed over at a fork already satisfy the prefix
        if not self.given:
            self.pool = [e for e in self.pool if eval_cond(c, e) is True]

    def known_sign(self, e):
        key = (hash(e), len(self.conds))
        if key in self.sign_cache:
            return self.sign_cache[key]
        lt = S._cmp("lt", e)
        gt = S._cmp("lt", -e)
        if lt.op == "const":
            return -1 if lt.a else 1
        a = any(eval_cond(lt, v) for v in self.pool)
        b = any(eval_cond(gt, v) for v in self.pool)
        r = None
        if not (a and b):
            if not a:
                v, _ = zb.check(self.conds + [lt], self.ex.branch_timeout)
                if v == "unsat":
                    r = 1
            if r is None and not b:
                v, _ = zb.check(self.conds + [gt], self.ex.branch_timeout)
                if v == "unsat":
                    r = -1
        self.sign_cache[key] = r
        return r

    def choose_floor(self, s):
        """fork over the possible integer parts of s (prefix entries: reject k / take k)"""
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                kind, k = self.prefix[pos][:2]
                c = self._cell(s, k)
                self.trace.append((kind, k))
                self._add(c if kind == "flr" else s_not(c), filter_pool=True)
                if kind == "flr":
                    return k
                continue
            if self.ex.floor_limit and sum(1 for t in self.trace if t[0] == "rej") >= self.ex.floor_limit:
                raise PathLimit("more than %d integer parts" % self.ex.floor_limit)
            k = self._floor_candidate(s)
            c = self._cell(s, k)
            self.ex.ndecide += 1
            rest = [e for e in self.pool if eval_cond(c, e) is False]
            other = bool(rest)
            if not other:
                v, env = self._solve([s_not(c)])
                other = v != "unsat"
                rest = [env] if env is not None else None
            if other:
                self.ex.push(self.trace + [("rej", k)], rest)
                self.ex.nfork += 1
            self.trace.append(("flr", k))
            self.conds.append(c)
            self.pool = [e for e in self.pool if eval_cond(c, e) is True]
            return k

    def _cell(self, s, k):
        return s_and(s >= k, s < k + 1)

    def _floor_candidate(self, s):
        for e in self.pool:
            try:
                v = complex(s.e.ev(e)).real
                return math.floor(v)
            except Exception:
                continue
        v, env = self._solve([])
        if env is None:
            raise DomainError("no integer candidate")
        return math.floor(complex(s.e.ev(env)).real)

    def format_sym(self, s, spec):
        """text of a symbolic number: equal text iff within the printed resolution"""
        try:
            nd = int(spec.split(".")[1].rstrip("fgeE"))
        except Exception:
            nd = 6
        tol = Fraction(1, 10 ** nd)
        seen = self.fmt.setdefault(spec, [])
        for v, txt in seen:
            d = s - v
            if bool((d < tol) & (d > -tol)):
                return txt
        txt = "<%s%d>" % (spec, len(seen))
        seen.append((s, txt))
        return txt

    def note_nonzero(self, e):
        n = self.ex.notes["excluded_singular_denominators"]
        if len(n) < 20:
            n.add(X._short(e, 80))

    # ------------------------------------------------------------ obligations
    def _flat(self, a):
        if isinstance(a, np.ndarray):
            return [Sym.lift(x) for x in np.asarray(a).ravel().tolist()]
        if isinstance(a, (list, tuple)):
            out = []
            for x in a:
                out += self._flat(x)
            return out
        return [Sym.lift(a)]

    def shape_of(self, a):
        if isinstance(a, np.ndarray):
            return a.shape
        if isinstance(a, (list, tuple)):
            return (len(a),)
        return ()

    def eq(self, label, a, b, rtol=1e-6, atol=0.0, scale=None, tol=None):
        """a == b exactly (tol: |a-b| <= tol in magnitude instead)"""
        self.labels.append(label)
        sa, sb = self.shape_of(a), self.shape_of(b)
        A, B = self._flat(a), self._flat(b)
        if len(B) == 1 and len(A) > 1 and sb == ():
            B = B * len(A)
        self.obligations += 1
        if len(A) != len(B) or (sa != sb and sa != () and sb != ()):
            return self._fail(label, "shape %s vs %s" % (sa, sb), [], None)
        self.obs.append((label, A, atol))
        bad = []
        pairs = []
        for i, (x, y) in enumerate(zip(A, B)):
            if x.e.__class__ is not Expr or y.e.__class__ is not Expr:
                if x.e == y.e and x.e != "nan":
                    continue
                bad.append((i, None))
                continue
            d = x.e - y.e
            if d.t:
                d = d.clear()
            pairs.append((x.e, y.e, d))
            if d.t:
                bad.append((i, d))
        if bad and all(d is not None for _, d in bad) and tol is None:
            # equalities the path implies (x <= 0 and x >= 0)
            for g, R in self._equalities():
                nb = []
                for i, d in bad:
                    q = X.subst(d, g, R)
                    q = d if q is None else q.clear()
                    if q.t:
                        nb.append((i, q))
                bad = nb
            if not bad:
                v, _ = zb.check(self.conds, 1000)
                self.ex.discharged += 1
                return True
        if not bad:
            # the solver's verdict on the cleared normal forms
            v, _ = zb.check([lambda U: _differ(pairs, U)], 20000)
            if v != "unsat":
                raise DomainError("normal forms equal but solver says %s" % v)
            self.ex.discharged += 1
            return True
        if any(d is None for _, d in bad):
            return self._fail(label, "non-finite value (nan/inf) at index %d" % [i for i, d in bad if d is None][0], [], (A, B))
        if tol is not None:
            t = Fraction(_plain(tol))
            if zb.surely_within([d for _, d in bad], t):
                self.ex.discharged += 1
                return True

            def goal(U):
                import z3
                fs = []
                for i, d in bad:
                    r, im = zb.tr(d, U)
                    q = [r > zb.rv(t), r < zb.rv(-t)]
                    if im is not None:
                        q += [im > zb.rv(t), im < zb.rv(-t)]
                    fs.append(z3.Or(*q))
                return z3.Or(*fs)
        else:
            def goal(U):
                import z3
                return z3.Or(*[zb.nonzero(d, U) for i, d in bad])
        v, model = zb.check(self.conds + [goal], self.ex.goal_timeout, want_model=True)
        if v == "unsat":
            self.ex.discharged += 1
            return True
        if v == "unknown":
            # fall back: one difference at a time
            allun = True
            for i, d in bad:
                if tol is not None:
                    g1 = lambda U, d=d: _absgt(d, t, U)
                else:
                    g1 = lambda U, d=d: zb.nonzero(d, U)
                v, model = zb.check(self.conds + [g1], self.ex.goal_timeout, want_model=True)
                if v != "unsat":
                    allun = False
                    break
            if allun:
                self.ex.discharged += 1
                return True
        envs = []
        if model is not None:
            envs.append(self.env_from_model(model))
        retry = None
        if v == "sat":
            retry = lambda: self._sizable(A, B)
        return self._fail(label, "solver: %s" % v, envs, (A, B), retry=retry)

    def _sizable(self, A, B):
        """counterexamples where the difference is not just tiny"""
        out = []
        if self.ex.sizable >= 12:
            return out
        self.ex.sizable += 1
        bad = [(x.e, y.e) for x, y in zip(A, B) if x.e.__class__ is Expr and y.e.__class__ is Expr and (x.e - y.e).t]
        if any(len(x.t) + len(y.t) > 60 for x, y in bad):
            return out
        for rho in (Fraction(1, 100), Fraction(1, 10000), Fraction(1, 300000)):
            def goal(U):
                import z3
                fs = []
                for x, y in bad[:4]:
                    r, im = zb.tr(x - y, U)
                    yr, yi = zb.tr(y, U)
                    m = z3.If(yr >= 0, yr, -yr)
                    if yi is not None:
                        m = m + z3.If(yi >= 0, yi, -yi)
                    m = m * zb.rv(rho)
                    fs += [r > m, r < -m]
                    if im is not None:
                        fs += [im > m, im < -m]
                return z3.Or(*fs)
            v, model = zb.check(self.conds + [goal], min(8000, self.ex.goal_timeout), want_model=True)
            if v == "sat" and model is not None:
                out.append(self.env_from_model(model))
                break
        return out

    def _equalities(self, conds=None):
        nn, eqs = [], []

        def lit(c, neg):
            if c.op == "not":
                lit(c.a, not neg)
            elif c.op == "and" and not neg or c.op == "or" and neg:
                lit(c.a, neg)
                lit(c.b, neg)
            elif c.op in ("lt", "le"):
                nn.append(c.a if neg else -c.a)
            elif c.op == "eq" and not neg:
                eqs.append(c.a)
        for c in self.conds if conds is None else conds:
            if isinstance(c, SymBool):
                lit(c, False)
        for i, a in enumerate(nn):
            for b in nn[:i]:
                if len(a.t) == len(b.t) and a.t.keys() == b.t.keys():
                    k = next(iter(a.t))
                    q = a.t[k] / b.t[k]
                    if q < 0 and all(a.t[w] == q * b.t[w] for w in a.t):
                        eqs.append(a)
        out = []
        for e in eqs:
            for g, R in out:
                e = X.subst(e, g, R) if e is not None else None
            if e is None or not e.t:
                continue
            r = X.solve_linear(e)
            if r is not None:
                out.append(r)
        return out

    def true(self, label, cond):
        self.labels.append(label)
        self.obligations += 1
        cs = self._flat_bool(cond)
        c = S.TRUE
        for x in cs:
            c = s_and(c, x)
        if c.op == "const" and c.a:
            v, _ = zb.check([s_not(c)], 1000)
            self.ex.discharged += 1
            return True
        if c.op == "const":
            return self._fail(label, "false on every input of this path", [], None)
        v, model = zb.check(self.conds + [s_not(c)], self.ex.goal_timeout, want_model=True)
        if v == "unsat":
            self.ex.discharged += 1
            return True
        envs = []
        if model is not None:
            envs.append(self.env_from_model(model))
        return self._fail(label, "solver: %s" % v, envs, None, cond=s_not(c))

    def _flat_bool(self, c):
        if isinstance(c, np.ndarray):
            return [to_bool(x) for x in np.asarray(c).ravel().tolist()]
        if isinstance(c, (list, tuple)):
            out = []
            for x in c:
                out += self._flat_bool(x)
            return out
        return [to_bool(c)]

    def le(self, label, a, b, rtol=1e-6, atol=0.0):
        """a <= b"""
        A, B = self._flat(a), self._flat(b)
        if len(B) == 1 and len(A) > 1:
            B = B * len(A)
        if len(A) == 1 and len(B) > 1:
            A = A * len(B)
        return self.true(label, [x <= y for x, y in zip(A, B)])

    def lt(self, label, a, b, rtol=1e-6, atol=0.0):
        A, B = self._flat(a), self._flat(b)
        if len(B) == 1 and len(A) > 1:
            B = B * len(A)
        if len(A) == 1 and len(B) > 1:
            A = A * len(B)
        return self.true(label, [x < y for x, y in zip(A, B)])

    def same(self, label, a, b):
        """concrete (non-numeric) facts"""
        self.labels.append(label)
        self.obligations += 1
        if a == b:
            v, _ = zb.check([lambda U: zb.z3.BoolVal(False)], 1000)
            self.ex.discharged += 1
            return True
        return self._fail(label, "%r instead of %r" % (a, b), [], None)

    def _fail(self, label, why, envs, pair, cond=None, retry=None):
        """collect a candidate counterexample; the runner replays it on the real code"""
        cl = self._cands(label, why, envs, pair, cond)
        if cl is None:
            return True
        self.ex.failed_paths += 1

        def again():
            more = retry() if retry else []
            return self._cands(label, why, more, pair, cond, pool=False) if more else []
        self.ex.on_fail(label, why, cl, again)
        return False

    def _cands(self, label, why, envs, pair, cond=None, pool=True):
        cands = list(envs)
        pool = list(self.pool) if pool else []
        if not cands and not pool:
            v, env = self._solve([], 10000)
            if v == "unsat":
                self.ex.discharged += 1
                return None
            if env is not None:
                cands.append(env)
        scored = []
        for e in cands + pool[:12]:
            dev = 0.0
            if pair is not None:
                A, B = pair
                try:
                    va = [complex(x.e.ev(e)) if x.e.__class__ is Expr else complex("nan") for x in A]
                    vb = [complex(x.e.ev(e)) if x.e.__class__ is Expr else complex("nan") for x in B]
                    sc = max([abs(z) for z in va + vb if z == z] + [1e-300])
                    dev = max((abs(p - q) / sc) if (p == p and q == q) else 1.0 for p, q in zip(va, vb))
                except Exception:
                    dev = 0.0
            elif cond is not None:
                dev = 1.0 if eval_cond(cond, e) else 0.0
            else:
                dev = 1.0
            scored.append((dev, e))
        scored.sort(key=lambda t: -t[0])
        cl = [{"label": label, "why": why, "dev": dev, "env": self.export_env(e), "choices": dict(self.choices)}
              for dev, e in scored[:6]]
        if not cl:
            cl = [{"label": label, "why": why + " (no witness)", "dev": 0.0, "env": {}, "choices": dict(self.choices)}]
        return cl

    def export_env(self, e):
        out = {}
        for name, kind, g in self.inputs:
            v = e.get(g)
            if isinstance(v, complex):
                out[name] = [v.real, v.imag]
            else:
                out[name] = float(v)
        return out

    def record(self, label, a, atol=0.0):
        self.obs.append((label, self._flat(a), atol))

    def raises(self, label, exc, fn):
        self.labels.append(label)
        self.obligations += 1
        names = exc if isinstance(exc, tuple) else (exc,)
        try:
            fn()
        except DomainError:
            raise
        except names:
            self.ex.discharged += 1
            return True
        except Exception as e:
            return self._fail(label, "raised %s instead of %s" % (type(e).__name__, names), [], None)
        return self._fail(label, "did not raise", [], None)

    def patch(self, obj, name, val):
        """replace an attribute for the duration of this run (environment stub)"""
        had = name in vars(obj) if hasattr(obj, "__dict__") else False
        old = vars(obj).get(name) if had else None
        setattr(obj, name, val)
        self.cleanup.append((obj, name, had, old))

    def series(self, name, order, lo=0.01, hi=0.02):
        """a small positive parameter; powers above `order` are dropped"""
        g = X.new_gen(name, "r")
        g.pos = True
        g.nz = True
        g.lo, g.hi = float(lo), float(hi)
        self.base[g.gid] = (name, "r", float(lo), float(hi))
        self.inputs.append((name, "r", g.gid))
        X.TRUNC[g.gid] = order
        return Sym(Expr.gen(g))

    def integral(self, f, a, b):
        from . import shims
        return shims.quad(f, a, b)[0]

    def vanishes(self, v):
        """zero, or of first or higher order in the series parameters"""
        E = Sym.lift(v).e
        return all(any(g in X.TRUNC and x > 0 for g, x in m) for (m, k, e) in E.t)

    def float_of(self, s):
        return s

    def diff(self, E, v):
        (m, k, e), c = next(iter(v.e.t.items()))
        return Sym(X.diff(Sym.lift(E).e, m[0][0]))


def _plain(x):
    """a literal of the harness as an exact number"""
    return x.e.const_value() if isinstance(x, Sym) else x


def _absgt(d, t, U):
    import z3
    r, im = zb.tr(d, U)
    q = [r > zb.rv(t), r < zb.rv(-t)]
    if im is not None:
        q += [im > zb.rv(t), im < zb.rv(-t)]
    return z3.Or(*q)


def _differ(pairs, U):
    import z3
    fs = []
    budget = 4000
    for a, b, d in pairs:
        n = len(a.t) + len(b.t)
        if a.t == b.t and n <= budget and n < 120:
            budget -= n
            ra, ia = zb.tr(a, U)
            rb, ib = zb.tr(b, U)
            ia = ia if ia is not None else z3.RealVal(0)
            ib = ib if ib is not None else z3.RealVal(0)
            fs.append(z3.Or(ra != rb, ia != ib))
        else:
            fs.append(zb.nonzero(d, U))
    return z3.Or(*fs) if fs else z3.BoolVal(False)


class Explorer:
    def __init__(self, loader, seed, npool=6, branch_timeout=3000, goal_timeout=20000, max_paths=4000, deadline=None, tier="quick"):
        self.loader = loader
        self.seed = seed
        self.npool = npool
        self.branch_timeout, self.goal_timeout = branch_timeout, goal_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.stack = []
        self.ndecide = self.nfork = 0
        self.discharged = 0
        self.obligations = 0
        self.candidates = []
        self.failed_paths = 0
        self.sizable = 0
        self.paths = 0
        self.infeasible = 0
        self.notes = {"excluded_singular_denominators": set()}
        self.errors = []
        self.label_hits = {}
        self.path_records = []
        self.tier = tier
        self.floor_limit = 64
        self.confirm = None            # callback: candidates -> True when replay on the real code fails
        self.violations = []
        self.unconfirmed = []

    def on_fail(self, label, why, cands, again=None):
        v = self.confirm(label, why, cands) if self.confirm else None
        if v is None and again is not None:
            more = again()
            v = self.confirm(label, why, more) if more and self.confirm else None
        if v is not None:
            self.violations.append(v)
            if not v.get("known"):
                raise Stop()
        else:
            self.unconfirmed.append({"label": label, "why": why[:500], "env": cands[0]["env"], "choices": cands[0]["choices"]})

    def push(self, prefix, pool, floor_k=None):
        self.stack.append((prefix, pool))

    def run(self, h, name):
        self.stack = [([], None)]
        while self.stack:
            prefix, pool = self.stack.pop()
            if self.paths >= self.max_paths:
                raise PathLimit("more than %d paths in %s" % (self.max_paths, name))
            if self.deadline and time.time() > self.deadline:
                raise PathLimit("time budget exhausted in %s" % name)
            try:
                self._one(h, prefix, pool)
            except Stop:
                self.paths += 1
                return

    def _one(self, h, prefix, pool):
        X.TRUNC.clear()
        ctx = SymCtx(self, prefix, pool)
        S.set_ctx(ctx)
        self.loader.fresh()
        try:
            h(ctx)
            self.paths += 1
            self._witness(ctx)
        except Infeasible:
            self.infeasible += 1
        except DomainError as e:
            self.paths += 1
            self.errors.append({"what": str(e), "trace": traceback.format_exc(limit=-8), "choices": dict(ctx.choices),
                                "envs": [ctx.export_env(v) for v in ctx.pool[:3]]})
            if len(self.errors) >= 8:
                raise Stop()
        except Exception as e:
            tb_ = traceback.format_exc(limit=-6)
            ctx.labels.append("no exception")
            ctx.obligations += 1
            ctx._fail("no exception", "%s: %s\n%s" % (type(e).__name__, e, tb_), [], None)
            self.paths += 1
        finally:
            for obj, nm, had, old in reversed(ctx.cleanup):
                if had:
                    setattr(obj, nm, old)
                else:
                    try:
                        delattr(obj, nm)
                    except AttributeError:
                        pass
            self.obligations += ctx.obligations
            for l in ctx.labels:
                self.label_hits[l] = self.label_hits.get(l, 0) + 1
            S.set_ctx(None)
            X.TRUNC.clear()

    def _witness(self, ctx):
        """reachability: the end of the path is reachable (assert False here is violated)"""
        env = ctx.pool[0] if ctx.pool else None
        how = "witness"
        if env is None:
            v, env = ctx._solve([], 5000)
            how = "solver " + v
        if len(self.path_records) < 4000:
            self.path_records.append({"ctx": ctx, "env": env, "how": how})
