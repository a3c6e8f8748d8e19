#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]   decide property ID on the current /repo
   check.py ID --replay FILE             run one counterexample on the real code (exit 1 if it still fails)"""
import sys, os, json, time, traceback, random, argparse
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter("ignore")


def props():
    return json.load(open(os.path.join(HERE, "props", "index.json")))


def hpath(pid):
    return os.path.join(HERE, "props", pid.lower() + ".py")


def harness_names(pid):
    import ast
    t = ast.parse(open(hpath(pid)).read())
    out = []
    opts = {}
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith("h_"):
            out.append(n.name)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "OPTS":
            opts = ast.literal_eval(n.value)
    return out, opts


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                out.append(json.loads(l[7:]))
    return out


def matches(kf, pid, hname, label, choices, message=""):
    if kf["property"] != pid or kf["harness"] != hname:
        return False
    if kf.get("label") not in (None, label):
        return False
    if kf.get("message") and kf["message"] not in message:
        return False
    return all(choices.get(k) == v for k, v in kf.get("choices", {}).items())


def work(job):
    """one harness: symbolic exploration, replay of candidates, encoder validation"""
    pid, hname, tier, seed, budget, opts = job
    t0 = time.time()
    from symx import path as P, loader as L, zb, concrete as C, expr as X, sym as S
    import z3
    z3.set_param("smt.random_seed", seed % 1000000)
    z3.set_param("memory_max_size", 6000)
    plain = L.PlainLoader()
    hp = hpath(pid)
    kfs = known_findings()
    res = {"harness": hname, "known": []}

    def confirm(label, why, cands):
        """replay a candidate on the unmodified code"""
        for cand in cands:
            r = C.run_concrete(plain, hp, hname, cand["env"], cand["choices"], tier, seed)
            if r["fails"]:
                fl = [l for l, _ in r["fails"]]
                lab = label if label in fl else fl[0]
                msg = dict(r["fails"])[lab]
                v = {"property": pid, "harness": hname, "label": lab, "message": msg[:3000], "solver": why[:2000],
                     "env": r["used"] if False else cand["env"], "choices": cand["choices"], "tier": tier, "seed": seed}
                for kf in kfs:
                    if matches(kf, pid, hname, lab, cand["choices"], msg):
                        v["known"] = kf["what"]
                return v
        return None

    from symx import shims
    from symx import npshim
    npshim.LAZY_MAX = bool(opts.get("lazy_max"))
    shims.NUMERIC = bool(opts.get("numeric_constants"))
    ld = L.Loader()
    ex = P.Explorer(ld, seed, npool=opts.get("npool", 6), branch_timeout=opts.get("branch_timeout", 3000),
                    goal_timeout=opts.get("goal_timeout", 20000), max_paths=opts.get("max_paths", 4000 if tier == "quick" else 40000),
                    deadline=t0 + budget, tier=tier)
    ex.confirm = confirm
    limit = None
    ld.fresh()

    def entry(ctx):
        m = ld.harness(hp, "props." + pid)
        getattr(m, hname)(ctx)
    try:
        ex.run(entry, hname)
    except P.PathLimit as e:
        limit = str(e)
    except P.Stop:
        pass
    except Exception as e:
        ex.errors.append({"what": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc(), "choices": {}, "envs": []})
    # ---- encoder validation on the unmodified code
    nval = opts.get("validate", 6 if tier == "quick" else 12)
    rng = random.Random(seed)
    recs = [r for r in ex.path_records if r["env"] is not None]
    rng.shuffle(recs)
    val = {"runs": 0, "points": 0, "skipped": 0, "mismatches": [], "maxrel": 0.0}
    if not any(not v.get("known") for v in ex.violations):
        for r in recs[:nval * 3]:
            if val["runs"] >= nval or time.time() - t0 > budget + 60:
                break
            ctx = r["ctx"]
            env = ctx.export_env(r["env"])
            c = C.run_concrete(plain, hp, hname, env, ctx.choices, tier, seed)
            if c["skipped"]:
                val["skipped"] += 1
                continue
            val["runs"] += 1
            if c["fails"]:
                lab, msg = c["fails"][0]
                v = {"property": pid, "harness": hname, "label": lab, "message": msg[:3000], "solver": "found while validating the encoding",
                     "env": env, "choices": dict(ctx.choices), "tier": tier, "seed": seed}
                for kf in kfs:
                    if matches(kf, pid, hname, lab, ctx.choices, msg):
                        v["known"] = kf["what"]
                ex.violations.append(v)
                if not v.get("known"):
                    break
                continue
            if len(c["obs"]) != len(ctx.obs) or [o[0] for o in c["obs"]] != [o[0] for o in ctx.obs]:
                val["mismatches"].append({"what": "different observations", "env": env, "choices": dict(ctx.choices),
                                          "sym": [o[0] for o in ctx.obs][-5:], "real": [o[0] for o in c["obs"]][-5:]})
                continue
            for (l, A, at), (_, fa, at2) in zip(ctx.obs, c["obs"]):
                at = max(at, at2)
                if len(A) != len(fa):
                    val["mismatches"].append({"what": "size of %s" % l, "env": env, "choices": dict(ctx.choices)})
                    continue
                try:
                    va = [complex(x.e.ev(r["env"])) if x.e.__class__ is X.Expr else complex(float(x)) for x in A]
                except Exception:
                    continue
                import numpy as np
                va = np.array(va)
                fin = np.isfinite(va) & np.isfinite(fa)
                if not np.array_equal(np.isfinite(va), np.isfinite(fa)):
                    val["mismatches"].append({"what": "finiteness of %s" % l, "env": env, "choices": dict(ctx.choices)})
                    continue
                if fin.any():
                    sc = max(np.max(np.abs(va[fin])), np.max(np.abs(fa[fin])), 1e-300)
                    d = float(np.max(np.abs(va[fin] - fa[fin])) / sc)
                    val["points"] += int(fin.sum())
                    if np.max(np.abs(va[fin] - fa[fin])) > at:
                        val["maxrel"] = max(val["maxrel"], d)
                    if d > opts.get("val_rtol", 1e-5) and np.max(np.abs(va[fin] - fa[fin])) > max(at, opts.get("val_atol", 0.0)):
                        val["mismatches"].append({"what": "value of %s" % l, "rel": d, "env": env, "choices": dict(ctx.choices),
                                                  "sym": str(va[:4]), "real": str(fa[:4])})
    # ---- where the encoding could not follow the code: the same harness on the real code
    conc = {"runs": 0, "skipped": 0}
    if (ex.errors or limit or val["mismatches"] or ex.unconfirmed) and not any(not v.get("known") for v in ex.violations):
        todo = [({}, {})]
        for e in ex.errors:
            for env in e["envs"] or [{}]:
                todo.append((env, e["choices"]))
        for u in ex.unconfirmed[:20]:
            todo.append((u["env"], u["choices"]))
        # every combination of choices up to a limit
        seen = set()
        stack = [{}]
        combos = []
        while stack and len(combos) < 60 and time.time() - t0 < budget + 120:
            ch = stack.pop()
            r = C.run_concrete(plain, hp, hname, {}, ch, tier, seed + len(combos))
            combos.append(ch)
            conc["runs"] += 1
            if r["fails"]:
                todo.insert(0, (r["used"], ch))
                break
            for k, (i, n) in r["taken"].items():
                if k not in ch:
                    for j in range(1, n):
                        nc = dict(ch)
                        for k2, (i2, n2) in r["taken"].items():
                            if k2 == k:
                                break
                            nc[k2] = i2
                        nc[k] = j
                        key = json.dumps(nc, sort_keys=True)
                        if key not in seen:
                            seen.add(key)
                            stack.append(nc)
        for env, ch in todo[:60]:
            if time.time() - t0 > budget + 180:
                break
            env = {k: ([v.real, v.imag] if isinstance(v, complex) else v) for k, v in env.items()}
            r = C.run_concrete(plain, hp, hname, env, ch, tier, seed)
            conc["runs"] += 1
            if r["skipped"]:
                conc["skipped"] += 1
                continue
            if r["fails"]:
                lab, msg = r["fails"][0]
                v = {"property": pid, "harness": hname, "label": lab, "message": msg[:3000],
                     "solver": "found on the real code where the encoding could not follow it", "env": env, "choices": ch, "tier": tier, "seed": seed}
                for kf in kfs:
                    if matches(kf, pid, hname, lab, ch, msg):
                        v["known"] = kf["what"]
                ex.violations.append(v)
                if not v.get("known"):
                    break
    res.update(paths=ex.paths, infeasible=ex.infeasible, decisions=ex.ndecide, forks=ex.nfork, obligations=ex.obligations,
               discharged=ex.discharged, labels=ex.label_hits, violations=ex.violations, unconfirmed=ex.unconfirmed[:20], errors=ex.errors[:8],
               limit=limit, validation=val, concretised=conc, solver=dict(zb.STAT), functions=dict(L.FUNC_COUNT),
               notes=sorted(ex.notes["excluded_singular_denominators"])[:20], witnesses=sum(1 for r in ex.path_records if r["env"] is not None),
               wall=time.time() - t0, sources=ld.source_hash, calls=sum(L.FUNC_COUNT.values()))
    for v in ex.violations:
        v["env"] = {k: ([x.real, x.imag] if isinstance(x, complex) else x) for k, x in v["env"].items()}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER_OVERRIDE", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    pid = a.pid
    if a.selftest:
        sys.exit(selftest())
    if a.replay:
        from symx import concrete as C, loader as L
        v = json.load(open(a.replay))
        if "runs" in v:
            v = v["runs"][0]
        r = C.run_concrete(L.PlainLoader(), hpath(pid), v["harness"], v["env"], v["choices"], v.get("tier", "quick"), v.get("seed", 1))
        for l, m in r["fails"]:
            print("FAILS %s: %s" % (l, m))
        if r["skipped"]:
            print("SKIPPED:", r["skipped"])
        sys.exit(1 if r["fails"] else 0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    t0 = time.time()
    names, opts = harness_names(pid)
    if a.only:
        names = [n for n in names if a.only in n]
    # tier-only harnesses
    names = [n for n in names if tier in opts.get(n, {}).get("tiers", ["quick", "thorough"])]
    total = 420 if tier == "quick" else 3000
    jobs = []
    for n in names:
        o = dict(opts.get("*", {}))
        o.update(opts.get(n, {}))
        jobs.append((pid, n, tier, seed, o.get("budget", total) if tier == "quick" else total, o))
    results = []
    if a.serial or len(jobs) == 1:
        for j in jobs:
            results.append(work(j))
    else:
        import multiprocessing as mp
        import concurrent.futures as cf
        from symx import path, loader, zb, concrete      # before forking
        try:
            import scipy.interpolate, scipy.signal, scipy.optimize, scipy.misc, scipy.integrate, matplotlib.pyplot, scipy.ndimage
        except Exception:
            pass
        with cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)), mp_context=mp.get_context("fork"), max_tasks_per_child=None) as pool:
            futs = {pool.submit(work, j): j for j in jobs}
            for f in cf.as_completed(futs):
                j = futs[f]
                try:
                    results.append(f.result())
                except Exception as e:
                    results.append({"harness": j[1], "crash": "%s: %s" % (type(e).__name__, e)})
    sys.exit(report(pid, tier, seed, results, t0, jobs))


def selftest():
    """the engine proves a true statement, refutes a false one with a witness, and finds both sides of a branch"""
    from symx import path as P, loader as L, zb
    out = []

    def run(h):
        ld = L.Loader()
        ld.fresh()
        ex = P.Explorer(ld, 1)
        ex.confirm = lambda label, why, cands: {"label": label, "cands": cands}
        ex.run(h, "selftest")
        return ex

    def good(c):
        x = c.cplxs("x", 4)
        c.eq("parseval", (c.np.abs(c.np.fft.fft(x))**2).sum(), 4 * (c.np.abs(x)**2).sum())

    def bad(c):
        x = c.real("x", 0, 10)
        c.lt("x^2 < 50", x * x, 50)

    def fork(c):
        x = c.real("x", -1, 1)
        y = x if x > 0 else -x
        c.le("abs", 0, y)
    a, b, d = run(good), run(bad), run(fork)
    ok = not a.violations and not a.errors and a.discharged >= 1 and len(b.violations) == 1 and d.paths == 2 and not d.violations
    print("selftest", "ok" if ok else "FAILED", zb.z3.get_version_string())
    return 0 if ok else 1


def report(pid, tier, seed, results, t0, jobs):
    import subprocess, glob
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in glob.glob(os.path.join(ev, "replay_%s_*.json" % pid)):
        os.remove(f)
    viol, known, incon, crashed = [], [], [], []
    lines = []
    for r in sorted(results, key=lambda r: r["harness"]):
        if "crash" in r:
            crashed.append(r)
            continue
        for v in r["violations"]:
            (known if v.get("known") else viol).append(v)
        for e in r["errors"]:
            incon.append("%s: encoding stopped: %s" % (r["harness"], e["what"][:200]))
        if r["limit"]:
            incon.append("%s: %s" % (r["harness"], r["limit"]))
        for u in r["unconfirmed"]:
            incon.append("%s: undecided: %s (%s)" % (r["harness"], u["label"], u["why"][:200]))
        for m in r["validation"]["mismatches"]:
            incon.append("%s: encoding differs from the real code: %s %s" % (r["harness"], m["what"], m.get("rel", "")))
        if r["paths"] == 0:
            incon.append("%s: no feasible path (vacuous)" % r["harness"])
        print("%-40s paths %4d  oblig %5d  solved %5d  queries %5d  solver %.1fs  val %d/%d maxrel %.1e  wall %.1fs%s" % (
            r["harness"], r["paths"], r["obligations"], r["discharged"], r["solver"]["queries"], r["solver"]["time"],
            r["validation"]["runs"], r["validation"]["points"], r["validation"]["maxrel"], r["wall"],
            "  VIOLATIONS" if r["violations"] else ""))
    rc = 0
    seenk = set()
    for v in known:
        t = "KNOWN-FINDING: property=%s %s" % (pid, v["known"])
        if t not in seenk:
            print(t)
            seenk.add(t)
    nv = 0
    seen = set()
    for v in viol:
        k = (v["harness"], v["label"])
        if k in seen:
            continue
        seen.add(k)
        nv += 1
        p = os.path.join(ev, "replay_%s_%d.json" % (pid, nv))
        json.dump(v, open(p, "w"), indent=1)
        pr = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "--replay", p], capture_output=True, text=True, cwd=HERE)
        if pr.returncode == 1:
            print("  %s / %s: %s" % (v["harness"], v["label"], v["message"].strip()[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            rc = 1
        else:
            incon.append("%s: %s reproduced only once" % (v["harness"], v["label"]))
    for r in crashed:
        incon.append("%s: worker crashed: %s" % (r["harness"], r["crash"]))
    for i in incon[:40]:
        print("INCONCLUSIVE " + i)
    if rc == 0 and crashed and len(crashed) == len(results):
        rc = 2
    write_evidence(pid, tier, seed, results, t0, incon, viol, known)
    return rc


COMMON = ["numbers are exact reals/complexes: floating-point rounding is outside the claim",
          "the environment (numpy, scipy, pyfftw, random numbers, files) is the contract written in /verif/symx/npshim.py and shims.py",
          "quotients are taken where their denominators do not vanish (listed per harness as notes)"]


def write_evidence(pid, tier, seed, results, t0, incon, viol, known):
    ok = [r for r in results if "crash" not in r]
    meta = {}
    try:
        from props.spec import META
        meta = META.get(pid, {})
    except Exception:
        pass
    fn = {}
    for r in ok:
        for k, n in r["functions"].items():
            fn[k] = fn.get(k, 0) + n
    samples = []
    for r in ok[:20]:
        for l, n in sorted(r["labels"].items())[:40]:
            samples.append("%s: %s (%d paths)" % (r["harness"], l, n))
    st = {k: sum(r["solver"][k] for r in ok) for k in ("queries", "sat", "unsat", "unknown", "time")}
    cov = {"states": sum(r["paths"] for r in ok),
           "transitions": sum(r["calls"] for r in ok),
           "traces_validated_against_impl": sum(r["validation"]["runs"] for r in ok),
           "samples": samples[:60] or ["none"],
           "meaning": "states = feasible symbolic paths explored to the end; transitions = activations of functions of the package "
                      "executed symbolically; traces_validated = path witnesses replayed on the unmodified code and compared with the encoding",
           "harnesses": [{k: r[k] for k in ("harness", "paths", "infeasible", "decisions", "forks", "obligations", "discharged", "witnesses",
                                            "limit", "validation", "concretised", "solver", "notes", "wall", "labels")} for r in ok],
           "functions_encoded": {k: n for k, n in sorted(fn.items())},
           "source_hashes": {k: v for r in ok for k, v in r["sources"].items()},
           "obligations": sum(r["obligations"] for r in ok),
           "discharged": sum(r["discharged"] for r in ok),
           "solver_queries": st["queries"], "solver_unsat": st["unsat"], "solver_sat": st["sat"], "solver_unknown": st["unknown"],
           "solver_time_s": round(st["time"], 2), "bounds": meta.get("bounds", ""), "outside": meta.get("outside", ""),
           "inconclusive": incon[:60],
           "violation_list": [{k: v[k] for k in ("harness", "label", "message")} for v in viol[:10]],
           "known_findings": [v["known"] for v in known]}
    e = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
         "assumptions": meta.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(e, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)


if __name__ == "__main__":
    main()
