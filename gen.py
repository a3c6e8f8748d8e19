#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from props/spec.py"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import spec
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in spec.S:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "state": [{"name": a, "meaning": b, "where": w} for a, b, w in p["state"]], "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B check.py --selftest",
     "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python -B check.py " + p["id"],
                 "thorough_cmd": "/opt/venv/bin/python -B check.py %s --tier thorough" % p["id"],
                 "technique": "symbolic execution of the real source + SMT (z3), counterexamples replayed on the real code",
                 "level": "model_checking",
                 "level_note": "All values within the bounds: " + p["bounds"] + ". Outside: " + p["outside"] +
                               ". Trusts: exact real arithmetic instead of floats, the numpy/scipy contracts in symx/npshim.py and symx/shims.py "
                               "(spot-validated every run by replaying path witnesses on the unmodified code), z3."} for p in spec.S],
     "not_applicable": spec.NA if hasattr(spec, "NA") else [],
     "notes": "See DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
ids = [p["id"] for p in spec.S]
assert len(set(ids)) == len(ids)
print(len(ids), "properties")

# the section "Properties" of DESIGN.md
import ast


def docs(pid):
    t = ast.parse(open(os.path.join(HERE, "props", pid.lower() + ".py")).read())
    return [(n.name, (ast.get_docstring(n) or "").replace("\n", " ")) for n in t.body if isinstance(n, ast.FunctionDef) and n.name.startswith("h_")]


A, B = "<!-- properties: written by gen.py -->", "<!-- end of properties -->"
out = [A, ""]
for p in spec.S:
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append(p["statement"])
    out.append("")
    out.append("*Bounds:* " + p["bounds"] + ". *Outside:* " + p["outside"] + ".")
    out.append("*Decided by* (each a set of z3 queries over the executed source):")
    out += ["- `%s`%s" % (h, " " + re.sub(r" {2,}", " ", d) if d else "") for h, d in docs(p["id"])]
    out.append("")
out.append(B)
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
if A in s:
    s = s[:s.index(A)] + "\n".join(out) + s[s.index(B) + len(B):]
    open(f, "w").write(s)

# the table of planted bugs
A, B = "<!-- planted: written by gen.py -->", "<!-- end of planted -->"
s = open(f).read()
sd = os.path.join(HERE, "seeded")
if A in s and os.path.isdir(sd):
    NOTE = {"p24_pm_axis": "after: h_angle with the axis unknown", "q01_expd_reuse": "after: h_last", "q03_richardson_eta": "after: h_extrapolate",
            "q04_weak_field_shock": "after: h_steep_weak", "q11_gamma0": "after: gamma differs from the table's", "q14_idler_frep": "after: results read in any order",
            "q18_negative_incidence": "after: angles of both signs",
            "r08_D_cached": "after: h_other_pulse", "r10_gain_edges": "after: spectra that cover half the grid", "r11_w0_first": "after: h_history", "r14_filter_one": "after: reversed bands", "r15_clone_hash": "after: repetition rates from 0", "r18_hash_digits": "after: grids compared to 1e-9", "r24_underflow_abs": "after: h_small"}
    NOTE.update({"s08_error_max": "MISSED: h_scale has two components", "s10_wg_index": "MISSED: h_waveguide asks for one crystal per beam",
                 "s12_pump_center": "MISSED: the pump of h_process has one phase (h_setup runs out of its budget: INCONCLUSIVE)"})
    NOTE.update(getattr(spec, "PLANTED", {}))
    out = [A, "", "| bug | property (its check catches it, unless noted) | breaks | needs | |", "|---|---|---|---|---|"]
    for d in sorted(os.listdir(sd)):
        j = json.load(open(os.path.join(sd, d, "meta.json")))
        cell = lambda t: str(t).replace("|", "/").replace("\n", " ")
        out.append("| %s | %s | %s | %s | %s |" % (d, j["property"], cell(j["what_it_breaks"]), cell(j["needs"]), NOTE.get(d, "")))
    out += ["", B]
    s = s[:s.index(A)] + "\n".join(out) + s[s.index(B) + len(B):]
    open(f, "w").write(s)
