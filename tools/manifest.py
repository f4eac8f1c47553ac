#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "symbolic execution of the compiled generic library over exact reals, decided by z3 (nonlinear real arithmetic)"
KANI = "; bounded model checking of the f64/f32 instances with Kani (CBMC)"
NOTE = ("Every feasible path of the compiled library at a symbolic number type is explored; the assertion is decided by z3 for all real inputs of the path. "
        "Exact real arithmetic with an infinitesimal tolerance; counterexamples are replayed on the f64 code before they are reported. ")
C = {f"C{i:02d}": "" for i in range(1, 15)}
C["C05"] = "Polygons with 3 and 4 vertices (thorough: 5). "
C["C13"] = "Arc angles from a list of combinations; thorough also arbitrary angles. Some generic paths end in a time bound, counted in the evidence. "
C["C14"] = "Arc angles from a list. "
TECH = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
ps = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
               technique=TECH.get(p["id"], T), level="model_checking", level_note=("" if p["id"] == "C27" else NOTE) + C[p["id"]]) for p in ps if p["id"] in C]
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in ps if p["id"] not in C]
m = dict(version=1, setup_cmd="python3 check.py build",
         hooks=dict(guard="cfg(rcgal_verif)", enable="RUSTFLAGS='--cfg rcgal_verif'", source_commits=HOOKS if "HOOKS" in globals() else []),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
