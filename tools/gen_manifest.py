"""writes MANIFEST.json: one check per props/Cxx.py"""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C32": "the helper only drives an external iterative optimiser (numpyro SVI with Adam); the claim is about convergence of floating-point iterations of a third-party library, outside any encoding within reach",
}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(H, "props", p + ".py")
    if not os.path.exists(f) or p in NA:
        na.append({"property": p, "reason": NA.get(p, "harness not built yet")})
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python run.py {p} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {p} --tier thorough",
        "technique": "bounded symbolic execution of the current source over exact reals, goals decided by SMT (z3, cvc5)",
        "level": "other",
        "level_note": f"holds for every real input within: {v.get('BOUNDS', '')}. Outside: {v.get('OUTSIDE', '')}; floating-point rounding.",
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
