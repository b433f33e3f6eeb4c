"""mklocals.py: contracts/locals.json, the locals of the functions with loop invariants (names the invariants use)"""
import ast
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.loops import bindings
REPO = os.environ.get("VERIF_REPO", "/repo")
FUNCS = ["esat.model.sa:SA.train", "esat.error.displacement:Displacement._increase_disp_p",
         "esat.error.displacement:Displacement._decrease_disp_p", "esat.rotational.constrained:ConstrainedModel.train",
         "esat.rotational.constrained:ConstrainedModel._pull_down_value", "esat.rotational.constrained:ConstrainedModel._pull_up_value",
         "esat.rotational.constrained:ConstrainedModel._pull_to_value"]
out = {}
for f in FUNCS:
    mod, q = f.split(":")
    t = ast.parse(open(os.path.join(REPO, mod.replace(".", "/") + ".py")).read())
    c, fn = q.split(".")
    for x in ast.walk(t):
        if isinstance(x, ast.ClassDef) and x.name == c:
            for y in x.body:
                if isinstance(y, ast.FunctionDef) and y.name == fn:
                    out[f] = bindings(y)
assert set(out) == set(FUNCS), set(FUNCS) - set(out)
json.dump(out, open(os.path.join(HERE, "contracts", "locals.json"), "w"), indent=1, sort_keys=True)
