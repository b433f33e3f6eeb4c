"""Generates MANIFEST.json from contracts/*.py (claimed) and the reasons below (not claimed)."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NOT_APPLICABLE = {
    "C32": "the extension module esat_rust is absent and its dependencies cannot be built offline; a contract relating the "
           "two back ends would have to be proved over GPU/BLAS kernels that no installed deductive verifier accepts",
    "C33": "the command line layer is argument parsing and file-system orchestration (click, yaml, pickled projects on "
           "disk); its postconditions are about files and processes, which no installed contract verifier can express",
}
DEFAULT_NA = "no contract of this property is discharged by the machinery yet"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(HERE, "contracts", i.lower() + ".py")
        mod = importlib.import_module("contracts." + i.lower()) if os.path.exists(f) else None
        if mod is None or getattr(mod, "CLAIM", True) is False:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, DEFAULT_NA)})
            continue
        proved = any(getattr(getattr(mod, c), "opts", {}).get("prove", True) for c in mod.CONTRACTS)
        level = getattr(mod, "LEVEL", "proof" if proved else "exploration")
        d = {"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick",
             "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
             "evidence_file": f"evidence/{i}.json",
             "technique": getattr(mod, "TECHNIQUE", ("contracts on the Python source; verification conditions generated from "
                                  "/repo and discharged by z3/cvc5" + (" with Lean lemmas" if getattr(mod, "LEAN", None) else ""))
                                  if proved else "contracts on the real code checked at run time on generated inputs (bounded "
                                  "stand-in: no obligation is discharged)"),
             "level": level,
             "level_note": getattr(mod, "NOTE", " ".join((mod.__doc__ or "").split())) or "see DESIGN.md"}
        th = [t for l in getattr(mod, "LEAN", []) for t in l["theorems"]]
        if th:
            d["theorems"] = th
        checks.append(d)
    out = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "check.py reads the contracts of contracts/<id>.py, translates the named functions of /repo from their "
                    "current source, discharges every obligation and evaluates the same contracts on the real code."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", "not claimed:", [x["property"] for x in na])


if __name__ == "__main__":
    main()
