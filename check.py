#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay file] [--only contract]

Decides one property: every contract of contracts/<property>.py is turned into verification conditions from the current
source of /repo and discharged; the same contracts are evaluated on the real code on directed inputs and on the
counter-models of failed conditions.  Exit 0 or 1 (VIOLATION line)."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TIERS = {"quick": dict(timeout=4000, per=60, pbudget=500, cases=60, cbudget=100, paths=1500),
         "thorough": dict(timeout=15000, per=150, pbudget=1500, cases=1500, cbudget=900, paths=6000)}


def describe(symb, obls):
    bad_seen, out = {}, []
    for o in obls:
        d = {"name": o.name, "where": o.where, "status": o.status, "time": round(o.time, 3)}
        if o.status != "proved":
            bad_seen[o.name] = bad_seen.get(o.name, 0) + 1
            if bad_seen[o.name] <= 3:
                d["model"] = symb.model_inputs(o)
                d["goal"] = str(o.goal)[:3000]
                d["hyps"] = [str(h)[:400] for h in o.hyps[-12:]]
        out.append(d)
    return out


EMPTY = {"obls": [], "ensured": [], "funcs": [], "assumed": [], "inlined": [], "paths": 0, "live": 0, "vacuous": None,
         "stats": {}, "errors": [], "time": 0}


def merge(parts, base):
    out = dict(base)
    for k in ("ensured", "funcs", "assumed", "inlined"):
        out[k] = sorted(set().union(*[p[k] for p in parts]))
    out["obls"] = [o for p in parts for o in p["obls"]]
    out["errors"] = [e for p in parts for e in p["errors"]]
    out["paths"], out["live"] = sum(p["paths"] for p in parts), sum(p["live"] for p in parts)
    vac = [p["vacuous"] for p in parts if p["vacuous"] is not None]
    out["vacuous"] = all(vac) if vac else None
    st = {}
    for p in parts:
        for k, v in p["stats"].items():
            if k == "lemmas":
                for a, b in v.items():
                    st.setdefault(k, {})[a] = st.get(k, {}).get(a, 0) + b
            else:
                st[k] = round(st.get(k, 0) + v, 2)
    out["stats"] = st
    return out


def prove_part(job, prefixes, obls, sem, tmp, deadline):
    """symbolic execution of some paths, then their obligations; large parts are split over further processes.
    Runs holding one token of sem."""
    from engine import symb, prover
    modname, cname, cfg = job
    mod = importlib.import_module("contracts." + modname)
    fn = getattr(mod, cname)
    opts = getattr(fn, "opts", {})
    rep = {"obls": [], "errors": [], "ensured": [], "funcs": [], "assumed": [], "inlined": [], "paths": 0, "live": 0}
    parts = []
    if obls is None:
        rep = symb.run_contract(fn, cfg["timeout"], budget=max(5, deadline - time.time()),
                                max_paths=opts.get("paths", cfg["paths"]), prefixes=prefixes,
                                fan=6 if prefixes is None else None)
        if rep["work"]:
            k = min(6, len(rep["work"]))
            parts += [(rep["work"][i::k], None) for i in range(k)]
        obls = symb.distinct(rep["obls"])
        vac = not symb.vacuity(rep) if obls else None
        if len(obls) > 24:
            k = min(6, len(obls) // 12)
            parts += [(None, obls[i::k]) for i in range(k)]
            obls = []
    else:
        vac = None
    subs = []
    for i, (pre, ob) in enumerate(parts):
        f = os.path.join(tmp, f"p{os.getpid()}_{i}")
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            r = None
            try:
                sem.acquire()
                try:
                    r = guarded(job, pre, ob, sem, tmp, deadline)
                finally:
                    sem.release()
                with open(f, "w") as h:
                    json.dump(r, h, default=str)
            finally:
                os._exit(0)
        subs.append((pid, f, ob))
    st = prover.STATS
    rep["obls"] = obls
    symb.discharge(rep, cfg["timeout"], max(20, deadline - time.time()), opts.get("per", cfg["per"]))
    me = {"obls": describe(symb, obls), "errors": [list(e) for e in rep["errors"]], "vacuous": vac,
          "paths": rep["paths"], "live": rep["live"], "stats":
          {"queries": st.queries, "z3_s": round(st.z3_time, 2), "cvc5_s": round(st.cvc5_time, 2), "cvc5": st.cvc5_used,
           "lemmas": st.lemmas}}
    for k in ("ensured", "funcs", "assumed", "inlined"):
        me[k] = sorted(rep[k])
    res = [me]
    if subs:
        sem.release()
        try:
            for pid, f, ob in subs:
                os.waitpid(pid, 0)
                try:
                    res.append(json.load(open(f)))
                except Exception:
                    res.append(dict(EMPTY, errors=[["a proof process ended without a result", "", ""]]))
        finally:
            sem.acquire()
    return merge(res, {})


def guarded(job, prefixes, obls, sem, tmp, deadline):
    try:
        from engine import prover
        prover.STATS.__init__()
        return prove_part(job, prefixes, obls, sem, tmp, deadline)
    except MemoryError:
        return dict(EMPTY, errors=[["memory limit of the proof process", "", ""]])
    except Exception as e:
        return dict(EMPTY, errors=[[f"{type(e).__name__}: {e}", "", traceback.format_exc()[-1500:]]])


def _child(job, path, sem, tmp):
    """one contract; its own process group"""
    os.setsid()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(6000)
    with sem:
        t0 = time.time()
        r = guarded(job, None, None, sem, tmp, t0 + job[2]["pbudget"])
        r["module"], r["contract"], r["time"] = job[0], job[1], round(time.time() - t0, 2)
    with open(path, "w") as f:
        json.dump(r, f, default=str)


def prove_all(jobs, nproc, wall, decided=lambda: False, grace=45):
    import tempfile
    import shutil
    import signal
    tmp = tempfile.mkdtemp(prefix="verif_prove_")
    ctx = mp.get_context("fork")
    sem = ctx.BoundedSemaphore(nproc)
    run, res = {}, {}
    t0 = time.time()
    told = None
    try:
        for i, j in enumerate(jobs):
            p = ctx.Process(target=_child, args=(j, os.path.join(tmp, str(i)), sem, tmp))
            p.start()
            run[i] = (p, time.time(), j)
        while run:
            if told is None and decided():
                told = time.time()
            for i in list(run):
                p, ts, j = run[i]
                # a failing input of the real code has settled the verdict: the proofs get a little longer to name their obligation
                early = told is not None and time.time() - told > grace
                over = time.time() - t0 > wall or early
                if p.is_alive() and not over:
                    continue
                if p.is_alive():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        p.kill()
                p.join()
                try:
                    res[i] = json.load(open(os.path.join(tmp, str(i))))
                except Exception:
                    res[i] = dict(EMPTY, module=j[0], contract=j[1], time=round(time.time() - ts, 1),
                                  errors=[["stopped: a failing input was found" if early else
                                           "time or memory limit of the proof process", "", ""]])
                del run[i]
            time.sleep(0.05)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [res[i] for i in range(len(jobs))]


def conc_start(mod, names, cfg, seed, tier, replays=None, cases=None, budget=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               VERIF_REPO=REPO)
    p = subprocess.Popen([VENV, os.path.join(HERE, "engine", "conc.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd="/tmp")
    job = {"module": mod, "contracts": names, "cases": cfg["cases"] if cases is None else cases, "seed": seed,
           "tier": tier, "budget": cfg["cbudget"] if budget is None else budget, "replays": replays or {}}
    p.stdin.write(json.dumps(job).encode())
    p.stdin.close()
    p.stdin = None
    box = {}

    def read():
        box["out"], box["err"] = p.communicate()
        try:
            box["json"] = json.loads(box["out"].decode())
        except Exception:
            pass
    t = threading.Thread(target=read, daemon=True)
    t.start()
    return p, mod, names, time.time(), t, box


def conc_wait(h, limit):
    p, mod, names, t0, t, box = h
    t.join(max(5, limit - (time.time() - t0)))
    if t.is_alive():
        p.kill()
        t.join(10)
        why = ["time limit of the concrete run", ""]
    elif "json" in box:
        return box["json"]
    else:
        why = ["concrete run ended", box.get("err", b"").decode()[-1500:]]
    return {n: {"ok": 0, "rejected": 0, "failures": [], "errors": [why], "ensured": []} for n in names}


def lean_check(mod):
    """recompiles the Lean lemmas a property rests on; returns list of (file, ok, output, axioms)"""
    out = []
    for spec in getattr(mod, "LEAN", []):
        f = os.path.join(HERE, "lean", spec["file"])
        t0 = time.time()
        try:
            r = subprocess.run(["lean", f], capture_output=True, timeout=600, cwd=os.path.join(HERE, "lean"))
            txt = r.stdout.decode() + r.stderr.decode()
            ok = r.returncode == 0 and "sorry" not in txt and "error" not in txt
            ax = [l for l in txt.splitlines() if "depends on axioms" in l]
            bad = [l for l in ax if any(a not in ("propext", "Classical.choice", "Quot.sound") for a in
                                        l.split("[", 1)[1].rstrip("]").replace(" ", "").split(","))]
            ok = ok and not bad and len(ax) >= len(spec["theorems"])
        except Exception as e:
            ok, txt, ax = False, str(e), []
        out.append({"file": spec["file"], "theorems": spec["theorems"], "ok": ok, "output": txt[-2000:], "axioms": ax,
                    "time": round(time.time() - t0, 1)})
    return out


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--update-expected", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in TIERS else "quick"
    cfg = TIERS[tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    t0 = time.time()
    mod = importlib.import_module("contracts." + prop.lower())
    if a.replay:
        return replay(prop, a.replay, cfg)
    # contracts of this property, and of other properties it rests on
    todo = [(prop.lower(), c) for c in mod.CONTRACTS] + [tuple(u) for u in getattr(mod, "USES", [])]
    if a.only:
        todo = [t for t in todo if t[1] == a.only]
    mods = {}
    for m, c in todo:
        mods.setdefault(m, []).append(c)

    def fopts(m, c):
        return getattr(getattr(importlib.import_module("contracts." + m), c), "opts", {})
    # concrete runs start first, in the background
    hs = []
    for m, names in mods.items():
        names = [n for n in names if fopts(m, n).get("concrete", True)]
        split = 3 if len(mods) == 1 else 2
        for q in range(split):
            part = names[q::split]
            if part:
                hs.append(conc_start(m, part, cfg, seed, tier))
    jobs = [(m, c, cfg) for m, c in todo if fopts(m, c).get("prove", True)]
    jobs.sort(key=lambda j: -fopts(j[0], j[1]).get("cost", 1))
    wall = 600 if tier == "quick" else 3000
    known = [k for k in load_known() if k["property"] == prop]

    def decided():
        for h in hs:
            for n, r in h[5].get("json", {}).items():
                for f in r.get("failures", []):
                    if not any(k["contract"] == n for k in known):
                        return True
        return False
    res = prove_all(jobs, 8, wall, decided if tier == "quick" else lambda: False)
    leans = lean_check(mod)
    conc = {}
    for h in hs:
        for n, r in conc_wait(h, cfg["cbudget"] * 2 + 60).items():
            conc[(h[1], n)] = r
    # replay counter-models on the real code
    reps = {}
    for r in res:
        for o in r["obls"]:
            if o.get("model"):
                reps.setdefault(r["module"], {}).setdefault(r["contract"], []).append(o["model"])
    for m, d in reps.items():
        d = {c: v[:12] for c, v in d.items() if fopts(m, c).get("concrete", True)}
        if d:
            out = conc_wait(conc_start(m, list(d), cfg, seed, tier, replays=d, cases=0, budget=60), 120)
            for n, r in out.items():
                c = conc.setdefault((m, n), {"ok": 0, "rejected": 0, "failures": [], "errors": [], "ensured": []})
                c["failures"] = r["failures"] + c["failures"]
    # ------------------------------------------------------------------ verdict
    lines, kn = [], set()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    nviol = 0

    def is_known(c, ob):
        for k in known:
            if k["contract"] == c and (k["obligation"] in (ob, "*") or ob.startswith(k["obligation"])):
                kn.add(f"KNOWN-FINDING: property={prop} {k['what']}")
                return True
        return False

    def violation(tag, data, found):
        nonlocal nviol
        nviol += 1
        path = os.path.join(HERE, "replays", f"{prop}-{nviol}.json")
        data.update({"property": prop, "failing_input_found": found,
                     "rerun": f"python3-vt check.py {prop} --replay {path}" if found else
                     f"python3-vt check.py {prop}" + (f" --only {data.get('contract')}" if data.get("contract") else "")})
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        print(f"  {tag}")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
    concrete_fail = set()
    for (m, c), r in sorted(conc.items()):
        seen = set()
        for f in r["failures"]:
            if (c, f["obligation"]) in seen:
                continue
            seen.add((c, f["obligation"]))
            if is_known(c, f["obligation"]):
                continue
            concrete_fail.add(c)
            violation(f"[{m}.{c}] '{f['obligation']}' fails on the real code: {f['detail']}",
                      {"kind": "failing input", "module": m, "contract": c, **f}, True)
        if r["errors"]:
            violation(f"[{m}.{c}] cannot be evaluated on the real code: {r['errors'][0]}",
                      {"kind": "contract not applicable to the code", "module": m, "contract": c, "errors": r["errors"]},
                      False)
    exp_path = os.path.join(HERE, "contracts", "expected.json")
    expected = json.load(open(exp_path)) if os.path.exists(exp_path) else {}
    nob = ndis = 0
    for r in res:
        key = f"{r['module']}.{r['contract']}"
        nob += len(r["obls"])
        ndis += sum(1 for o in r["obls"] if o["status"] == "proved")
        seen = set()
        if a.update_expected:
            expected[key] = sorted(r.get("ensured", []))
        for e in r["errors"][:3]:
            if e[0].startswith("stopped:"):
                print(f"  [{key}] proof {e[0]}")
                continue
            violation(f"[{key}] outside the verified subset or budget: {e[0]} ({e[1]})",
                      {"kind": "untranslatable", "module": r["module"], "contract": r["contract"], "error": e}, False)
        for o in r["obls"]:
            if o["status"] == "proved" or o["name"] in seen:
                continue
            seen.add(o["name"])
            if is_known(r["contract"], o["name"]):
                continue
            if r["contract"] in concrete_fail:
                print(f"  [{key}] obligation '{o['name']}' ({o['where']}) is not discharged: {o['status']}")
                continue
            violation(f"[{key}] obligation '{o['name']}' ({o['where']}) is not discharged: {o['status']}",
                      {"kind": "obligation", "module": r["module"], "contract": r["contract"], "obligation": o}, False)
        if not r["errors"]:
            if not r["obls"]:
                violation(f"[{key}] generated no obligation", {"kind": "vacuous", "contract": r["contract"]}, False)
            elif r["vacuous"]:
                violation(f"[{key}] has contradictory hypotheses", {"kind": "vacuous", "contract": r["contract"]}, False)
            miss = set(expected.get(key, [])) - set(r["ensured"])
            if miss and not a.update_expected:
                violation(f"[{key}] postconditions no longer reached: {sorted(miss)[:4]}",
                          {"kind": "unreached postcondition", "contract": r["contract"], "missing": sorted(miss)}, False)
    if a.update_expected:
        json.dump(expected, open(exp_path, "w"), indent=1, sort_keys=True)
        open(exp_path, "a").write("\n")
    for l in leans:
        nob += len(l["theorems"])
        if l["ok"]:
            ndis += len(l["theorems"])
        else:
            violation(f"Lean lemma file {l['file']} is not accepted", {"kind": "lemma", **l}, False)
    # ------------------------------------------------------------------ evidence
    funcs = sorted({f for r in res for f in r.get("funcs", []) + r.get("inlined", [])})
    assumed = sorted({f for r in res for f in r.get("assumed", [])})
    st = {"queries": 0, "z3_s": 0.0, "cvc5_s": 0.0, "cvc5": 0}
    lem = {}
    for r in res:
        for k in st:
            st[k] += r.get("stats", {}).get(k, 0)
        for k, v in r.get("stats", {}).get("lemmas", {}).items():
            lem[k] = lem.get(k, 0) + v
    level = getattr(mod, "LEVEL", "proof" if any(fopts(m, c).get("prove", True) for m, c in todo) else "exploration")
    bounded = [f"{m}.{c}" for m, c in todo if not fopts(m, c).get("prove", True)]
    evals = sum(r["ok"] + r["rejected"] + len(r["failures"]) for r in conc.values())
    cov = {"obligations": nob, "discharged": ndis,
           "checker_cmd": f"python3-vt {HERE}/check.py {prop} --tier {tier}",
           "trusted_base": TRUSTED + getattr(mod, "TRUSTED", []),
           "functions_under_contract": funcs, "assumed_callee_contracts": assumed,
           "contracts": [{"contract": f"{r['module']}.{r['contract']}", "paths": r.get("paths"), "obligations": len(r["obls"]),
                          "discharged": sum(1 for o in r["obls"] if o["status"] == "proved"), "seconds": r["time"]}
                         for r in res],
           "bounded_standins": bounded,
           "backends": {"z3 queries": st["queries"], "z3 seconds": round(st["z3_s"], 1), "cvc5 queries": st["cvc5"],
                        "cvc5 seconds": round(st["cvc5_s"], 1), "lean": [{k: l[k] for k in ("file", "theorems", "ok", "time",
                                                                                        "axioms")} for l in leans]},
           "lemma_rules_used": lem,
           "evaluations": evals, "distinct_nontrivial": sum(r.get("distinct", r["ok"]) for r in conc.values()),
           "rule": "seeded directed inputs of each contract, evaluated on the real code; non-trivial = preconditions met "
                   "and every postcondition evaluated; distinct = different inputs drawn",
           "samples": [{"contract": f"{m}.{c}", "accepted": r["ok"], "rejected": r["rejected"],
                        "postconditions": r["ensured"][:6], "cases": r.get("cases", [])} for (m, c), r in sorted(conc.items())][:40],
           "explanation": getattr(mod, "EXPLAIN", (mod.__doc__ or "").strip())}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUMPTIONS + getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in sorted(kn):
        print(l)
    # a violation with an input is the stronger statement: print those first
    for l in sorted(lines, key=lambda l: l.endswith("found")):
        print(l)
    print(f"{prop}: {ndis}/{nob} obligations discharged, {len(res)} contracts proved over {len(funcs)} functions, "
          f"{evals} concrete evaluations, {len(lines)} violations, {time.time() - t0:.1f} s")
    return 1 if lines else 0


TRUSTED = ["engine/: translator of the verified Python subset to verification conditions (interp, loops, lib, nplib)",
           "engine/nplib.py: contracts assumed for the numpy functions used",
           "engine/prover.py: lemma rules for sums/extrema, z3 5.3.2, cvc5 1.1.2"]
ASSUMPTIONS = ["machine floats are treated as real numbers (no rounding, overflow or NaN except where a contract names them)",
               "array shapes are symbolic and unbounded; arrays do not alias unless the code makes them",
               "Python library functions outside the modelled set are opaque and side-effect free on the modelled state"]


def replay(prop, path, cfg):
    d = json.load(open(path))
    if not d.get("failing_input_found"):
        print(json.dumps(d, indent=1)[:6000])
        return 1
    code = ("import sys,json;sys.path.insert(0,%r);from engine import conc;conc.setup_import();import importlib;"
            "d=json.load(open(%r));m=importlib.import_module('contracts.'+d['module']);"
            "st,B,f=conc.run_case(getattr(m,d['contract']),d['seed'],d.get('over'));print(st,f);print(json.dumps(B.vals,default=str)[:4000]);"
            "sys.exit(1 if st=='fail' else 0)" % (HERE, os.path.abspath(path)))
    return subprocess.run([VENV, "-c", code], cwd="/tmp").returncode


if __name__ == "__main__":
    sys.exit(main())
