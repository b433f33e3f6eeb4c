"""Author's tool: builds and confirms a planted bug.  usage: mkseed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS)
Makes a scratch copy of /repo, applies the edits, confirms build/tests/demo, writes seeded/<ID>/.  Not used by any check."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
PY = "/opt/venv/bin/python"
IGN = ["tests/cli/test_cli.py", "tests/error/test_bootstrap.py", "tests/error/test_displacement.py",
       "tests/eval/test_perturbation.py", "tests/model/test_batchsa.py", "tests/rotational/test_constrained.py"]


def run(cmd, cwd, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env, **k)


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(HERE, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    w = "/tmp/seedwt." + s["ID"]
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    try:
        r = run(["bash", d + "/demo.sh"], w, timeout=300)
        assert r.returncode == 0, "demo fails on the clean tree: " + r.stdout[-800:] + r.stderr[-1500:]
        for f, a, b in s["EDITS"]:
            p = os.path.join(w, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            assert t.count(a) == 1, (f, t.count(a), a)
            open(p, "w", newline="").write(t.replace(a, b))
        diff = subprocess.check_output(["git", "-C", w, "diff", "--binary"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
        r = run(["bash", d + "/demo.sh"], w, timeout=300)
        assert r.returncode != 0, "demo passes with the bug"
        print("demo with the bug:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
             "-o", "junit_family=xunit2", "--junitxml=" + w + "/j.xml", "tests"] + ["--ignore=" + i for i in IGN], w)
        ok = set()
        for tc in ET.parse(w + "/j.xml").getroot().iter("testcase"):
            if not [c for c in tc if c.tag in ("failure", "error", "skipped")]:
                ok.add(tc.get("classname") + "::" + tc.get("name"))
        miss = [t for t in STABLE if t not in ok]
        assert not miss, miss
        print(s["ID"], "confirmed")
        if len(sys.argv) > 2:
            for c in sys.argv[2].split(","):
                r = subprocess.run(["python3-vt", "check.py", c, "--tier", "quick"], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_SCRATCH="1"))
                print(c, "exit", r.returncode, (r.stdout.strip().splitlines() or [""])[-3:], r.stderr[-300:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1])
