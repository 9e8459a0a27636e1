"""plants a bug: plant.py SPEC.py [--no-tests]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (python source).
Works in a scratch copy of /repo; keeps the bug as /verif/seeded/<ID>/ only when the stable tests still pass with it,
and its demo exits 0 without and nonzero with it. Then runs the property's check against /repo with the patch applied.
"""
import json
import os
import runpy
import shutil
import subprocess as sp
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd, **k):
    return sp.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(path, tests=True):
    s = runpy.run_path(path)
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        w = os.path.join(d, "repo")
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), w, symlinks=True)
        sh("git checkout -q -- . ", w)
        b = os.path.join(d, s["ID"])
        os.makedirs(b)
        open(os.path.join(b, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        open(os.path.join(b, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(b, "demo.sh"), 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(b, "meta.json"), "w"), indent=1)
        r = sh(f"bash {b}/demo.sh", w)
        if r.returncode:
            print("demo fails on the clean tree:", r.stdout[-800:], r.stderr[-1500:])
            return 1
        for f, old, new in s["EDITS"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(f"{f}: old text occurs {t.count(old)} times")
                return 1
            open(p, "w").write(t.replace(old, new))
        r = sh(f"bash {b}/demo.sh", w)
        if r.returncode == 0:
            print("demo passes with the bug")
            return 1
        print("demo with bug:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        diff = sh("git diff", w).stdout
        open(os.path.join(b, "patch.diff"), "w").write(diff)
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = os.path.join(d, "o.json")
            t = open("/opt/vp/test.sh").read()
            # run the stable tests in the scratch copy
            tt = os.path.join(d, "test.sh")
            open(tt, "w").write(t.replace("/repo", w).replace("unset PYTHONPATH", ""))
            r = sh(f"PYTHONPATH={w} bash {tt} {out}", w)
            o = json.load(open(out))
            bad = sorted(set(base["stable"]) - set(o["passed"]))
            print("stable tests:", len(set(base["stable"]) & set(o["passed"])), "of", len(base["stable"]), bad[:4])
            if bad:
                return 1
        dst = os.path.join(H, "seeded", s["ID"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(b, dst)
        print("kept", dst)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], "--no-tests" not in sys.argv))
