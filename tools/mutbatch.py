"""mutbatch.py FILE [JOBS]: FILE defines M = [(property, file, old, new), ...]; each mutation is applied to its own scratch
copy of the repository (VERIF_REPO or /repo), the property's quick check is run on it, and the verdicts are printed."""
import os
import runpy
import shutil
import subprocess as sp
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")


def one(a):
    n, (prop, f, old, new) = a
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        w = os.path.join(d, "repo")
        shutil.copytree(R, w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        p = os.path.join(w, f)
        t = open(p).read()
        c = t.count(old)
        if c == 0:
            return n, prop, "NOTFOUND", 0, old[:60]
        open(p, "w").write(t.replace(old, new, 1))
        t0 = time.time()
        r = sp.run([os.path.join(H, "chk"), prop, "-v"], cwd=H, env={**os.environ, "VERIF_REPO": w, "VERIF_EVIDENCE": d}, capture_output=True, text=True, timeout=1500)
        v = {0: "HOLDS ", 1: "caught", 2: "INCONC"}.get(r.returncode, f"rc{r.returncode}")
        tail = [x for x in (r.stdout + r.stderr).splitlines() if x.strip()]
        if r.returncode == 1:
            tail = [x for x in tail if "violat" in x.lower() and not x.startswith("VIOLATION")] or tail
        return n, prop, v, time.time() - t0, (tail[-1] if tail else "")[:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    M = runpy.run_path(sys.argv[1])["M"]
    with ThreadPoolExecutor(int(sys.argv[2]) if len(sys.argv) > 2 else 2) as ex:
        for n, prop, v, s, x in ex.map(one, enumerate(M)):
            print(f"{n:3d} {prop} {v} {s:5.0f}s | {M[n][2][:50]!r} -> {M[n][3][:50]!r} | {x}", flush=True)
