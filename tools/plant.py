"""Turn a planted-bug spec into /verif/seeded/<id>/ after confirming it in a scratch copy.

    python3 tools/plant.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, demo)].
A bug is kept if the patch touches only original lines, the demo passes on the unchanged
tree and fails on the patched one, and the stable tests pass on the patched tree.
Prints which checks report it.
"""
import json, os, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                      capture_output=True, text=True).stdout.strip()
SH = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken.  Run with cwd = the repository.
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B -W ignore "$d/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in spec:
        if only and b["id"] not in only:
            continue
        dst = f"{HERE}/seeded/{b['id']}"
        if not only and os.path.exists(dst):
            continue
        w = f"/tmp/plant_{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        status = "ok"
        edits = b["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            p = f"{w}/modepy/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                status = f"edit matches {s.count(old)} times: {old[:60]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if status == "ok":
            diff = run(["git", "-C", w, "diff"]).stdout
            # lines removed must be lines of the original repository
            orig = {f: set(run(["git", "-C", "/repo", "show", f"{BASE}:modepy/{f}"]).stdout.splitlines())
                    for f in {e[0] if len(e) == 3 else b["file"] for e in edits}}
            rem = [ln[1:] for ln in diff.splitlines() if ln.startswith("-") and not ln.startswith("---")]
            if not rem:
                status = "changes no line"
            for ln in rem:
                if ln.strip() and not any(ln in o for o in orig.values()):
                    status = f"touches a line of a fix: {ln}"
        d = f"/tmp/plant_demo_{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/demo.py", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        if status == "ok":
            p0 = run(["timeout", "280", f"{d}/demo.sh"], cwd="/repo")
            p1 = run(["timeout", "280", f"{d}/demo.sh"], cwd=w)
            if p0.returncode:
                status = f"demo fails unpatched: {p0.stdout[-500:]}{p0.stderr[-800:]}"
            elif p1.returncode == 0:
                status = f"demo passes patched: {p1.stdout[-300:]}"
        if status == "ok":
            env = dict(os.environ, PYTHONPATH=w, OPENBLAS_NUM_THREADS="1")
            t = run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                     "--doctest-modules", "-n", "4", "--dist", "worksteal", "modepy"], cwd=w, env=env)
            fails = [ln for ln in t.stdout.splitlines() if ln.startswith(("FAILED", "ERROR"))]
            if fails:
                status = "existing tests fail: " + "; ".join(fails[:3])
        caught = {}
        if status == "ok":
            os.makedirs(dst, exist_ok=True)
            shutil.copy(f"{d}/demo.py", dst)
            shutil.copy(f"{d}/demo.sh", dst)
            open(f"{dst}/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(f"{dst}/meta.json", "w"), indent=1)
            env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", VERIF_QUICK_FAIL="1")
            for c in [b["property"], *b.get("also", [])]:
                r = run(["timeout", "900", "./check", c, "--no-evidence", "--jobs", "3"], cwd=HERE, env=env)
                caught[c] = r.returncode
        print(f"{b['id']:32} {b['property']} {status} {caught}", flush=True)
        shutil.rmtree(w)
        shutil.rmtree(d)


main()
