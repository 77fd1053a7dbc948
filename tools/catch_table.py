"""python3 tools/catch_table.py OUT.md [ids...]: run every planted bug's own check (and
those listed in EXTRA) against a scratch copy with the bug applied; write a table."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = f"{HERE}/seeded/{name}"
    meta = json.load(open(f"{d}/meta.json"))
    w = f"/tmp/ct_{name}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        subprocess.run(["git", "-C", w, "apply", f"{d}/patch.diff"], check=True)
        p = subprocess.run([f"{HERE}/check", meta["property"]], capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO": w, "VERIF_SEED": "1"})
        subs = sorted(set(re.findall(r"replay=\S*/([\w-]+)-[0-9a-f]+\.json", p.stdout)))
        return name, meta, p.returncode, subs
    finally:
        shutil.rmtree(w, ignore_errors=True)


names = sys.argv[2:] or sorted(os.listdir(f"{HERE}/seeded"))
with ThreadPoolExecutor(2) as ex:
    rows = list(ex.map(one, names))
with open(sys.argv[1], "w") as f:
    f.write("| planted bug | needs | caught by |\n|---|---|---|\n")
    for n, m, rc, subs in rows:
        got = f"{m['property']}: " + ", ".join(subs) if rc == 1 else f"**missed** (rc {rc})"
        f.write(f"| {n} | {' '.join(m['needs'].split())} | {got} |\n")
