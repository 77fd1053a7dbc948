"""Mutation campaign (development aid, not a check): how many small changes of modepy
do the quick checks report?  Mutants live in scratch copies under /tmp.

    python3 tools/mutate.py OUT.jsonl [--workers N] [--files a.py,b.py] [--sample P] [--seed S]
"""
from __future__ import annotations

import argparse, ast, json, os, random, shutil, subprocess, sys, time
from multiprocessing import Process, Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/modepy"
FILES = ["modes.py", "shapes.py", "spaces.py", "nodes.py", "tools.py", "matrices.py", "modal_decay.py",
         "quadrature/__init__.py", "quadrature/clenshaw_curtis.py", "quadrature/construction.py",
         "quadrature/grundmann_moeller.py", "quadrature/jacobi_gauss.py",
         "quadrature/jaskowiec_sukumar.py", "quadrature/kronrod.py", "quadrature/transplanted.py",
         "quadrature/vioreanu_rokhlin.py", "quadrature/witherden_vincent.py",
         "quadrature/xiao_gimbutas.py"]
ORDER = {
    "modes.py": "C01 C02 C03 C04 C05 C24 C26",
    "shapes.py": "C17 C18 C19 C13 C24 C26 C15 C16",
    "spaces.py": "C24 C02 C09 C26 C22",
    "nodes.py": "C13 C14 C06 C26 C20 C27",
    "tools.py": "C19 C20 C05 C25 C22 C18 C26 C04",
    "matrices.py": "C14 C15 C16 C26 C27",
    "modal_decay.py": "C21 C22 C27",
    "quadrature/__init__.py": "C08 C09 C12 C24 C26 C06",
    "quadrature/clenshaw_curtis.py": "C06 C26",
    "quadrature/construction.py": "C23 C26",
    "quadrature/grundmann_moeller.py": "C07 C26",
    "quadrature/jacobi_gauss.py": "C06 C01 C26",
    "quadrature/jaskowiec_sukumar.py": "C07 C26 C27",
    "quadrature/kronrod.py": "C10 C11 C26",
    "quadrature/transplanted.py": "C12 C26",
    "quadrature/vioreanu_rokhlin.py": "C07 C26 C27",
    "quadrature/witherden_vincent.py": "C08 C26 C27",
    "quadrature/xiao_gimbutas.py": "C07 C26 C27",
}
ALL_CHECKS = bool(os.environ.get("MUT_ALL"))
SKIP = ("plot_element_values", "__repr__")
ALL = [f"C{i:02d}" for i in range(1, 28)]
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"],
       ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.MatMult: ["*"]}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.b = text.encode()
        self.starts = [0]
        for ln in self.b.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(ln))
        self.out, self.fn = [], []

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset)

    def src(self, n):
        a, e = self.span(n)
        return self.b[a:e].decode()

    def add(self, n, new, kind):
        a, e = self.span(n)
        self.out.append({"a": a, "e": e, "new": new, "old": self.b[a:e].decode(), "kind": kind,
                         "line": n.lineno, "fn": ".".join(self.fn)})

    def visit_FunctionDef(self, n):
        if any("overload" in ast.dump(d) for d in n.decorator_list) or n.name in ("__repr__", "__str__"):
            return
        self.fn.append(n.name)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.body(n.body)
        self.fn.pop()

    def body(self, stmts):
        for s in stmts:
            self.visit(s)

    def visit_If(self, n):
        if "TYPE_CHECKING" in ast.dump(n.test):
            return
        self.add(n.test, "(True)", "cond")
        self.add(n.test, "(False)", "cond")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.src(n.body)})", "ifexp")
        self.add(n, f"({self.src(n.orelse)})", "ifexp")
        self.generic_visit(n)

    def visit_Import(self, n): pass
    visit_ImportFrom = visit_Import

    def visit_AnnAssign(self, n):
        if n.value and self.fn:
            self.visit(n.value)

    def visit_Assign(self, n):
        if not self.fn and any(getattr(t, "id", "").startswith("__") or "version" in getattr(t, "id", "").lower() for t in n.targets):
            return
        self.visit(n.value)
        for t in n.targets:
            if not isinstance(t, ast.Name):
                self.visit(t)
                self.add(n, "pass", "delstmt")

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delstmt")
        for o in BIN.get(type(n.op), []):
            self.add(n, f"{self.src(n.target)} {o}= {self.src(n.value)}", "aug")
        self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if "warn" in self.src(n)[:20]:
            return
        self.add(n, "pass", "delstmt")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "delraise")

    def visit_Assert(self, n): pass

    def visit_JoinedStr(self, n): pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, f"({self.src(n.left)} {o} {self.src(n.comparators[0])})", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return
        for o in BIN.get(type(n.op), []):
            self.add(n, f"(({self.src(n.left)}) {o} ({self.src(n.right)}))", "bin")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            rest = [self.src(v) for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + o.join(f"({r})" for r in rest) + ")", "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, f"({self.src(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            self.add(n, f"({v - 1})", "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 2 if v else 1.0), "const")

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("isinstance", "warn", "cast", "TypeVar", "getLogger"):
            self.generic_visit(n) if f.id == "isinstance" else None
            return
        if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
            self.add(n, self.src(f.value), "nocopy")
        if isinstance(f, ast.Name) and f.id in ("abs", "sorted", "reversed", "tuple", "list") and len(n.args) == 1:
            self.add(n, f"({self.src(n.args[0])})", "unwrap")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            s = [self.src(a) for a in n.args]
            s[0], s[1] = s[1], s[0]
            s += [self.src(k.value) if k.arg is None else f"{k.arg}={self.src(k.value)}" for k in n.keywords if k.arg]
            if s[0] != s[1]:
                self.add(n, f"{self.src(f)}({', '.join(s)})", "swap")
        for i, k in enumerate(n.keywords):
            if k.arg in ("dtype", "stacklevel", "frozen"):
                continue
            s = [self.src(a) for a in n.args] + [f"{q.arg}={self.src(q.value)}" if q.arg else f"**{self.src(q.value)}"
                                                  for j, q in enumerate(n.keywords) if j != i]
            self.add(n, f"{self.src(f)}({', '.join(s)})", "delkw")
        self.generic_visit(n)

    def visit_Slice(self, n):
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for c in n.ifs:
            self.add(c, "(True)", "cond")
        self.generic_visit(n)


def mutants(files):
    for f in files:
        text = open(f"{SRC}/{f}").read()
        g = Gen(text)
        tree = ast.parse(text)
        g.body(tree.body)
        seen = set()
        for m in g.out:
            new = g.b[:m["a"]] + m["new"].encode() + g.b[m["e"]:]
            if any(k in m["fn"] for k in SKIP) or m["fn"].startswith("test_"):
                continue
            if new in seen or new == g.b:
                continue
            seen.add(new)
            try:
                compile(new, f, "exec")
            except (SyntaxError, ValueError):
                continue
            yield {"file": f, **m}


def worker(k, inq, outq, jobs):
    base = f"/tmp/mutw/{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    shutil.copytree(SRC, f"{base}/modepy", ignore=shutil.ignore_patterns("__pycache__", "test"))
    env = dict(os.environ, VERIF_REPO=base, VERIF_SEED="1", VERIF_TIER="quick", VERIF_QUICK_FAIL="1")
    hot = {}
    while True:
        m = inq.get()
        if m is None:
            return
        path = f"{base}/modepy/{m['file']}"
        orig = open(path, "rb").read()
        open(path, "wb").write(orig[:m["a"]] + m["new"].encode() + orig[m["e"]:])
        t0, res, rcs = time.time(), None, {}
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import modepy"], cwd=base, capture_output=True, timeout=60)
            if p.returncode:
                res = "stillborn"
            else:
                first = ORDER[m["file"]].split()
                order = hot.get((m["file"], m["fn"]), [])[:3]
                order = order + [c for c in first if c not in order]
                if ALL_CHECKS:
                    order += [c for c in ALL if c not in order]
                for c in order:
                    try:
                        p = subprocess.run(["timeout", "-k", "5", "300", "nice", "./check", c, "--no-evidence", "--jobs", str(jobs)],
                                           cwd=HERE, env=env, capture_output=True, text=True, errors="replace")
                        rc = p.returncode
                    except Exception as e:
                        rc = repr(e)
                    if rc == 1:
                        v = [ln for ln in p.stdout.splitlines() if ln.startswith("VIOLATION")]
                        res = f"killed {c}"
                        m["v"] = v[:1]
                        h = hot.setdefault((m["file"], m["fn"]), [])
                        if c in h: h.remove(c)
                        h.insert(0, c)
                        break
                    if rc != 0:
                        rcs[c] = rc
                        if rc == 124 or len(rcs) > 2:
                            res = "error"
                            break
                if res is None:
                    res = "error" if rcs else "SURVIVED"
        except subprocess.TimeoutExpired:
            res = "stillborn"
        finally:
            open(path, "wb").write(orig)
        outq.put({**m, "res": res, "rcs": rcs, "t": round(time.time() - t0, 1)})


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--workers", type=int, default=6)
    p.add_argument("--jobs", type=int, default=1)
    p.add_argument("--files")
    p.add_argument("--sample", type=float, default=1.0)
    p.add_argument("--seed", type=int, default=0)
    p.add_argument("--count", action="store_true")
    p.add_argument("--kinds")
    a = p.parse_args()
    ms = list(mutants(a.files.split(",") if a.files else FILES))
    if a.kinds:
        ms = [m for m in ms if m["kind"] in a.kinds.split(",")]
    if a.count:
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms), Counter(m["kind"] for m in ms))
        return
    rnd = random.Random(a.seed)
    rnd.shuffle(ms)
    ms = ms[:int(len(ms) * a.sample)]
    done = set()
    if os.path.exists(a.out):
        for ln in open(a.out):
            d = json.loads(ln)
            done.add((d["file"], d["a"], d["e"], d["new"]))
    ms = [m for m in ms if (m["file"], m["a"], m["e"], m["new"]) not in done]
    inq, outq = Queue(), Queue()
    ps = [Process(target=worker, args=(k, inq, outq, a.jobs)) for k in range(a.workers)]
    for m in ms: inq.put(m)
    for q in ps: inq.put(None)
    for q in ps: q.start()
    with open(a.out, "a") as fh:
        for _ in ms:
            r = outq.get()
            fh.write(json.dumps(r) + "\n"); fh.flush()
    for q in ps: q.join()


if __name__ == "__main__":
    main()
