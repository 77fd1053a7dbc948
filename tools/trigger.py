"""Which kinds of arguments do the checks' generators give each function of modepy?

    python3 tools/trigger.py record OUT.json [check ids]   run the quick checks on an
        instrumented copy of /repo; record the argument features each function saw
        (with TRIG_PAIRS=1: also pairs of features that occurred together)
    python3 tools/trigger.py pairs OUT.json [names]        list the pairs of features that
        occur, but never together
    python3 tools/trigger.py mutate OUT.json N [seed]      sample (function, feature) pairs
        that were seen; perturb the function's result only when the feature holds; report
        which pairs no check notices
"""
import ast, json, os, random, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["modes.py", "shapes.py", "spaces.py", "nodes.py", "tools.py", "matrices.py",
         "modal_decay.py", *(f"quadrature/{f}.py" for f in (
             "__init__", "clenshaw_curtis", "construction", "grundmann_moeller",
             "jacobi_gauss", "jaskowiec_sukumar", "kronrod", "transplanted",
             "vioreanu_rokhlin", "witherden_vincent", "xiao_gimbutas"))]

RT = '''
import atexit, functools, os, hashlib
import numpy as np
_seen = {}
_last = {}
_cnt = {}
_ACT = os.environ.get("TRIG_ACT")          # "qual|feature"
_DIR = os.environ.get("TRIG_DIR")
_busy = [False]

def _feat(x, top, out):
    if isinstance(x, bool):
        out.add(f"bool:{x}")
    elif isinstance(x, (int, np.integer)):
        if isinstance(x, np.integer): out.add("npint")
        for k in (0, 1, 2, 3): 
            if x == k: out.add(f"int={k}")
        for k in (4, 8, 16, 30):
            if x >= k: out.add(f"int>={k}")
        if x < 0: out.add("int<0")
    elif isinstance(x, (float, np.floating)):
        if isinstance(x, np.floating): out.add(f"npfloat")
        if x < 0: out.add("float<0")
        if x == 0: out.add("float=0")
        if x != int(x) if np.isfinite(x) else True: out.add("float nonint")
        if abs(x) > 5: out.add("float>5")
    elif isinstance(x, np.ndarray):
        out.add(f"ndim={x.ndim}")
        out.add(f"dtype={x.dtype}")
        if x.ndim and x.shape[-1] in (0, 1): out.add(f"last={x.shape[-1]}")
        if x.size > 50: out.add("size>50")
        if x.size > 500: out.add("size>500")
        if x.ndim >= 2 and not x.flags.c_contiguous: out.add("noncontig")
        if x.ndim == 1 and x.size > 1 and x.strides[0] != x.itemsize: out.add("strided")
        if not x.flags.writeable: out.add("readonly")
        if x.dtype.kind == "f" and x.size:
            if (x == 0).any(): out.add("has0")
            if (abs(x) == 1).any(): out.add("has1")
            if (abs(x) > 1 + 1e-9).any(): out.add("beyond1")
        if x.ndim == 2:
            out.add(f"rows={min(x.shape[0], 5)}")
    elif isinstance(x, (tuple, list)):
        out.add(f"{type(x).__name__} len={min(len(x), 5)}")
        if top:
            for y in list(x)[:6]: _feat(y, False, out)
    elif x is None: out.add("None")
    elif isinstance(x, str): out.add(f"str:{x[:12]}")
    else:
        out.add(type(x).__name__)
        for a in ("dim", "order", "spatial_dim", "space_dim"):
            try:
                v = getattr(x, a)
            except Exception:
                continue
            if isinstance(v, (int, np.integer)): out.add(f"{a}={v if v < 5 else '>=5' if v < 10 else '>=10'}")
        b = getattr(x, "bases", None)
        if isinstance(b, (tuple, list)):
            out.add(f"nbases={len(b)}")
            dims = [getattr(q, "dim", getattr(q, "spatial_dim", None)) for q in b]
            if all(isinstance(d, int) for d in dims): out.add("basedims=" + ",".join(map(str, dims)))
            os_ = [getattr(q, "order", None) for q in b]
            if len(set(map(str, os_))) > 1: out.add("mixed orders")

def _features(sig, args, kw, qual, res_kw):
    out = set()
    names = sig
    for i, a in enumerate(args):
        s = set()
        _feat(a, True, s)
        n = names[i] if i < len(names) else "*"
        out |= {f"{n}:{f}" for f in s}
    for k, a in kw.items():
        s = set()
        _feat(a, True, s)
        out |= {f"{k}:{f}" for f in s}
        out.add(f"kw {k}")
    return out

def _perturb(r):
    if isinstance(r, bool): return not r
    if isinstance(r, np.ndarray):
        if r.size == 0 or r.dtype.kind not in "fciu": return r
        r = r.copy(); 
        v = r[(-1,)*r.ndim] if r.ndim else r[()]
        nv = v*1.01 + (0.01 if r.dtype.kind in "fc" else 1)
        if r.ndim: r[(-1,)*r.ndim] = nv
        else: r[()] = nv
        return r
    if isinstance(r, (int, np.integer)): return r + 1
    if isinstance(r, (float, complex, np.floating, np.complexfloating)): return r*1.01 + 0.01
    if isinstance(r, tuple) and type(r) is tuple and r: return (*r[:-1], _perturb(r[-1]))
    if isinstance(r, list) and r: return [*r[:-1], _perturb(r[-1])]
    if callable(r) and not isinstance(r, type) and not hasattr(r, "exact_to") and not hasattr(r, "mode_ids"):
        return lambda *a, **k: _perturb(r(*a, **k))
    if hasattr(r, "__dict__") and isinstance(getattr(r, "__dict__", None), dict):
        import copy
        try:
            q = copy.copy(r)
            for k, v in vars(q).items():
                if isinstance(v, np.ndarray):
                    object.__setattr__(q, k, _perturb(v)); return q
        except Exception:
            pass
    return r

def trig(qual, names):
    def deco(f):
        init = qual.endswith("__init__") or qual.endswith("__post_init__")
        meth = names and names[0] == "self"
        @functools.wraps(f)
        def w(*args, **kw):
            if _busy[0] or (_ACT and not _ACT.startswith(qual + "|")):
                return f(*args, **kw)
            if not _ACT:
                c = _cnt[qual] = _cnt.get(qual, 0) + 1
                if c > 500 and c % 37:
                    return f(*args, **kw)
            _busy[0] = True
            try:
                fs = _features(names, args, kw, qual, None) if not init else _features(names[1:], args[1:], kw, qual, None)
                try: key = hash(repr((args[1:] if meth else args, kw)))
                except Exception: key = None
                if key is not None and _last.get(qual) == key: fs.add("again")
                _last[qual] = key
            finally:
                _busy[0] = False
            r = f(*args, **kw)
            if _ACT:
                if _ACT.split("|", 1)[1] in fs:
                    if init:
                        for k, v in vars(args[0]).items():
                            if isinstance(v, np.ndarray):
                                object.__setattr__(args[0], k, _perturb(v)); break
                    else:
                        r = _perturb(r)
            else:
                if os.environ.get("TRIG_PAIRS"):
                    g = sorted(x for x in fs if x.split(":")[-1] not in ("again",))
                    fs = {f"{p} && {q}" for i, p in enumerate(g) for q in g[i+1:]} | fs
                new = fs - _seen.setdefault(qual, set())
                if new:
                    _seen[qual] |= new
                    with open(f"{_DIR}/{os.getpid()}", "a") as fh:
                        for x in new: fh.write(qual + "|" + x.replace("\\n", " ") + "\\n")
            return r
        return w
    return deco
'''


class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.stack, self.mod, self.fn = [], mod, 0

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        if self.fn:
            return n
        q = ".".join([*self.stack, n.name])
        self.stack.append(n.name)
        self.fn += 1
        self.generic_visit(n)
        self.fn -= 1
        self.stack.pop()
        decos = {getattr(d, "id", getattr(d, "attr", "")) for d in n.decorator_list}
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        if gen or decos & {"overload", "abstractmethod", "setter"} or n.name in (
                "__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__getattr__"):
            return n
        names = [a.arg for a in n.args.posonlyargs + n.args.args]
        d = ast.parse(f"__import__('modepy._trig_rt', fromlist=['trig']).trig({self.mod + ':' + q!r}, {names!r})", mode="eval").body
        if n.decorator_list and any(isinstance(x, ast.Attribute) and x.attr == "register" for x in n.decorator_list):
            pass
        n.decorator_list.append(d)
        return n


def make(dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo", dst, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    open(f"{dst}/modepy/_trig_rt.py", "w").write(RT)
    for f in FILES:
        p = f"{dst}/modepy/{f}"
        t = Tr(f[:-3]).visit(ast.parse(open(p).read()))
        ast.fix_missing_locations(t)
        open(p, "w").write(ast.unparse(t))


def record(out, ids):
    w = "/tmp/trig/wt"
    make(w)
    res = {}
    for c in ids or [f"C{i:02d}" for i in range(1, 30)]:
        d = f"/tmp/trig/rec_{c}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = {**os.environ, "VERIF_REPO": w, "TRIG_DIR": d, "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.run(["./check", c], cwd=HERE, env=env, capture_output=True, text=True)
        if p.returncode:
            print(c, "rc", p.returncode, p.stdout[-300:], p.stderr[-300:], flush=True)
        n = 0
        for f in os.listdir(d):
            for ln in open(f"{d}/{f}"):
                q, x = ln.rstrip("\n").split("|", 1)
                s = res.setdefault(q, {}).setdefault(x, [])
                if c not in s:
                    s.append(c)
                    n += 1
        print(c, n, flush=True)
        json.dump(res, open(out, "w"), indent=0)
        shutil.rmtree(d)


def mutate(out, n, seed):
    res = json.load(open(out))
    w = "/tmp/trig/wt"
    pairs = [(q, x) for q in sorted(res) for x in sorted(res[q])]
    rng = random.Random(seed)
    # one pair per function first, then more
    rng.shuffle(pairs)
    def one(pair):
        q, x = pair
        env = {**os.environ, "VERIF_REPO": w, "TRIG_ACT": f"{q}|{x}", "VERIF_QUICK_FAIL": "1",
               "PYTHONDONTWRITEBYTECODE": "1"}
        got = None
        for c in rng.sample(res[q][x], len(res[q][x])):
            p = subprocess.run(["./check", c, "--no-evidence", "--jobs", "3"], cwd=HERE, env=env,
                               capture_output=True, text=True)
            if p.returncode == 1:
                got = c
                break
        print(("killed " + got) if got else "SURVIVED", q, "|", x, res[q][x], flush=True)
    from concurrent.futures import ThreadPoolExecutor
    if not os.path.exists(w):
        make(w)
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, pairs[:n]))


def pairs(out, quals):
    """pairs of features that were seen, but never together (argument by argument)"""
    res = json.load(open(out))
    for q in sorted(res):
        if quals and not any(x in q for x in quals):
            continue
        one = sorted(x for x in res[q] if " && " not in x and x != "again")
        for i, a in enumerate(one):
            miss = [b for b in one[i+1:] if a.split(":")[0] != b.split(":")[0]
                    and f"{a} && {b}" not in res[q]]
            if miss:
                print(q, "|", a, "|", ", ".join(miss))


if __name__ == "__main__":
    if sys.argv[1] == "pairs":
        pairs(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "record":
        record(sys.argv[2], sys.argv[3:])
    else:
        mutate(sys.argv[2], int(sys.argv[3]), int((sys.argv[4:] or [1])[0]))
