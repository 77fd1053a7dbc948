"""C28: concurrent calls.  Several threads call the library at the same time under
generated schedules: a tracing scheduler lets one thread run at a time and hands over at
generated places between lines (or byte codes) of the library.  Every answer is compared
with the one a pristine process gives to that single call."""
from __future__ import annotations

import os
import pickle
import random
import sys
import threading
import traceback

import numpy as np
from hypothesis import strategies as st

import modepy
import modepy as mp
import modepy.matrices as mat
import modepy.quadrature.construction as con
import modepy.quadrature.kronrod as kr
import modepy.quadrature.transplanted as tr
from checks import c27
from checks.c27 import ALL_STEPS, Ctx, call, in_child, model, observe, same
from vlib import gen
from vlib.core import Sub, Violation
from vlib.util import fail, need


ID = "C28"
SCALE = 2
ASSUMPTIONS = [
    "threads interleave at the boundaries of Python lines or byte codes of modepy; a call"
    " into numpy or another library is one step",
    "threads may share shapes, spaces, bases, rules and argument arrays, which none of"
    " them modifies",
]

PKG = os.path.dirname(os.path.abspath(modepy.__file__)) + os.sep


class Scheduler:
    """One thread runs at a time; the schedule is a function of the seed.

    mode: ["rand", p] hand over with probability p at every event; ["every", k] after
    every k events; ["at", [..]] at these events only (counted over all threads)."""

    def __init__(self, n, mode, seed, opcodes):
        self.cv = threading.Condition()
        self.alive = list(range(n))
        self.current = None
        self.mode, self.rng, self.opcodes = mode, random.Random(seed), opcodes
        self.events = self.switches = 0

    LIMIT = 1500

    def due(self):
        if self.switches >= self.LIMIT:
            return False
        kind, arg = self.mode
        if kind == "rand":
            return self.rng.random() < arg
        if kind == "every":
            return self.events % arg == 0
        return self.events in arg

    def start(self):
        with self.cv:
            self.current = self.rng.choice(self.alive)
            self.cv.notify_all()

    def wait(self, me):
        """Returns when it is the turn of *me* (self.cv is held)."""
        while self.current != me:
            seen = (self.events, self.current)
            if not self.cv.wait(0.5) and seen == (self.events, self.current):
                # the running thread makes no progress: it waits for something that
                # a waiting thread holds.  Let this one go on.
                self.current = me
                self.switches = self.LIMIT
                self.cv.notify_all()

    def event(self, me):
        with self.cv:
            if self.current != me:
                self.wait(me)
            self.events += 1
            if len(self.alive) > 1 and self.due():
                others = [t for t in self.alive if t != me]
                self.current = self.rng.choice(others)
                self.switches += 1
                self.cv.notify_all()
                self.wait(me)

    def done(self, me):
        with self.cv:
            self.alive.remove(me)
            if self.alive and self.current == me:
                self.current = self.rng.choice(self.alive)
            self.cv.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.event(me)
            return local

        def outer(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(PKG) or code.co_name == "<module>":
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.event(me)
            return local
        return outer


def concurrent(case, expected):
    threads = case["threads"]
    ctx = Ctx(case["shared"])
    lock = threading.RLock()
    get = ctx.get

    def locked(key, ctor):
        # shared arguments are made in one step
        trace = sys.gettrace()
        sys.settrace(None)
        try:
            with lock:
                return get(key, ctor)
        finally:
            sys.settrace(trace)
    ctx.get = locked
    sched = Scheduler(len(threads), case["mode"], case["seed"], case["opcodes"])
    answers = [[] for _ in threads]
    errors = []

    def work(me):
        try:
            with sched.cv:
                sched.wait(me)
            for name, p in threads[me]:
                c = Ctx(False) if not case["shared"] else ctx
                sys.settrace(sched.tracer(me))
                try:
                    r = call(c, name, p)
                finally:
                    sys.settrace(None)
                answers[me].append(r)
                if not case["shared"]:
                    for key, a, orig in c.watched:
                        need(pickle.dumps(a) == orig, f"{name}{tuple(p)} modified its"
                             f" argument {key}")
        except Violation as e:
            errors.append(str(e))
        except Exception as e:
            errors.append(f"{threads[me][len(answers[me])]} works in a pristine process,"
                          f" but next to other threads raises {type(e).__name__}: {e}\n"
                          f"{traceback.format_exc()[-1500:]}")
        finally:
            sys.settrace(None)
            sched.done(me)

    ts = [threading.Thread(target=work, args=(i,), daemon=True)
          for i in range(len(threads))]
    with sched.cv:
        sched.current = None
    for t in ts:
        t.start()
    sched.start()
    for t in ts:
        t.join()
    if errors:
        fail(errors[0])
    for me, steps in enumerate(threads):
        for (name, p), r, e in zip(steps, answers[me], expected[me], strict=True):
            out = []
            observe(r, out, [])
            same(out, e, f"{name}{tuple(p)} in thread {me} of {len(threads)}")
    for key, a, orig in ctx.watched:
        need(pickle.dumps(a) == orig, f"argument {key} was modified")
    return sched.switches


def run(case):
    expected = [[model(name, p) for name, p in steps] for steps in case["threads"]]
    kind, val = in_child(lambda: concurrent(case, expected))
    if kind == "violation":
        fail(val)
    if kind == "exc":
        raise RuntimeError(val)


MODES = st.one_of(
    st.sampled_from([0.5, 0.2, 0.05]).map(lambda p: ["rand", p]),
    st.integers(1, 12).map(lambda k: ["every", k]),
    st.lists(st.integers(1, 400), min_size=1, max_size=6, unique=True).map(
        lambda a: ["at", sorted(a)]))


@st.composite
def schedules(draw):
    n = draw(st.integers(2, 4))
    names = draw(st.lists(st.sampled_from(sorted(ALL_STEPS)), min_size=1, max_size=2,
                          unique=True))
    step = st.sampled_from(names).flatmap(
        lambda nm: st.tuples(st.just(nm), st.sampled_from(ALL_STEPS[nm])).map(list))
    return {"threads": draw(st.lists(st.lists(step, min_size=1, max_size=3), min_size=n,
                                     max_size=n)),
            "shared": draw(st.booleans()), "mode": draw(MODES),
            "opcodes": draw(st.sampled_from([False, False, True])),
            "seed": draw(st.integers(0, 1000))}


def pairs(tier):
    """every operation against itself with all of its parameters, in two threads that
    take turns"""
    for name in sorted(ALL_STEPS):
        ps = ALL_STEPS[name]
        for i in range(len(ps)):
            modes = [["every", 1], ["rand", 0.3]]
            if tier != "quick":
                modes += [["every", 2], ["every", 3], ["every", 7], ["rand", 0.1],
                          ["rand", 0.05], ["rand", 0.02]]
            for k, mode in enumerate(modes):
                yield {"threads": [[[name, ps[i]]], [[name, ps[(i + 1) % len(ps)]]]],
                       "shared": (i + k) % 2 == 0, "mode": mode, "opcodes": False,
                       "seed": i}
            # twice the same call, with nothing cached before
            for shared in (False, True):
                yield {"threads": [[[name, ps[i]]], [[name, ps[i]]]], "shared": shared,
                       "mode": ["rand", 0.3], "opcodes": False, "seed": i}


def _nt(case):
    return len([s for t in case["threads"] for s in t]) > 1


def _classify(case):
    return [f"threads={len(case['threads'])}", f"mode {case['mode'][0]}",
            "byte codes" if case["opcodes"] else "lines",
            "shared arguments" if case["shared"] else "own arguments"]


# {{{ one preemption, at every line

def _tracing(f, seen):
    """f() with seen(file, line) called before every line of the library"""
    def local(frame, event, arg):
        if event == "line":
            seen(frame.f_code.co_filename[len(PKG):], frame.f_lineno)
        return local

    def outer(frame, event, arg):
        code = frame.f_code
        return local if (code.co_filename.startswith(PKG)
                         and code.co_name != "<module>") else None
    sys.settrace(outer)
    try:
        return f()
    finally:
        sys.settrace(None)


def lines_of(name, p):
    def go():
        out = []
        _tracing(lambda: call(Ctx(False), name, p), lambda f, n: out.append((f, n)))
        return out
    kind, val = in_child(go)
    if kind != "ok":
        fail(f"{name}{tuple(p)} fails in a pristine process: {val}")
    return val


def preempted(case, expected, inner):
    ctx = Ctx(case["shared"])
    count = [0]
    results, threads = [], []

    def other():
        try:
            c = ctx if case["shared"] else Ctx(False)
            results.append(call(c, *case["inner"]))
        except Exception as e:
            results.append(e)

    def seen(file, line):
        count[0] += 1
        if count[0] == case["at"]:
            t = threading.Thread(target=other, daemon=True)
            threads.append(t)
            trace = sys.gettrace()
            sys.settrace(None)
            t.start()
            t.join(0.5)         # (it may have to wait for a lock)
            sys.settrace(trace)
    where = (f"{case['call']}, suspended at {case['line']} while another thread makes"
             f" the call {case['inner']}")
    try:
        r = _tracing(lambda: call(ctx, *case["call"]), seen)
    except Exception as e:
        fail(f"{where}: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    for t in threads:
        t.join()
    out = []
    observe(r, out, [])
    same(out, expected, where)
    for r in results:
        if isinstance(r, Exception):
            fail(f"{where}: the other one fails: {type(r).__name__}: {r}")
        out = []
        observe(r, out, [])
        same(out, inner, f"{where}: the other one")


def run_preempted(case):
    expected, inner = model(*case["call"]), model(*case["inner"])
    kind, val = in_child(lambda: preempted(case, expected, inner))
    if kind == "violation":
        fail(val)
    if kind == "exc":
        raise RuntimeError(val)


def preemptions(tier):
    """for every line of the library that the catalogue reaches: a call suspended there
    (the first and the last time) while the same call, and one with other arguments, is
    made"""
    often = 1 if tier == "quick" else 8
    used: dict = {}
    for name in sorted(ALL_STEPS):
        ps = ALL_STEPS[name]
        for i, p in enumerate(ps):
            trace = lines_of(name, p)
            first, last = {}, {}
            for k, w in enumerate(trace, 1):
                first.setdefault(w, k)
                last[w] = k
            for w in sorted(first):
                if used.get(w, 0) >= often:
                    continue
                used[w] = used.get(w, 0) + 1
                for k in sorted({first[w], last[w]}):
                    for j in sorted({i, (i + 1) % len(ps)}):
                        yield {"call": [name, p], "inner": [name, ps[j]], "at": k,
                               "line": f"{w[0]}:{w[1]}",
                               "shared": i == j or (i + k) % 3 == 0}

# }}}


# {{{ reentrant calls

def _q(s, n):
    sh = gen.build_shape(s)
    return mp.quadrature_for_space(mp.space_for_shape(sh, n), sh)


def _b(s, n, kind="orthonormal_basis_for_space"):
    sh = gen.build_shape(s)
    return getattr(mp, kind)(mp.space_for_shape(sh, n), sh)


def _nodes(s, n):
    sh = gen.build_shape(s)
    return mp.edge_clustered_nodes_for_space(mp.space_for_shape(sh, n), sh)


def _hooked(fs, hook):
    """user functions that call the library themselves"""
    def wrap(f):
        def g(x):
            hook()
            r = f(x)
            hook()
            return r
        return g
    return [wrap(f) for f in fs]


def _kron(hook, n, lim, maxevals):
    def f(x):
        hook()
        return (np.abs(x - 0.3)**1.5 + np.cos(3*x)) * np.exp(-np.abs(x))
    return list(kr.quadgk(f, *map(float, lim), order=n, maxevals=maxevals))


def _rule(hook, s, n):
    return _q(s, n)(_hooked([lambda x: np.exp(x[0])], hook)[0])


def _kron_rule(hook, n):
    return kr.make_kronrod_quadrature(n)(_hooked([np.cos], hook)[0])


def _vandermonde(hook, s, n):
    return mp.vandermonde(_hooked(_b(s, n).functions, hook), _nodes(s, n))


def _multi(hook, s, n):
    return list(mp.multi_vandermonde(_hooked(_b(s, n).gradients, hook), _nodes(s, n)))


def _resample(hook, s, n):
    return mp.resampling_matrix(_hooked(_b(s, n).functions, hook), _nodes(s, n)*0.7,
                                _nodes(s, n))


def _diff(hook, s, n):
    b = _b(s, n)
    return list(np.atleast_3d(mp.differentiation_matrices(
        _hooked(b.functions, hook), _hooked(b.gradients, hook), _nodes(s, n))))


def _forms(hook, s, n):
    f, g, x = _b(s, n).functions, _hooked(_b(s, n).functions, hook), _nodes(s, n)
    q = _q(s, 2*n)
    return [mat.nodal_quadrature_test_matrix(q, g, f, x),
            mat.nodal_quadrature_bilinear_form_matrix(q, f, g, f, f, x, x)]


def _product(hook, n1, n2, k):
    """functions of a product of bases that call the library"""
    class Hooked(mp.Basis):
        def __init__(self, b):
            self.b = b

        def orthonormality_weight(self):
            return self.b.orthonormality_weight()
        mode_ids = property(lambda self: self.b.mode_ids)
        functions = property(lambda self: tuple(_hooked(self.b.functions, hook)))
        gradients = property(lambda self: tuple(_hooked(self.b.gradients, hook)))
    b1, b2 = Hooked(_b("S1", n1)), Hooked(_b("S2", n2))
    tp = mp.TensorProductBasis([b1, b2], dims_per_basis=(1, 2))
    x = np.linspace(-0.9, -0.1, 12).reshape(3, 4)
    i = k % len(tp.functions)
    return [tp.functions[i](x), tp.gradients[i](x), tp.derivatives(k % 3)[i](x),
            list(tp.mode_ids[i])]


def _transplant(hook, n, rho):
    def g(s):
        hook()
        r = tr.map_strip(s, rho=rho)
        hook()
        return r
    q = tr.transplanted_1d_quadrature(mp.LegendreGaussQuadrature(
        n, force_dim_axis=True), g)
    return [q.nodes, q.weights]


def _construct(hook, n):
    q = mp.LegendreGaussQuadrature(n + 2)
    fs = _hooked([lambda x, k=k: x**k for k in range(n + 1)], hook)

    def integrate(f):
        hook()
        return q(f)
    onb = con.orthogonalize_basis(integrate, fs)
    x = np.linspace(-1, 1, n + 1)
    ints = np.array([2/(k + 1) if k % 2 == 0 else 0 for k in range(n + 1)])
    return [[f(x) for f in onb],
            np.sort(con.guess_nodes_vioreanu_rokhlin(integrate, onb).real),
            con.find_weights_undetermined_coefficients(fs, x, ints)]


SH = ["S1", "S2", "H2", "S3"]
OUTER = {
    "quadgk": (_kron, [[n, lim, m] for n in (7, 10) for lim in ([-1, 2], [2, 0, -1])
                       for m in (10**5, 200)]
               + [[7, lim, 500] for lim in (["-inf", "inf"], [0, "inf"], ["-inf", 1])]),
    "rule": (_rule, [[s, n] for s in SH for n in (2, 3)]),
    "kronrod": (_kron_rule, [[4], [10], [7]]),
    "vandermonde": (_vandermonde, [[s, n] for s in SH for n in (1, 2)]),
    "multi_vandermonde": (_multi, [[s, n] for s in SH[:3] for n in (1, 2)]),
    "resampling": (_resample, [[s, n] for s in SH for n in (1, 2)]),
    "differentiation": (_diff, [[s, n] for s in SH[:3] for n in (1, 2)]),
    "forms": (_forms, [[s, n] for s in SH[:3] for n in (1, 2)]),
    "product_basis": (_product, [[a, b, k] for a, b, k in ((1, 1, 4), (2, 1, 7),
                                                          (1, 2, 3))]),
    "transplanted": (_transplant, [[3, 1.4], [4, 1.4], [3, 1.2]]),
    "construction": (_construct, [[2], [3]]),
}
_PLAIN: dict = {}


def outer(name, p, hook):
    out = []
    observe(OUTER[name][0](hook, *p), out, [])
    return out


def plain(name, p):
    key = (name, str(p))
    if key not in _PLAIN:
        kind, val = in_child(lambda: outer(name, p, lambda: None))
        if kind != "ok":
            fail(f"{name}{tuple(p)} fails: {val}")
        _PLAIN[key] = val
    return _PLAIN[key]


def nested(case, expected, inner):
    calls = [0]
    depth = [0]

    def hook():
        i = calls[0]
        calls[0] += 1
        if depth[0] or i not in (case["at"] or (0, 1, 2, 5, 20, 50, 100)):
            return
        depth[0] += 1
        what, name, p = case["inner"][i % len(case["inner"])]
        if what == "outer":
            out = outer(name, p, lambda: None)
        else:
            out = []
            observe(call(Ctx(False), name, p), out, [])
        depth[0] -= 1
        same(out, inner[i % len(inner)], f"{name}{tuple(p)} called by a function given"
             f" to {case['outer']}")
    try:
        r = outer(*case["outer"], hook)
    except Violation:
        raise
    except Exception as e:
        fail(f"{case['outer']} raises {type(e).__name__} when the function given to it"
             f" calls {case['inner']}: {e}\n{traceback.format_exc()[-1500:]}")
    same(r, expected, f"{case['outer']}, given a function that calls {case['inner']}")


def run_nested(case):
    expected = plain(*case["outer"])
    inner = [plain(n, p) if w == "outer" else model(n, p) for w, n, p in case["inner"]]
    kind, val = in_child(lambda: nested(case, expected, inner))
    if kind == "violation":
        fail(val)
    if kind == "exc":
        raise RuntimeError(val)


def _nest_pairs(tier):
    for name, (_, ps) in OUTER.items():
        for i, p in enumerate(ps):
            for j in range(len(ps)):
                if i != j:
                    yield {"outer": [name, p], "inner": [["outer", name, ps[j]]],
                           "at": []}


@st.composite
def nests(draw):
    o = draw(st.sampled_from(sorted(OUTER)))

    def inner():
        if draw(st.booleans()):
            n = draw(st.sampled_from(sorted(OUTER)))
            return ["outer", n, draw(st.sampled_from(OUTER[n][1]))]
        n = draw(st.sampled_from(sorted(ALL_STEPS)))
        return ["op", n, draw(st.sampled_from(ALL_STEPS[n]))]
    return {"outer": [o, draw(st.sampled_from(OUTER[o][1]))],
            "inner": [inner() for _ in range(draw(st.integers(1, 2)))],
            "at": draw(st.lists(st.integers(0, 5) | st.integers(0, 150), max_size=2,
                                unique=True))}

# }}}


RULE = "two or more calls at the same time"
SUBS = [
    Sub("pairs", run, cases=pairs, shards=4, nontrivial=_nt, classify=_classify,
        rule=RULE),
    Sub("schedules", run, schedules(), quick=150, thorough=8000, shards=4,
        nontrivial=_nt, classify=_classify, rule=RULE),
    Sub("preempted", run_preempted, cases=preemptions, shards=8,
        classify=lambda c: [c["line"].split(":")[0]],
        rule="a call is suspended while another one is made"),
    Sub("nested_pairs", run_nested, cases=_nest_pairs, shards=2,
        rule="the function given to a call makes the same kind of call with other"
        " arguments"),
    Sub("nested", run_nested, nests(), quick=150, thorough=6000, shards=2,
        classify=lambda c: [c["outer"][0]],
        rule="the function given to a call calls the library itself"),
]
