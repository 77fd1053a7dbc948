"""C30: abandoned calls.  A call of the library is ended early, by an exception out of a
user's function, by an interrupt or lack of memory at a generated line of the library, or
because the request is invalid.  The exception reaches the caller, arguments and process
state are as before, and all later calls give what they give in a pristine process."""
from __future__ import annotations

import ast
import os
import pickle
import sys
import traceback
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c26, c28
from checks.c27 import ALL_STEPS, Ctx, call, in_child, model, observe, same
from checks.c28 import OUTER, lines_of, outer, plain
from modepy.quadrature import QuadratureRuleUnavailable
from vlib.core import Inconclusive, Sub, Trivial, Violation
from vlib.util import fail, need


ID = "C30"
SCALE = 2
ASSUMPTIONS = [
    "a call is abandoned at the boundary of a Python line of modepy (but not on the way in"
    " or out of a with or try statement, or in a finally block, where Python guarantees"
    " nothing), or where it calls a function of the user",
    "modepy itself may handle a lack of memory, but not an interrupt or an exception that"
    " it does not know",
]

CUTS = {"interrupt": KeyboardInterrupt, "memory": MemoryError}


class Boom(Exception):
    """what a user's function raises"""


class BoomBase(BaseException):
    """what a user's function raises to end the program"""


class Unavailable(QuadratureRuleUnavailable):
    """what modepy raises for a rule that it does not have"""


# (not StopIteration: Python itself replaces it when it comes out of a generator)
EXC = {e.__name__: e for e in (
    Boom, BoomBase, Unavailable, KeyboardInterrupt, AttributeError, TypeError, ValueError,
    KeyError, IndexError, NotImplementedError, RuntimeError, ZeroDivisionError,
    FloatingPointError, AssertionError, ImportError, MemoryError, np.linalg.LinAlgError)}


_KEPT: dict = {}


def no_cut(file):
    """Lines where Python itself does not guarantee the clean-up: headers of with (also
    visited on the way out) and try statements (between set-up and try), finally blocks,
    methods that clean up."""
    if file not in _KEPT:
        out = set()
        with open(file) as fh:
            tree = ast.parse(fh.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out |= {*range(n.lineno, n.body[0].lineno)} | {n.lineno}
            elif isinstance(n, ast.Try):
                out.add(n.lineno)
                for k in n.finalbody:
                    out |= {*range(k.lineno, k.end_lineno + 1)}
            elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__"):
                out |= {*range(n.lineno, n.end_lineno + 1)}
        _KEPT[file] = out
    return _KEPT[file]


def cut_short(f, at, exc):
    """f(), abandoned by *exc* before the line of modepy numbered *at*, or the next one
    where this is possible; returns whether it was, and the exception that came out
    (None if it returned)"""
    count, hit = [0], []

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] >= at and not hit and \
                    frame.f_lineno not in no_cut(frame.f_code.co_filename):
                hit.append(1)
                raise exc("cut")
        return local

    def enter(frame, event, arg):
        code = frame.f_code
        return local if (code.co_filename.startswith(c28.PKG)
                         and code.co_name != "<module>") else None
    sys.settrace(enter)
    try:
        f()
    except (Exception, KeyboardInterrupt) as e:
        out = e
    else:
        out = None
    finally:
        sys.settrace(None)
    return bool(hit), out


class State:
    """what belongs to the process and not to the library"""

    def __init__(self):
        self.err, self.call = np.geterr(), np.geterrcall()
        self.rnd = np.random.get_state()  # noqa: NPY002
        self.filters = list(warnings.filters)
        self.prt = np.get_printoptions()
        self.cwd, self.env, self.rec = os.getcwd(), dict(os.environ), sys.getrecursionlimit()

    def check(self, what):
        need(self.err == np.geterr() and self.call is np.geterrcall(),
             f"{what} leaves the floating point error handling changed:"
             f" {np.geterr()}, before {self.err}")
        new = np.random.get_state()  # noqa: NPY002
        need(self.rnd[2] == new[2] and np.array_equal(self.rnd[1], new[1]),
             f"{what} changes the global random state")
        need(list(warnings.filters) == self.filters,
             f"{what} leaves the warning filters changed")
        need(np.get_printoptions() == self.prt, f"{what} leaves print options changed")
        need(os.getcwd() == self.cwd and dict(os.environ) == self.env
             and sys.getrecursionlimit() == self.rec,
             f"{what} leaves the process state changed")


def compare(ctx, name, p, expected, what):
    try:
        r = call(ctx, name, p)
    except Violation:
        raise
    except Exception as e:
        fail(f"{what}: {name}{tuple(p)} works in a pristine process, but now raises"
             f" {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    out = []
    observe(r, out, [])
    same(out, expected, f"{what}: {name}{tuple(p)}")


def unchanged(ctx, what):
    for key, a, orig in ctx.watched:
        need(pickle.dumps(a) == orig, f"{what}: argument {key} was modified")


def in_time(f):
    kind, val = in_child(f)
    if kind == "violation":
        fail(val)
    if kind == "exc":
        raise RuntimeError(val)
    return val


# {{{ every line

def interrupted(case, expected, other):
    ctx = Ctx(True)
    state = State()
    name, p = case["call"]
    hit, e = cut_short(lambda: call(ctx, name, p), case["at"], CUTS[case["exc"]])
    what = f"after {name}{tuple(p)}, abandoned at {case['line']}"
    state.check(what)
    unchanged(ctx, what)
    if hit and case["exc"] == "interrupt":
        need(isinstance(e, KeyboardInterrupt),
             f"{what}: the interrupt is swallowed ({e!r})")
    compare(ctx, name, p, expected, what)
    compare(ctx, *case["other"], other, what)
    compare(Ctx(False), name, p, expected, what)
    unchanged(ctx, what)
    state.check(what)
    return hit


def run_interrupted(case):
    expected, other = model(*case["call"]), model(*case["other"])
    if not in_time(lambda: interrupted(case, expected, other)):
        raise Trivial
    return [case["line"].split(":")[0], case["exc"]]


def interruptions(tier):
    """for every line of the library that the catalogue reaches: a call abandoned there
    (the first and the last time), then the same call and one with other arguments"""
    often = 1 if tier == "quick" else 6
    used: dict = {}
    for name in sorted(ALL_STEPS):
        ps = ALL_STEPS[name]
        for i, p in enumerate(ps):
            first, last = {}, {}
            for k, w in enumerate(lines_of(name, p), 1):
                first.setdefault(w, k)
                last[w] = k
            for w in sorted(first):
                if used.get(w, 0) >= often:
                    continue
                used[w] = used.get(w, 0) + 1
                for k in sorted({first[w], last[w]}):
                    yield {"call": [name, p], "other": [name, ps[(i + 1) % len(ps)]],
                           "at": k, "line": f"{w[0]}:{w[1]}",
                           "exc": "interrupt" if (k + i) % 3 else "memory"}

# }}}


# {{{ exceptions out of user functions

def raising(case, expected, other):
    name, p = case["outer"]
    state = State()
    calls = [0]
    exc = EXC[case["exc"]]("of the user")

    def hook():
        i = calls[0]
        calls[0] += 1
        if i == case["at"]:
            raise exc
    what = f"{name}{tuple(p)} with a function that raises {case['exc']} at its call {case['at']}"
    try:
        outer(name, p, hook)
    except (Exception, KeyboardInterrupt, BoomBase) as e:
        if e is not exc:
            fail(f"{what}: the caller gets {type(e).__name__}: {e}"
                 f"\n{traceback.format_exc()[-1500:]}")
    else:
        need(calls[0] <= case["at"], f"{what}: the exception is swallowed")
    state.check(what)
    for (n, q), exp in ((case["outer"], expected), (case["other"], other),
                        (case["outer"], expected)):
        try:
            r = outer(n, q, lambda: None)
        except Violation:
            raise
        except Exception as e:
            fail(f"after {what}, {n}{tuple(q)} fails with {type(e).__name__}: {e}"
                 f"\n{traceback.format_exc()[-1500:]}")
        same(r, exp, f"after {what}: {n}{tuple(q)}")
    state.check(what)
    return calls[0] > case["at"]


def at_each(case, expected):
    """the exception at every one of the first calls of the function in turn"""
    name, p = case["outer"]
    state = State()
    exc = EXC[case["exc"]]("of the user")
    for at in range(48 if name != "quadgk" else 36):
        n = [0]

        def hook():
            n[0] += 1
            if n[0] > at and (n[0] == at + 1 or case["stays"]):
                raise exc
        what = (f"{name}{tuple(p)} with a function that raises {case['exc']} at its call "
                f"{at}{' and later' if case['stays'] else ''}")
        try:
            outer(name, p, hook)
        except (Exception, KeyboardInterrupt, BoomBase) as e:
            if e is not exc:
                fail(f"{what}: the caller gets {type(e).__name__}: {e}"
                     f"\n{traceback.format_exc()[-1500:]}")
        else:
            need(n[0] <= at, f"{what}: the exception is swallowed")
            break
    state.check(name)
    same(outer(name, p, lambda: None), expected, f"after {what}")
    return at > 0


def run_each(case):
    expected = plain(*case["outer"])
    if not in_time(lambda: at_each(case, expected)):
        raise Trivial
    return [case["outer"][0]]


def each_all(tier):
    for name, (_, ps) in OUTER.items():
        for i, p in enumerate(ps):
            for j, exc in enumerate(sorted(EXC)):
                for stays in ([(i + j) % 2 == 0] if tier == "quick" else [False, True]):
                    yield {"outer": [name, p], "exc": exc, "stays": stays}


def run_raising(case):
    expected, other = plain(*case["outer"]), plain(*case["other"])
    if not in_time(lambda: raising(case, expected, other)):
        raise Trivial
    return [case["outer"][0]]


def raises_all(tier):
    for name, (_, ps) in OUTER.items():
        for i, p in enumerate(ps):
            for j, exc in enumerate(sorted(EXC)):
                for at in ((0, (3, 1, 20)[(i + j) % 3]) if tier == "quick" else
                           (*range(8), 20, 40)):
                    yield {"outer": [name, p], "other": [name, ps[(i + 1) % len(ps)]],
                           "at": at, "exc": exc}

# }}}


# {{{ histories

INVALID = {s.name: s for s in c26.SUBS if s.strategy is not None}


@st.composite
def histories(draw):
    names = draw(st.lists(st.sampled_from(sorted(ALL_STEPS)), min_size=1, max_size=4,
                          unique=True))
    op = st.sampled_from(names).flatmap(
        lambda nm: st.tuples(st.just(nm), st.sampled_from(ALL_STEPS[nm])).map(list))
    steps = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(["call", "cut", "cut", "raise", "invalid"]))
        if k == "call":
            steps.append([k, draw(op)])
        elif k == "cut":
            steps.append([k, draw(op), draw(st.floats(0, 1)),
                          draw(st.sampled_from(sorted(CUTS)))])
        elif k == "raise":
            o = draw(st.sampled_from(sorted(OUTER)))
            steps.append([k, [o, draw(st.sampled_from(OUTER[o][1]))],
                          draw(st.integers(0, 4) | st.integers(0, 60))])
        else:
            s = draw(st.sampled_from(sorted(INVALID)))
            steps.append([k, s, draw(INVALID[s].strategy)])
    return {"steps": steps, "shared": draw(st.booleans())}


def history(case, expected, lengths, outers):
    ctx = Ctx(case["shared"])
    state = State()
    done = []
    cut = 0
    for i, step in enumerate(case["steps"]):
        if step[0] == "call":
            compare(ctx, *step[1], expected[i], f"after {done}")
        elif step[0] == "cut":
            at = 1 + int(step[2]*lengths[i])
            hit, _ = cut_short(lambda: call(ctx, *step[1]), at, CUTS[step[3]])
            cut += hit
        elif step[0] == "raise":
            n = [0]

            def hook():
                n[0] += 1
                if n[0] > step[2]:
                    raise Boom
            try:
                outer(*step[1], hook)
            except Boom:
                cut += 1
        else:
            try:
                INVALID[step[1]].run(step[2])
            except (Exception, Trivial, Inconclusive):
                pass        # (judged by C26)
            cut += 1
        done.append(step[0] if step[0] == "invalid" else f"{step[0]} {step[1]}")
        unchanged(ctx, f"after {done}")
        state.check(f"after {done}: the last one")
    # everything once more
    for i, step in enumerate(case["steps"]):
        if step[0] in ("call", "cut"):
            compare(ctx, *step[1], expected[i], f"after {done}")
        elif step[0] == "raise":
            same(outer(*step[1], lambda: None), outers[i], f"after {done}: {step[1]}")
    return cut


_LEN: dict = {}


def length(name, p):
    key = (name, str(p))
    if key not in _LEN:
        _LEN[key] = len(lines_of(name, p))
    return _LEN[key]


def run_history(case):
    steps = case["steps"]
    expected = [model(*s[1]) if s[0] in ("call", "cut") else None for s in steps]
    lengths = [length(*s[1]) if s[0] == "cut" else 0 for s in steps]
    outers = [plain(*s[1]) if s[0] == "raise" else None for s in steps]
    if not in_time(lambda: history(case, expected, lengths, outers)):
        raise Trivial
    return sorted({s[0] for s in steps})

# }}}


SUBS = [
    Sub("interrupted", run_interrupted, cases=interruptions, shards=8,
        rule="the call is abandoned"),
    Sub("raising", run_raising, cases=raises_all, shards=2,
        rule="the function of the user raises"),
    Sub("raising_each", run_each, cases=each_all, shards=4,
        rule="the function of the user raises at each of its first calls in turn"),
    Sub("histories", run_history, histories(), quick=150, thorough=6000, shards=4,
        rule="some call of the history is abandoned"),
]
