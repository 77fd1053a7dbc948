"""Framework: sub-checks, generation, violation policy, replay, evidence.

A *check* module (``checks/cXX.py``) defines ``ID``, ``SUBS`` (list of
:class:`Sub`) and optionally ``ASSUMPTIONS``.  A :class:`Sub` is one executable
property: a generator of plain JSON cases (a Hypothesis strategy, or a finite
enumeration) and a function ``run(case)`` which raises :class:`Violation` when
the property fails on that case.
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from collections.abc import Callable, Iterable
from dataclasses import dataclass, field
from typing import Any


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# development aid (tools/mutate.py): report the first violation, unshrunk
QUICK_FAIL = bool(os.environ.get("VERIF_QUICK_FAIL"))

#: a single case that runs longer than this does not terminate (cases are sized to take
#: milliseconds, at most a few seconds)
CASE_TIMEOUT_S = 150


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Inconclusive(BaseException):
    """A case did not finish (time-out)."""


class Trivial(Exception):
    """Raised by ``run`` to say that a case turned out not to exercise anything."""


@dataclass
class Sub:
    name: str
    run: Callable[[dict], Any]
    #: strategy (Hypothesis) *or* enumeration
    strategy: Any = None
    cases: Callable[[str], Iterable[dict]] | None = None
    quick: int = 200
    thorough: int | None = None
    shards: int = 1
    thorough_shards: int | None = None
    #: stated rule for non-triviality
    nontrivial: Callable[[dict], bool] = lambda case: True
    rule: str = ""
    #: optional classification of cases into tags
    classify: Callable[[dict], Iterable[str]] | None = None

    def budget(self, tier: str) -> int:
        if tier == "quick":
            scale = getattr(sys.modules[self.run.__module__], "SCALE", 1)
            return int(self.quick * scale)
        return self.thorough if self.thorough is not None else self.quick * 20

    def nshards(self, tier: str) -> int:
        if tier == "quick":
            scale = getattr(sys.modules[self.run.__module__], "SCALE", 1)
            if scale > 1 and self.cases is None:
                return min(8, 2 * self.shards)
            return self.shards
        return self.thorough_shards or max(self.shards, 8)


def canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case: Any) -> str:
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def _has_repo_frame(exc: BaseException) -> str | None:
    root = os.path.join(REPO, "modepy") + os.sep
    hit = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(fr.filename).startswith(root):
            hit = f"{os.path.relpath(fr.filename, REPO)}:{fr.lineno} in {fr.name}"
    return hit


def _alarm(signum, frame):
    raise Inconclusive(f"no answer after {CASE_TIMEOUT_S} s")


def run_case(sub: Sub, case: dict) -> None:
    """Run one case; anything wrong ends up as Violation with an explanation."""
    case = json.loads(canon(case))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.run(case)
    except (Violation, Trivial):
        raise
    except (MemoryError, ImportError, Inconclusive, KeyboardInterrupt):
        raise
    except Exception as e:
        # hypothesis control flow exceptions must pass
        if type(e).__module__.startswith("hypothesis"):
            raise
        where = _has_repo_frame(e)
        tb = "".join(traceback.format_exception(e)[-6:])
        if where:
            raise Violation(
                f"{type(e).__name__}: {e} [raised at {where}] on an input in the"
                f" documented domain\n{tb}") from e
        raise Violation(
            f"the oracle could not use what the library returned:"
            f" {type(e).__name__}: {e}\n{tb}") from e
    finally:
        signal.alarm(0)


# {{{ workers

@dataclass
class Result:
    sub: str
    shard: int
    evaluations: int = 0
    hashes: set = field(default_factory=set)
    trivial: int = 0
    tags: Counter = field(default_factory=Counter)
    samples: list = field(default_factory=list)
    violation: dict | None = None
    error: str | None = None
    wall: float = 0.0
    exhaustive: bool = False


def _note(res: Result, sub: Sub, case: dict, trivial: bool) -> None:
    res.evaluations += 1
    if sub.classify is not None:
        for t in sub.classify(case):
            res.tags[t] += 1
    if trivial or not sub.nontrivial(case):
        res.trivial += 1
        return
    h = case_hash(case)
    if h not in res.hashes:
        res.hashes.add(h)
        n = len(res.hashes)
        if n in (1, 7, 40) or (len(res.samples) < 3 and n % 50 == 0):
            res.samples.append({"sub": sub.name, "case": case})


def is_known(known: list[dict], sub: str, case: Any, message: str) -> bool:
    """Exactly this case of exactly this sub-check, failing in exactly this way."""
    return any(k["sub"] == sub and canon(k["case"]) == canon(case)
               and k.get("match", "") in message for k in known)


def _run_enum(sub: Sub, tier: str, shard: int, nshards: int, res: Result) -> None:
    assert sub.cases is not None
    res.exhaustive = True
    known = load_known(sys.modules[sub.run.__module__].ID)
    for i, case in enumerate(sub.cases(tier)):
        if i % nshards != shard:
            continue
        trivial = False
        try:
            run_case(sub, case)
        except Trivial:
            trivial = True
        except Inconclusive as e:
            res.violation = {"case": case, "message": str(e)}
            return
        except Violation as v:
            if is_known(known, sub.name, case, str(v)):
                _note(res, sub, case, False)
                continue
            _note(res, sub, case, False)
            res.violation = {"case": case, "message": str(v)}
            return
        _note(res, sub, case, trivial)


def _run_hyp(sub: Sub, tier: str, seed: int, shard: int, nshards: int,
             res: Result) -> None:
    import hypothesis
    import hypothesis.internal.conjecture.engine as eng
    from hypothesis import HealthCheck, Phase, given, settings

    eng.MAX_SHRINKING_SECONDS = 30
    n = max(1, sub.budget(tier) // nshards)
    state: dict[str, Any] = {"failing": None}
    known = load_known(sys.modules[sub.run.__module__].ID)

    def body(case):
        failing_before = state["failing"] is not None
        trivial = False
        try:
            run_case(sub, case)
        except Trivial:
            trivial = True
        except Inconclusive as e:
            state["failing"] = (case, str(e))
            raise
        except Violation as v:
            if is_known(known, sub.name, case, str(v)):
                return
            state["failing"] = (case, str(v))
            if not failing_before:
                _note(res, sub, case, False)
            raise
        if not failing_before:
            _note(res, sub, case, trivial)

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=((Phase.generate,) if QUICK_FAIL
                else (Phase.generate, Phase.shrink)),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example],
    )(test)
    s = zlib.crc32(f"{seed}/{sub.name}/{shard}".encode())
    test = hypothesis.seed(s)(test)
    try:
        test()
    except (Violation, Inconclusive):
        pass
    except hypothesis.errors.Flaky as e:
        if state["failing"] is None:
            raise
        # the same case gave two answers: behaviour depends on call history
        case, msg = state["failing"]
        state["failing"] = (case, f"answer depends on call history ({e}): {msg}")
    if state["failing"] is not None:
        case, msg = state["failing"]
        res.violation = {"case": case, "message": msg}


def _worker(args) -> Result:
    modname, subname, tier, seed, shard, nshards = args
    res = Result(sub=subname, shard=shard)
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
        sub = {s.name: s for s in mod.SUBS}[subname]
        if sub.cases is not None:
            _run_enum(sub, tier, shard, nshards, res)
        else:
            _run_hyp(sub, tier, seed, shard, nshards, res)
    except BaseException:
        res.error = traceback.format_exc()
    res.wall = time.time() - t0
    return res

# }}}


# {{{ known findings

def load_known(prop: str) -> list[dict]:
    """Lines ``known: {"property":..,"sub":..,"case":..,"what":..}``."""
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known:"):
                    d = json.loads(line[len("known:"):])
                    if d["property"] == prop:
                        out.append(d)
    return out

# }}}


def write_replay(prop: str, sub: str, viol: dict) -> str:
    d = os.path.join(HERE, "replays", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{sub}-{case_hash(viol['case'])}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": viol["case"],
                   "message": viol["message"]}, f, indent=1)
        f.write("\n")
    return path


def main(argv: list[str]) -> int:
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--replay")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--only", action="append")
    p.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument("--no-evidence", action="store_true")
    a = p.parse_args(argv)
    t0 = time.time()

    warnings.simplefilter("ignore")
    modname = f"checks.{a.prop.lower()}"
    try:
        mod = importlib.import_module(modname)
        import modepy
        expected = os.path.join(os.path.abspath(REPO), "modepy")
        if os.path.dirname(os.path.abspath(modepy.__file__)) != expected:
            print(f"ERROR: modepy imported from {modepy.__file__}")
            return 3
    except Exception:
        traceback.print_exc()
        print("ERROR: could not load the check or modepy")
        return 3

    subs = [s for s in mod.SUBS if not a.only or s.name in a.only]

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sub = {s.name: s for s in mod.SUBS}[rep["sub"]]
        try:
            run_case(sub, rep["case"])
        except (Violation, Inconclusive) as v:
            print(f"{sub.name}: {v}")
            print(f"VIOLATION property={mod.ID} replay={os.path.abspath(a.replay)}")
            return 1
        except Trivial:
            pass
        print("replay: property holds on this case")
        return 0

    tasks = []
    for s in subs:
        n = s.nshards(a.tier)
        for k in range(n):
            tasks.append((modname, s.name, a.tier, a.seed, k, n))
    # big ones first
    results: list[Result] = []
    if a.jobs <= 1:
        for t in tasks:
            results.append(_worker(t))
            if QUICK_FAIL and results[-1].violation is not None:
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(a.jobs, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_worker, tasks, chunksize=1):
                results.append(r)
    order = {s.name: i for i, s in enumerate(subs)}
    results.sort(key=lambda r: (order[r.sub], r.shard))

    # {{{ verdict

    nviol = 0
    seen = set()
    for r in results:
        if r.violation is not None:
            nviol += 1
            if r.sub in seen:
                continue
            seen.add(r.sub)
            path = write_replay(mod.ID, r.sub, r.violation)
            print(f"--- {mod.ID}/{r.sub}: {canon(r.violation['case'])[:2000]}")
            print(r.violation["message"][:4000])
            print(f"VIOLATION property={mod.ID} replay={path}")
    for k in load_known(mod.ID):
        sub = {s.name: s for s in mod.SUBS}[k["sub"]]
        try:
            run_case(sub, k["case"])
        except Violation as v:
            if k.get("match", "") in str(v):
                print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
        except Trivial:
            pass
    errors = [r for r in results if r.error]
    for r in errors:
        print(f"ERROR in {mod.ID}/{r.sub} shard {r.shard}:\n{r.error}")

    # }}}

    # {{{ evidence

    by_sub = {}
    for s in subs:
        rs = [r for r in results if r.sub == s.name]
        hashes = set().union(*(r.hashes for r in rs))
        tags = Counter()
        for r in rs:
            tags.update(r.tags)
        by_sub[s.name] = {
            "evaluations": sum(r.evaluations for r in rs),
            "distinct_nontrivial": len(hashes),
            "trivial": sum(r.trivial for r in rs),
            "enumerated_completely": all(r.exhaustive and r.violation is None
                                         and not r.error for r in rs),
            "rule": s.rule,
            "wall_s": round(sum(r.wall for r in rs), 2),
            **({"classes": dict(tags.most_common())} if tags else {}),
        }
    samples = [x for r in results for x in r.samples]
    # at most 3 per sub
    cnt: Counter = Counter()
    kept = []
    for x in samples:
        cnt[x["sub"]] += 1
        if cnt[x["sub"]] <= 3:
            kept.append(x)
    ev = {
        "property": mod.ID,
        "tier": "thorough" if a.tier == "thorough" else "quick",
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(v["evaluations"] for v in by_sub.values()),
            "distinct_nontrivial": sum(v["distinct_nontrivial"]
                                       for v in by_sub.values()),
            "rule": getattr(mod, "RULE", "") or (
                "cases are drawn by the generators of the sub-checks listed under"
                " sub_checks; distinct = different canonical JSON; non-trivial by the"
                " rule of each sub-check"),
            "samples": kept,
            "sub_checks": by_sub,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{mod.ID}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    # }}}

    for name, v in by_sub.items():
        print(f"{mod.ID}/{name}: {v['evaluations']} cases,"
              f" {v['distinct_nontrivial']} distinct non-trivial, {v['wall_s']} s")
    print(f"{mod.ID}: wall {time.time() - t0:.1f} s, violations={nviol},"
          f" errors={len(errors)}")
    if nviol:
        return 1
    if errors:
        return 3
    return 0
