"""Runs the cases of one check over worker processes, aggregates what the monitors saw,
writes evidence, and turns the outcome into the exit code.

A check module defines
    PROP, LEVEL, RULE, ASSUMPTIONS (optional)
    cases(tier) -> int                     number of generated cases
    run_case(i, rng, cx) -> CaseInfo|None  raises Violation; None = case not applicable
    directed(cx) -> iterable of (name, callable)   optional fixed cases
    known(cx) -> iterable of (name, description, callable returning True while the defect is there)
    required(tier) -> {counter: minimum}   monitors that must have been reached
"""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPLAYS = VERIF / "replays"


class Violation(Exception):
    """The monitored property does not hold on this execution."""

    def __init__(self, reason: str, **detail: object) -> None:
        super().__init__(reason)
        self.reason = reason
        self.detail = detail


class Inconclusive(Exception):
    pass


class HangSuspected(BaseException):
    pass


class StepLimit(BaseException):
    pass


class CaseInfo:
    __slots__ = ("key", "nontrivial", "counts", "sample", "evals")

    def __init__(self, key, nontrivial=True, counts=None, sample=None, evals=1):
        self.key = key
        self.nontrivial = nontrivial
        self.counts = counts or {}
        self.sample = sample
        self.evals = evals


class Context:
    def __init__(self, scratch, seed, tier):
        self.scratch = scratch
        self.seed = seed
        self.tier = tier

    def rng(self, prop, i):
        return random.Random(f"{self.seed}:{prop}:{i}")


HANG_S = 25
STEP_LIMIT = 40_000_000


def _alarm(signum, frame):
    raise HangSuspected()


def guarded(fn, limit=HANG_S):
    """Run fn under a watchdog; a suspected hang is decided by counting executed lines."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn()
    except HangSuspected:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    steps = 0

    def tracer(frame, event, arg):
        nonlocal steps
        steps += 1
        if steps > STEP_LIMIT:
            raise StepLimit()
        return tracer

    signal.setitimer(signal.ITIMER_REAL, limit * 8)
    sys.settrace(tracer)
    try:
        return fn()
    except StepLimit:
        raise Violation(f"does not finish within {STEP_LIMIT} executed lines") from None
    except HangSuspected:
        raise Inconclusive("watchdog fired twice") from None
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)


def safe_repr(x):
    """The repr of x.  That of a Series or a DataFrame with empty containers raises in some versions of pandas."""
    try:
        return repr(x)
    except Exception:  # noqa: BLE001
        pass
    if isinstance(x, dict):
        return "{" + ", ".join(f"{safe_repr(k)}: {safe_repr(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple, set, frozenset)):
        return type(x).__name__ + "(" + ", ".join(map(safe_repr, x)) + ")"
    if hasattr(x, "to_dict") and hasattr(x, "index"):
        return f"{type(x).__name__}({safe_repr([list(row) if hasattr(row, '__len__') and not isinstance(row, str) else row for row in x.values.tolist()])})"
    return object.__repr__(x)


def clip(x, n=4000):
    s = x if isinstance(x, str) else safe_repr(x)
    return s if len(s) <= n else s[:n] + f"...[{len(s)} chars]"


def _run_one(name, fn, limit=HANG_S):
    try:
        return "ok", guarded(fn, limit)
    except Violation as v:
        return "violation", {"case": name, "reason": v.reason, "detail": {k: clip(d) for k, d in v.detail.items()}}
    except Inconclusive as e:
        return "inconclusive", f"{name}: {e}"
    except MemoryError:
        return "violation", {"case": name, "reason": "runs out of memory (4 GB)", "detail": {}}
    except Exception:  # noqa: BLE001  a fault of the check itself
        return "error", f"{name}: {traceback.format_exc()}"


def _worker(mod, cx, wid, nworkers, total, deadline, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        random.seed(cx.seed * 1000 + wid)
        evals = 0
        counts: Counter = Counter()
        keys = set()
        samples = []
        bad = []
        errors = []
        inconc = []
        done = 0
        for i in range(wid, total, nworkers):
            if time.time() > deadline:
                break
            st, res = _run_one(str(i), lambda: mod.run_case(i, cx.rng(mod.PROP, i), cx))
            done += 1
            if st == "ok":
                if res is not None:
                    evals += res.evals
                    counts.update(res.counts)
                    if res.nontrivial:
                        keys.add(hash(res.key) if not isinstance(res.key, str) else res.key)
                    if res.sample is not None and len(samples) < 1:
                        samples.append(clip(res.sample, 1500))
            elif st == "violation":
                bad.append(res)
                if len(bad) >= int(os.environ.get("VERIF_MAX_BAD", "3")):
                    break
            elif st == "error":
                errors.append(res)
                if len(errors) >= 3:
                    break
            else:
                inconc.append(res)
        q.put((wid, dict(evals=evals, counts=dict(counts), keys=list(keys), samples=samples, bad=bad, errors=errors, inconc=inconc, done=done)))
    except BaseException:  # noqa: BLE001
        q.put((wid, dict(evals=0, counts={}, keys=[], samples=[], bad=[], errors=[traceback.format_exc()], inconc=[], done=0)))


def run(modname: str) -> int:
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from vlib.scratch import Scratch

    scratch = Scratch()
    scratch.activate()
    os.chdir(scratch.tmp)
    mod = importlib.import_module(f"checks.{modname}")
    cx = Context(scratch, seed, tier)
    prop = mod.PROP
    REPLAYS.mkdir(exist_ok=True)
    evals = 0
    counts: Counter = Counter()
    keys: set = set()
    samples: list = []
    bad: list = []
    errors: list = []
    inconc: list = []

    only = os.environ.get("VERIF_ONLY_CASE")
    if only is not None:
        targets = dict(getattr(mod, "directed", lambda c: ())(cx))
        fn = targets.get(only) or (lambda: mod.run_case(int(only), cx.rng(prop, int(only)), cx))
        st, res = _run_one(only, fn)
        print(st)
        if st == "violation":
            print(json.dumps(res, indent=1))
            print(f"VIOLATION property={prop} replay={os.environ.get('VERIF_REPLAY_FILE', only)}")
            return 1
        print(res if st != "ok" else (res and (res.counts, res.sample)))
        return 0 if st == "ok" else 2

    if hasattr(mod, "prepare"):
        mod.prepare(cx)
    # known findings first: they are specific inputs, each with its own line
    known_lines = []
    for name, text, fn in getattr(mod, "known", lambda c: ())(cx):
        try:
            present = guarded(fn)
        except Exception as e:  # noqa: BLE001
            errors.append(f"known finding {name}: {e!r}")
            continue
        counts[f"known_finding_{name}_{'present' if present else 'absent'}"] += 1
        if present:
            known_lines.append(f"KNOWN-FINDING: property={prop} {name}: {text}")
    for name, fn in getattr(mod, "directed", lambda c: ())(cx):
        t1 = time.time()
        st, res = _run_one(name, fn, 150)  # (they consist of many evaluations)
        if os.environ.get("VERIF_TIMES") and time.time() - t1 > 1:
            print(f"# directed {name}: {time.time() - t1:.1f} s", file=sys.stderr)
        evals += 1
        if st == "ok":
            counts["directed_cases"] += 1
            keys.add("directed:" + name)
            if res is not None:
                counts.update(res.counts)
        elif st == "violation":
            bad.append(res)
        elif st == "error":
            errors.append(res)
        else:
            inconc.append(res)

    total = mod.cases(tier)
    budget = float(os.environ.get("VERIF_BUDGET_S", 420 if tier == "quick" else 3000))
    done = 0
    if total and not errors:
        nworkers = min(int(os.environ.get("VERIF_WORKERS", getattr(mod, "WORKERS", 8))), total)
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        deadline = time.time() + budget
        procs = [ctx.Process(target=_worker, args=(mod, cx, w, nworkers, total, deadline, q)) for w in range(nworkers)]
        for pr in procs:
            pr.start()
        got = {}
        hard = deadline + 300
        while len(got) < nworkers and time.time() < hard:
            try:
                wid, r = q.get(timeout=2)
                got[wid] = r
            except Exception:  # noqa: BLE001
                for w, pr in enumerate(procs):
                    if w not in got and not pr.is_alive() and q.empty():
                        got[w] = None
        for w, pr in enumerate(procs):
            if pr.is_alive() and w not in got:
                pr.kill()
            pr.join(5)
        for w in range(nworkers):
            r = got.get(w)
            if r is None:
                inconc.append(f"worker {w} gave no result (exit code {procs[w].exitcode})")
                continue
            evals += r["evals"]
            counts.update(r["counts"])
            keys.update(r["keys"])
            samples.extend(r["samples"])
            bad.extend(r["bad"])
            errors.extend(r["errors"])
            inconc.extend(r["inconc"])
            done += r["done"]
    if hasattr(mod, "finish"):
        st, res = _run_one("finish", lambda: mod.finish(cx, counts), 150)
        if st == "violation":
            bad.append(res)
        elif st == "error":
            errors.append(res)
        elif st == "inconclusive":
            inconc.append(res)

    missing = {k: (counts.get(k, 0), v) for k, v in getattr(mod, "required", lambda t: {})(tier).items() if counts.get(k, 0) < v}
    if total and done < max(1, total // 10) and not bad:
        missing["cases"] = (done, total // 10)
    known_n = len(known_lines)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:3] or ["(directed cases only)"],
            "observed": dict(sorted(counts.items())),
            "cases_planned": total,
            "cases_run": done,
            "known_findings_present": known_n,
            "inconclusive": inconc[:5],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
    for line in known_lines:
        print(line)
    if bad:
        seen = set()
        for b in bad[:20]:
            f = REPLAYS / f"{prop}-{tier}-{seed}-{b['case']}.json"
            f.write_text(json.dumps({"property": prop, "check": modname, "seed": seed, "tier": tier, **b}, indent=1, default=str))
            if f.name not in seen:
                seen.add(f.name)
                print(f"# {clip(b['reason'], 300)}")
                print(f"VIOLATION property={prop} replay={f}")
        return 1
    if errors or missing or inconc and done < total:
        for e in errors[:3]:
            print("ERROR of the check:", e, file=sys.stderr)
        if missing:
            print("INCONCLUSIVE: not reached often enough (seen, needed):", missing, file=sys.stderr)
        for e in inconc[:3]:
            print("INCONCLUSIVE:", e, file=sys.stderr)
        return 2
    print(f"OK property={prop} evaluations={evals} distinct={len(keys)} wall={evidence['wall_s']}s")
    return 0
