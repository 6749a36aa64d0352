"""C20: reset removes all generated hints, only those, and the tool works on."""
import collections
import os
import shutil
import warnings

from vlib import history, live
from vlib.runner import CaseInfo, Violation

PROP = "C20"
LEVEL = "exploration"
RULE = ("each case: a history of live calls on a private installation, generated files partly deleted at random, then reset() (class or instance, old or new, once or repeatedly): all directories must be as freshly "
        "installed; then calls by old and new instances must leave the same files as on a fresh installation. Non-trivial: some file existed before; distinct by the history and damage.")
ASSUMPTIONS = ["no files of the user are put into the directory of generated modules", "calls do not overlap in time"]


def cases(tier):
    return 1600 if tier == "quick" else 50000


def added(w, pristine):
    return {k: v for k, v in snapshot(w).items() if k not in pristine or pristine[k] != v}


def damage(w, r, pristine):
    """Delete some of the generated files, as a user or an earlier interruption could have."""
    new = sorted(added(w, pristine))
    kind = r.choice(["none", "none", "stub", "modules", "all modules", "one", "caches", "everything", "empty stub dir", "whole directory", "anything"])
    files = [k for k in new if (w.root / k).is_file()]
    if kind == "stub":
        gone = [k for k in files if k.endswith(".pyi")]
    elif kind == "modules":
        gone = [k for k in files if not k.endswith(".pyi") and r.random() < .5]
    elif kind == "all modules":
        gone = [k for k in files if not k.endswith(".pyi")]
    elif kind == "one":
        gone = [r.choice(files)] if files else []
    elif kind == "everything":
        gone = files
    elif kind == "anything":
        gone = [k for k in files if r.random() < .5]
    else:
        gone = []
    for k in gone:
        (w.root / k).unlink()
    if kind == "whole directory":
        for k in new:
            if k in pristine or not (w.root / k).is_dir():
                continue
            shutil.rmtree(w.root / k)
    if kind in ("everything", "empty stub dir", "anything") and r.random() < .6:
        for k in sorted(new, reverse=True):
            p = w.root / k
            if p.is_dir() and not os.listdir(p):
                p.rmdir()
    if kind == "caches":  # those of a Python that imported the modules
        for k in files:
            if not k.endswith(".pyi"):
                p = (w.root / k).parent / "__pycache__"
                p.mkdir(exist_ok=True)
                (p / ((w.root / k).stem + ".cpython-312.pyc")).write_bytes(b"x")
    return kind, len(gone), bool(files)


def neighbours(w, r):
    """Files of others near the tool."""
    for n in r.sample(["other.pyi", "notes.txt", "build.txt", "lazy_type_hint_live.py.bak", "my_build/x.py", "../mine.py"], r.randint(0, 3)):
        p = w.stub.parent / n
        p.parent.mkdir(exist_ok=True)
        p.write_text("mine\n")


def snapshot(w):
    """All files, caches of the interpreter for the package itself aside."""
    out = {}
    for d, dirs, files in os.walk(w.root):
        for n in dirs:
            p = os.path.relpath(os.path.join(d, n), w.root)
            if n != "__pycache__":
                out[p] = None
        for n in files:
            p = os.path.relpath(os.path.join(d, n), w.root)
            if not n.endswith(".pyc"):
                with open(os.path.join(d, n), "rb") as f:
                    out[p] = f.read()
    return out


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    w = live.world(cx)
    counts = collections.Counter()
    neighbours(w, r)
    pristine = snapshot(w)
    h = history.History(w, r, cx, modes=("overwrite", "validate"), reset=.05, restart=.08)
    for _ in range(r.choice([0, 1, 2, 4, 7])):
        h.do(h.choose())
    if not h.tools:
        h.new_tool()
    for round_ in range(r.choice([1, 1, 2])):
        what = damage(w, r, pristine)
        counts["damage_" + what[0].replace(" ", "_")] += 1
        counts["files_removed_before"] += what[1]
        had = snapshot(w) != pristine
        for k in range(r.choice([1, 1, 2, 3])):
            how = r.choice(["class", "instance", "new instance"])
            try:
                if how == "class":
                    w.reset()
                elif how == "instance":
                    r.choice(h.tools)[1].reset()
                else:
                    w.tool().reset()
            except Exception as e:  # noqa: BLE001
                raise Violation(f"reset fails: {type(e).__name__}: {e}", history=h.log, damage=what, how=how) from None
            counts["resets"] += 1
            now = snapshot(w)
            if now != pristine:
                raise Violation("after a reset the files are not those of a fresh installation", history=h.log, damage=what, added=sorted(set(now) - set(pristine)), missing=sorted(set(pristine) - set(now)),
                                changed=[x for x in now if x in pristine and now[x] != pristine[x]])
            if (w.stub.parent / "build").exists():
                counts["build_left"] += 1
        h.expected.clear()
        h.stored.clear()
        h.log.append(history.Op("damage and reset", mode=what[0]))
        marker = len(h.log)
        # what a fresh installation makes of the same calls
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            op = h.choose()
            if op.kind in ("call", "yaml"):
                h.do(op)
                w.check_registry(h.expected, history=h.log)
                counts["calls_after_reset"] += 1
                counts["calls_after_reset_by_old_instances"] += op.born < marker
                ops.append(op)
        used = added(w, pristine)
        outcomes = [type(o.error).__name__ for o in ops]
        fresh = live.World(cx.scratch, f"fresh_{os.getpid()}_{i}_{round_}") if i % 4 == 0 else None
        if fresh is not None:
            fresh.restart()
            tools = {}
            got = []
            for o in ops:
                t = tools.setdefault(o.instance, fresh.tool(o.strategies, o.mode))
                again = history.Op(o.kind, **{k: v for k, v in o.__dict__.items() if k not in ("kind", "error", "want", "known")})
                again.tool = t
                h2 = history.History.__new__(history.History)
                h2.__dict__.update(w=fresh, r=r, cx=cx, log=[], counts=collections.Counter(), expected={}, stored={}, tools=[])
                h2.expected = {x.name: x.want for x in ops[: ops.index(o)] if x.error is None}
                h2.do(again)
                got.append(type(again.error).__name__)
            files = fresh.new_files()
            live.shutil.rmtree(fresh.root)
            w.restart()
            if got != outcomes:
                raise Violation(f"after a reset, calls end with {outcomes}, but on a fresh installation with {got}", history=h.log)
            if used != files:
                raise Violation("after a reset, calls leave other files than on a fresh installation", history=h.log, after_reset=used, fresh=files)
            counts["compared_with_fresh_installation"] += 1
        counts["resets_with_something_to_remove"] += had
    return CaseInfo(repr(h.log), counts["resets_with_something_to_remove"] > 0, dict(counts), sample=h.log[:4])


def required(tier):
    return {"resets": 1500, "resets_with_something_to_remove": 600, "calls_after_reset": 1200, "calls_after_reset_by_old_instances": 500, "compared_with_fresh_installation": 150, "files_removed_before": 500}
