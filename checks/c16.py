"""C16: reading YAML leaves no trace and calls never interfere."""
import os
import random
import tempfile
import threading
import time
from pathlib import Path

import yaml

from vlib import api, gen, live, watch, yamlgen
from vlib.runner import CaseInfo, Violation

PROP = "C16"
LEVEL = "exploration"
RULE = ("each case: either one from_yaml_file call (either tool, str or Path, loader that succeeds or raises at its first or second call) with listings of the source and temporary directories and audit events around it, "
        "or 2-6 threads that call it at once on files of the same base name in different directories (and on the same file), with delays in the loader; results are compared with those of serial calls. "
        "Non-trivial: the file has a comment in a requested position; distinct by documents and kind.")
ASSUMPTIONS = ["the loader itself only reads"]


class LoaderError(Exception):
    pass


def stat_of(d):
    return {n: (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns) for n in live.tree_listing(d) for st in [os.lstat(os.path.join(d, n))]}


def isolated_tmp(cx):
    tmp = cx.scratch.tmp / f"c16_{os.getpid()}"
    tmp.mkdir(exist_ok=True)
    os.environ["TMPDIR"] = str(tmp)
    tempfile.tempdir = None
    return tmp


def alone(cx, r, i):
    from lazy_type_hint import LazyTypeHint

    tmp = isolated_tmp(cx)
    src = cx.scratch.tmp / f"c16src_{os.getpid()}_{i}"
    src.mkdir()
    name = r.choice(["conf.yaml", "a b.yml", "é.yaml", "x.y.yaml", ".hidden.yaml", "UP.yaml", "-dash.yml", "_conf.yaml"])
    path = src / name
    k = r.random()
    text = yamlgen.hostile(r) if k < .6 else "a: 1  # c\nb:\n  c: [1]  # d\n"
    path.write_bytes(text.encode("utf-8"))
    if r.random() < .3:
        (src / ("_" + name)).write_text("neighbour: 1\n")
        (tmp / ("_" + name)).write_text("mine: 1\n")
        (tmp / name).write_text("mine: 2\n")
    if r.random() < .15:
        os.chmod(path, 0o444)
    cwd = os.getcwd()
    if r.random() < .4:
        os.chdir(src)
        arg = name if r.random() < .5 else Path(name)
        if r.random() < .3:
            arg = type(arg)("." + os.sep + name)
    else:
        arg = str(path) if r.random() < .5 else path
    kind = r.choice(["good", "good", "first", "second", "base", "empty", "arg"])
    pos = r.choice([*yamlgen.POSITIONS, "default", "default"])
    which = r.choice(["LazyTypeHint", "LazyTypeHint", "live"])
    calls = []

    def loader(p):
        calls.append(p)
        if kind == "first" and len(calls) == 1 or kind == "second" and len(calls) == 2:
            raise LoaderError("the loader fails")
        if kind == "base" and len(calls) == 2:
            raise KeyboardInterrupt
        if kind == "empty":
            return None
        with open(p, "rb") as f:
            return yaml.safe_load(f)

    before = (stat_of(src), live.tree_listing(src), live.tree_listing(tmp))
    info = dict(document=text, path=arg, comments_are=pos, loader=kind, tool=which)
    state = watch.global_state()
    outcome = "result"
    from lazy_type_hint import LazyTypeHintLive

    try:
        with watch.recording() as events:
            try:
                kw = {} if pos == "default" else {"comments_are": pos}
                tool = LazyTypeHint() if which == "LazyTypeHint" else LazyTypeHintLive()
                res = tool.from_yaml_file(loader, arg, class_name="Example", **kw)
                if which == "LazyTypeHint":
                    res.to_string()
            except LoaderError:
                outcome = "loader error"
            except KeyboardInterrupt:
                outcome = "interrupt"
            except yaml.YAMLError:
                outcome = "not YAML"
            except Exception as e:  # noqa: BLE001
                outcome = f"{type(e).__name__}: {e}"
        diff = watch.state_diff(state, watch.global_state())
    finally:
        os.chdir(cwd)
    if diff:
        raise Violation(f"the call changes {diff}", **info)
    if kind == "first" and outcome != "loader error":
        raise Violation(f"the loader's own error ended as: {outcome}", **info)
    if kind == "second" and outcome not in ("result", "loader error", "not YAML"):
        raise Violation(f"the loader fails at its second call and the result is: {outcome}", **info)
    if stat_of(src) != before[0] or live.tree_listing(src) != before[1]:
        raise Violation("the directory of the file is changed", before=before[1], after=live.tree_listing(src), outcome=outcome, **info)
    if live.tree_listing(tmp) != before[2]:
        raise Violation("something is left in the temporary directory (or changed there)", before=before[2], after=live.tree_listing(tmp), outcome=outcome, **info)
    if any(type(p) is not type(arg) for p in calls):
        raise Violation(f"the loader got {[type(p).__name__ for p in calls]} instead of {type(arg).__name__}", **info)
    if not calls or os.fspath(calls[0]) != os.fspath(arg):
        raise Violation(f"the loader is called with {calls} instead of {arg!r}", **info)
    for e in events:
        # (relative paths of os.remove may be relative to a directory descriptor)
        if e[0] == "open-write" or e[0] in ("os.rename", "os.remove") and os.path.isabs(e[1]):
            where = os.path.join(src, e[1])
            if Path(src) in Path(where).parents:
                raise Violation(f"a file next to the source is written: {e}", **info)
    counts = {"calls_" + kind: 1, "temporary_files_seen": sum(e[0] == "open-write" for e in events), "loader_calls": len(calls), "ended_" + outcome.split(":")[0].replace(" ", "_"): 1}
    for x in live.tree_listing(tmp):
        (tmp / x).unlink()
    live.shutil.rmtree(src)
    return CaseInfo((text, str(pos), kind, which), "#" in text and pos not in (None, ()), counts, sample=dict(document=text, loader=kind))


def together(cx, r, i):
    """Concurrent calls."""
    from lazy_type_hint import LazyTypeHint

    tmp = isolated_tmp(cx)
    n = r.choice([2, 2, 3, 4, 6])
    root = cx.scratch.tmp / f"c16conc_{os.getpid()}_{i}"
    jobs = []
    base = r.choice(["config.yaml", "same.yml"])
    for j in range(n):
        d = root / f"d{j}"
        d.mkdir(parents=True)
        b = yamlgen.Builder(r)
        text = b.document(2)
        # every file has keys and comments of its own
        text = f"only_{j}: {j}  # of file {j}\nsub_{j}:\n  x: [1]  # inner {j}\n" + (text if not text.startswith("-") else "list:\n" + text)
        path = d / base
        path.write_bytes(text.encode())
        jobs.append((path, text))
    same = r.random() < .25
    if same:
        jobs = [jobs[0]] * n
    pos = r.choice(["side", "above", "below", ("side", "above"), "default"])
    kw = {} if pos == "default" else {"comments_are": pos}
    shared = LazyTypeHint() if r.random() < .5 else None
    strat = gen.strategies(r)
    seeds = [r.random() for _ in range(n)]
    turns = r.choice([1, 2, 3])

    def call(j, slow, rr=None):
        def loader(p):
            if slow:
                time.sleep(rr.random() * .004)
            with open(p, "rb") as f:
                data = yaml.safe_load(f)
            if slow:
                time.sleep(rr.random() * .004)
            seen.append((j, str(p)))
            return data

        tool = shared or LazyTypeHint(api.make_strategies(strat))
        p = jobs[j][0] if seeds[j] < .5 else str(jobs[j][0])
        return tool.from_yaml_file(loader, p, class_name="Example", **kw).to_string()

    seen = []
    info = dict(documents=[t for _, t in jobs], comments_are=pos, strategies=api.diff_strategies(strat), shared_tool=bool(shared))
    try:
        want = [call(j, False) for j in range(n)]
    except Exception as e:  # noqa: BLE001
        live.shutil.rmtree(root)
        if isinstance(e, yaml.YAMLError):
            return None
        raise Violation(f"a call alone fails: {type(e).__name__}: {e}", **info) from None
    seen.clear()
    got = [[] for _ in range(n)]
    barrier = threading.Barrier(n)

    def work(j):
        rr = random.Random(seeds[j])
        barrier.wait()
        for _ in range(turns):
            try:
                got[j].append(call(j, True, rr))
            except Exception as e:  # noqa: BLE001
                got[j].append(e)

    before = live.tree_listing(root)
    old = live.sys.getswitchinterval()
    live.sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(j,)) for j in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        live.sys.setswitchinterval(old)
    for j in range(n):
        for g in got[j]:
            if g != want[j]:
                raise Violation("a call that runs at the same time as others gives something else than alone", alone=want[j], together=repr(g) if isinstance(g, Exception) else g, **info)
        if len(got[j]) != turns:
            raise Violation("a concurrent call does not end", **info)
    if live.tree_listing(root) != before:
        raise Violation("the source files are changed by concurrent calls", **info)
    if live.tree_listing(tmp):
        raise Violation(f"concurrent calls leave temporary files: {sorted(live.tree_listing(tmp))}", **info)
    order = tuple(j for j, _ in seen)
    overlapped = any(order[k] != order[k - 1] for k in range(1, len(order))) and n > 1 and list(order) != sorted(order)
    live.shutil.rmtree(root)
    return CaseInfo((tuple(t for _, t in jobs), str(pos), order), True, dict(concurrent_calls=n * turns, overlapping_schedules=bool(overlapped), same_file=same), evals=n * turns, sample=dict(order=order))


def again(cx, r, i):
    """The same path read several times, the file being another one each time."""
    from lazy_type_hint import LazyTypeHint

    tmp = isolated_tmp(cx)
    root = cx.scratch.tmp / f"c16again_{os.getpid()}_{i}"
    root.mkdir()
    path = root / "conf.yaml"
    shape = r.choice(["a: {v}  # {c}\n", "# {c}\na: {v}\nb:\n  c: {v}  # {c}\n", "- a: {v}  # {c}\n  b: 1\n", None])
    pos = r.choice(["side", "above", "below", ("side", "above")])
    docs, got, want = [], [], []

    def loader(p):
        with open(p, "rb") as f:
            return yaml.safe_load(f)

    tool = LazyTypeHint()
    for k in range(r.choice([2, 3, 4])):
        text = shape.format(v=r.choice(["1", "x", "[]", "on"]), c=r.choice(["one", "two", "six", "ten"])) if shape else yamlgen.Builder(r).document(2)
        docs.append(text)
        replace = r.random() < .3
        if replace and path.exists():
            path.unlink()
        path.write_bytes(text.encode())
        if r.random() < .5:
            os.utime(path, (1_000_000_000, 1_000_000_000))
        other = root / f"alone_{k}.yaml"
        other.write_bytes(text.encode())
        t = tool if r.random() < .5 else LazyTypeHint()
        try:
            got.append(t.from_yaml_file(loader, path if r.random() < .5 else str(path), class_name="Example", comments_are=pos).to_string())
            want.append(LazyTypeHint().from_yaml_file(loader, other, class_name="Example", comments_are=pos).to_string())
        except yaml.YAMLError:
            live.shutil.rmtree(root)
            return None
        if got[-1] != want[-1]:
            raise Violation("a file read before under the same path gives something else than under a path of its own", documents=docs, comments_are=pos, same_path=got[-1], alone=want[-1])
    if live.tree_listing(tmp):
        raise Violation(f"temporary files are left: {sorted(live.tree_listing(tmp))}")
    live.shutil.rmtree(root)
    return CaseInfo((tuple(docs), str(pos)), len(set(got)) > 1, dict(rereads=len(docs), rereads_that_differ=len(set(got)) > 1), sample=dict(documents=docs))


def cases(tier):
    return 16000 if tier == "quick" else 100000


def run_case(i, r, cx):
    # the live tool writes to the copy of the package of this process
    if not hasattr(run_case, "w"):
        run_case.w = live.world(cx)
    if i % 200 < 8:
        run_case.w.wipe()
    if (i // 8) % 6 == 1:
        return again(cx, r, i)
    return together(cx, r, i) if (i // 8) % 3 == 0 else alone(cx, r, i)


def required(tier):
    return {"calls_good": 800, "calls_first": 300, "calls_second": 300, "temporary_files_seen": 1000, "concurrent_calls": 4000, "overlapping_schedules": 400, "ended_loader_error": 300, "rereads": 2000, "rereads_that_differ": 700}
