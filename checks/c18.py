"""C18: the live registry always describes exactly the classes generated."""
import os
import re
import subprocess
import sys
import warnings

from vlib import history, live
from vlib.runner import CaseInfo, Violation

PROP = "C18"
LEVEL = "exploration"
RULE = ("each case: a random history of 2-14 operations (live calls from data and YAML by several instances, old and new, with strategies, modes, failing calls, resets, restarts) on a private installation; after every "
        "operation the stub is parsed and compared with the model: imports, known classes, overloads, modules. Non-trivial: 2+ classes at some time; distinct by the history.")
ASSUMPTIONS = ["class names are none of those the stub uses itself (Any, Path...)", "calls do not overlap in time"]


def cases(tier):
    return 2400 if tier == "quick" else 60000


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    w = live.world(cx)
    h = history.History(w, r, cx, names=r.sample(live.NAMES, r.choice([2, 3, 5, 8])), modes=("overwrite", "overwrite", "validate"))
    top = 0
    for _ in range(r.choice([2, 4, 6, 9, 14])):
        op = h.do(h.choose())
        n = w.check_registry(h.expected, history=h.log)
        top = max(top, n)
        h.counts["classes_checked"] += n
        if not h.expected and op.kind == "reset" and w.new_files():
            raise Violation(f"after a reset there is still {sorted(w.new_files())}", history=h.log)
        old = [t for t in h.tools if t[0] < max((k for k, o in enumerate(h.log) if o.kind == "restart"), default=-1)]
        h.counts["calls_by_instances_of_before_the_restart"] += op.kind in ("call", "yaml") and any(t[1] is op.tool for t in old)
    return CaseInfo(repr(h.log), top > 1, dict(h.counts), sample=h.log[:4])


PROGRAM = """
import sys
sys.path.insert(0, sys.argv[1])
from lazy_type_hint import LazyTypeHintLive
for name, data in eval(sys.argv[2]):
    assert LazyTypeHintLive().from_data(data, name) is data
"""


def directed(cx):
    def many():
        w = live.world(cx, "many")
        try:
            tool = w.tool()
            expected = {}
            names = [f"{p}{j}" for j in range(12) for p in ("Class", "C", "class_", "Klasse_mit_langem_Namen_")] + live.NAMES
            for n in names:
                tool.from_data({n: 1}, n)
                expected[n] = history.definitions_of({n: 1}, {}, n)
                w.check_registry(expected)
            for n in reversed(names):
                w.tool().from_data([n], n)
                expected[n] = history.definitions_of([n], {}, n)
            w.check_registry(expected)
            return CaseInfo("many", True, dict(many_classes=len(names)))
        finally:
            live.leave(cx)

    yield "many classes", many

    def processes():
        w = live.world(cx, "procs")
        try:
            expected = {}
            for j in range(4):
                calls = [(f"P{k}", {"a": k, f"b{j}": [1.5]}) for k in range(j, j + 3)]
                subprocess.run([sys.executable, "-c", PROGRAM, str(w.root), repr(calls)], check=True, cwd=cx.scratch.tmp, env={**os.environ, "PYTHONHASHSEED": str(j)}, capture_output=True)
                for n, d in calls:
                    expected[n] = history.definitions_of(d, {}, n)
                w.check_registry(expected)
            return CaseInfo("procs", True, dict(processes=4))
        except subprocess.CalledProcessError as e:
            raise Violation("a call in a process of its own fails", output=e.stderr.decode()) from None
        finally:
            live.leave(cx)

    yield "separate processes", processes
    yield "pyright", lambda: _type_checker(cx, ["pyright"], r'client\.py:(\d+):\d+ - information: Type of .* is "(.*)"')
    if cx.tier == "thorough":
        yield "mypy", lambda: _type_checker(cx, ["mypy", "--cache-dir", os.devnull], r'client\.py:(\d+): note: Revealed type is "(.*)"')


def _type_checker(cx, command, pattern):
    """What a type checker makes of calls with literal class names."""
    w = live.world(cx, "types")
    try:
        names = ["A", "AA", "User", "UserData", "Us", "match", "Été", "_X", "Very_Long_Name_For_A_Class_That_Needs_Room"]
        w.tool().from_data([1], "Gone")
        w.reset()
        for n in names[:5]:
            w.tool().from_data({"key": 1}, n)
        w.restart()
        for n in [*names[5:], *names[:2]]:
            w.tool().from_data({"key": 1, "other": "x"}, n)
        lines = ["from pathlib import Path", "from lazy_type_hint import LazyTypeHintLive", "def loader(p: Path) -> int:", "    return 1", "tool = LazyTypeHintLive()"]
        expected = {}
        for n in names:
            for call in (f'tool.from_data({{"key": 1}}, "{n}")', f'tool.from_data(class_name="{n}", data=5)', f'tool.from_yaml_file(loader, Path("x"), class_name="{n}")'):
                lines.append(f"reveal_type({call})")
                expected[len(lines)] = n
        for call in ('tool.from_data(5, "Gone")', 'tool.from_yaml_file(loader, Path("x"), class_name="Nothing")'):
            lines.append(f"reveal_type({call})")
            expected[len(lines)] = "int"
        client = w.root / "client.py"
        client.write_text("\n".join(lines) + "\n", encoding="utf-8")
        try:
            out = subprocess.run([*command, "client.py"], cwd=w.root, capture_output=True, text=True, timeout=200, check=False).stdout
        except (OSError, subprocess.TimeoutExpired):
            out = ""
        seen = {int(m[1]): m[2] for m in re.finditer(pattern, out)}
        if len(seen) < len(expected) // 2:
            return CaseInfo("unavailable", False, {"type_checker_unavailable": 1})
        wrong = {lines[k - 1]: seen.get(k) for k, n in expected.items() if (seen.get(k) or "").split("(")[-1].split(",")[0].split(".")[-1] != n}
        if wrong:
            raise Violation(f"{command[0]} gives calls with a literal class name other types than that class", calls=wrong, stub=w.stub.read_text("utf-8"), output=out)
        return CaseInfo(command[0], True, {"calls_typed_by_" + command[0]: len(expected)})
    finally:
        live.leave(cx)


def required(tier):
    return {"operations": 8000, "classes_checked": 12000, "op_reset": 300, "op_restart": 300, "ok_again": 1000, "rejected": 100, "failed": 500, "many_classes": 60, "processes": 4,
            "calls_by_instances_of_before_the_restart": 30}
