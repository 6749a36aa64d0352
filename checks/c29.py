"""C29: a type checker gives live calls the type generated for their class."""
import os
import warnings

import yaml

from vlib import gen, history, live, static
from vlib.runner import CaseInfo, Inconclusive, Violation

PROP = "C29"
LEVEL = "exploration"
RULE = ("each case: a history of live calls on a private installation (see C18), then a program that calls both entry points with literal class names in several ways is handed to pyright: the type of each call, and of "
        "what is found in it along random paths of the data, must be the one revealed for the hint that LazyTypeHint writes for the data of the last successful call; for classes never generated or reset, the type of "
        "the argument; correct uses of the rest of the interface pass and wrong ones are reported. Non-trivial: at least 2 classes; distinct by the history.")
ASSUMPTIONS = ["class names are none of those the stub uses itself (Any, Path...)", "pyright, as installed, stands for the type checkers users run"]
OUR_NAMES = [n for n in live.NAMES if n not in ("T",)]


def cases(tier):
    return 160 if tier == "quick" else 4000


def some_paths(v, r):
    """Expressions that index the value, as text."""
    out = [""]
    path = ""
    for _ in range(4):
        if type(v) is dict and v:
            k = r.choice(list(v))
            if type(k) not in (str, int, bool, type(None)):
                break
        elif type(v) in (list, tuple) and v:
            k = r.randrange(len(v))
        else:
            break
        v = v[k]
        path += f"[{k!r}]"
        out.append(path)
    return out


CALLS = ['LazyTypeHintLive().from_data(data, "{n}")', 'tool.from_data(data, class_name="{n}")', 'tool.from_data(class_name="{n}", data=data)', 'tool.from_yaml_file(loader, Path("x"), class_name="{n}")',
         'LazyTypeHintLive(if_type_hint_exists="validate").from_yaml_file(str_loader, "x", class_name="{n}", comments_are="side")', 'tool.from_yaml_file(loader, Path("x"), class_name="{n}", comments_are=None)',
         'tool.from_data(data, name_of_{i})']


RIGHT = ['LazyTypeHintLive.reset()', 'LazyTypeHintLive(ParsingStrategies(list_strategy="Sequence"))', 'LazyTypeHintLive(strategies=ParsingStrategies(), if_type_hint_exists="validate")',
         'tool.from_yaml_file(loader, Path("x"), class_name="{n}", comments_are=("side", "above"))', 'tool.from_yaml_file(loader, Path("x"), class_name="{n}", comments_are=["below"])', 'LazyTypeHintLive(if_type_hint_exists="overwrite").reset()',
         'tool.from_yaml_file(loader=loader, path=Path("x"), class_name="{n}")', 'tool.from_data(3, "{n}")', 'abc(tool)']
WRONG = ['tool.from_data(data)', 'tool.from_data(class_name="{n}")', 'tool.from_yaml_file(loader, Path("x"))', 'tool.from_yaml_file(loader, Path("x"), "{n}")', 'LazyTypeHintLive(if_type_hint_exists="never")', 'tool.from_yaml_file(loader, Path("x"), class_name="{n}", comments_are="nowhere")',
         'LazyTypeHintLive(3)', 'tool.no_such_method()', 'tool.from_data(data, 3)', 'tool.from_yaml_file(loader, 3, class_name="{n}")', 'LazyTypeHintLive.reset(1)', 'tool.from_yaml_file(3, "x", class_name="{n}")']


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    w = live.world(cx, "typed")
    h = history.History(w, r, cx, names=r.sample(OUR_NAMES, r.choice([2, 3, 5, 8])), fail=.05, reset=.04)
    ever = set()
    for _ in range(r.choice([3, 6, 10, 14])):
        h.do(h.choose())
        ever |= set(h.expected)
    lines = ["from pathlib import Path", "from typing import Final", "from lazy_type_hint import LazyTypeHintLive"]
    body = ["class Thing: ...", "data = Thing()", "def loader(p: Path) -> Thing: ...", "def str_loader(p: str) -> Thing: ...", "tool = LazyTypeHintLive()"]
    from lazy_type_hint import LazyTypeHint, ParsingStrategies

    pairs = []
    used = {}
    for k, (name, op) in enumerate(h.stored.items()):
        data = yaml.safe_load(op.text) if op.kind == "yaml" else op.data
        (w.root / f"expected_{k}.py").write_text(LazyTypeHint(ParsingStrategies(**op.strategies)).from_data(data, class_name=name).to_string(), encoding="utf-8")
        lines.append(f"from expected_{k} import {name} as Expected{k}")
        body += [f'name_of_{k}: Final = "{name}"', f"def known_{k}() -> Expected{k}: ..."]
        used[k] = name
        for path in some_paths(data, r):
            call = r.choice(CALLS).format(n=name, i=k)
            pairs.append((name, call + path, f"known_{k}(){path}"))
        for c in r.sample(CALLS, 3):
            pairs.append((name, c.format(n=name, i=k), f"known_{k}()"))
    unknown = sorted((ever | set(h.names)) - set(h.stored)) + ["Nobody", *[n + "x" for n in list(h.stored)[:1] if n + "x" not in h.stored]]
    for n in unknown:
        for c in r.sample(CALLS[:-1], 2):
            pairs.append((n, c.format(n=n), "data"))
    lines += ["from lazy_type_hint import ParsingStrategies", "from lazy_type_hint.generators.lazy_type_hint_abc import LazyTypeHintABC"]
    body += ["def abc(x: LazyTypeHintABC) -> None: ..."]
    text = lines + body
    uses = {}
    for e, right in [(e, True) for e in RIGHT] + [(e, False) for e in WRONG]:
        uses[len(text)] = (e := e.format(n=r.choice([*h.stored, "Nobody"])), right)
        text.append(e)
    where = {}
    for j, (n, a, b) in enumerate(pairs):
        for side, e in ((0, a), (1, b)):
            where[len(text)] = (j, side)
            text.append(f"reveal_type({e})")
    (w.root / "client.py").write_text("\n".join(text) + "\n", encoding="utf-8")
    found, analyzed = static.pyright(w.root, include=["client.py"])
    types = {}
    errors = {}
    for x in found:
        if x["file"].name != "client.py":
            continue
        if x["severity"] == "information" and x["line"] in where and x["message"].startswith("Type of "):
            types[where[x["line"]]] = x["message"].rsplit(' is "', 1)[1]
        elif x["severity"] == "error":
            errors[x["line"]] = x["message"]
    if not analyzed:
        raise Inconclusive("pyright read nothing")
    info = dict(history=h.log, stub=w.stub.read_text("utf-8") if w.stub.exists() else None)
    counts = dict(h.counts)
    counts.update(right_uses=0, wrong_uses=0, calls_typed=0, paths_typed=0, unknown_typed=0, pyright_runs=1)
    for j, (n, a, b) in enumerate(pairs):
        got, want = types.get((j, 0)), types.get((j, 1))
        if want is None:
            raise Inconclusive(f"pyright reveals nothing for {b}: {errors}")
        if got != want:
            raise Violation(f"pyright gives {a} the type {got} instead of {want}", errors=errors, **info)
        counts["unknown_typed" if b == "data" else "calls_typed" if b.endswith("()") else "paths_typed"] += 1
    for line, (e, right) in uses.items():
        if right and line in errors:
            raise Violation(f"pyright rejects {e}: {errors[line]}", **info)
        if not right and line not in errors:
            raise Violation(f"pyright accepts {e}", **info)
        counts["right_uses" if right else "wrong_uses"] += 1
    for line, message in errors.items():
        if line < len(lines) + len(body):
            raise Violation(f"pyright complains about `{text[line]}`: {message}", **info)
    return CaseInfo(repr(h.log), len(h.stored) > 1, counts, sample=dict(history=h.log[:3], types=[(a, types[j, 0]) for j, (_, a, _) in enumerate(pairs)][:6]), evals=len(pairs))


def known(cx):
    def shadowed():
        w = live.world(cx, "typed")
        try:
            w.tool().from_data({"a": 1}, "Path")
            (w.root / "client.py").write_text("from lazy_type_hint import LazyTypeHintLive\nreveal_type(LazyTypeHintLive().from_data(1, 'Path')['a'])\n")
            return not any(x["message"] == 'Type of "LazyTypeHintLive().from_data(1, \'Path\')["a"]" is "int"' or x["message"].endswith(' is "int"') for x in static.pyright(w.root, include=["client.py"])[0])
        finally:
            live.leave(cx)
    yield "stub-names", "LazyTypeHintLive().from_data({'a': 1}, 'Path'): a class named like something that the stub itself imports is not what the overloads return (here pathlib.Path is)", shadowed


def required(tier):
    return {"right_uses": 800, "wrong_uses": 1000, "calls_typed": 300, "paths_typed": 100, "unknown_typed": 100, "pyright_runs": 40}
