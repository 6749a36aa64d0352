"""C19: live validation accepts exactly unchanged structures."""
import collections
import functools
import warnings
from types import MappingProxyType

from vlib import api, gen, history, live
from vlib import samples as S
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C19"
LEVEL = "exploration"
RULE = ("each case: a history of live calls, most of them validating, for few names with data that is the same, has other leaf values, other documentation, or another structure; each verdict is compared with the syntax "
        "trees of the hints without docstrings, and rejected calls with snapshots of all files. Non-trivial: a known class was validated; distinct by the history.")
ASSUMPTIONS = ["two hints that list the same keys in another order are different hints", "calls do not overlap in time"]


def cases(tier):
    return 3000 if tier == "quick" else 60000


def judge(w, op, before, expected_before, log):
    """Compare the verdict of a call with the model."""
    info = dict(history=log)
    known = op.name in expected_before
    if op.error is not None:
        after = w.new_files()
        if after != before:
            changed = sorted(k for k in {*before, *after} if before.get(k) != after.get(k))
            raise Violation(f"a rejected call changes {changed}", before={k: before.get(k) for k in changed}, after={k: after.get(k) for k in changed}, **info)
        if hasattr(op, "fails"):
            return "failing"
        if not known or op.mode != "validate":
            raise Violation(f"a call that has nothing to be validated against is rejected: {op.error}", **info)
        if type(op.error).__name__ not in live.TOOL_ERRORS:
            raise Violation(f"validation ends with {type(op.error).__name__}: {op.error}", **info)
        if op.want == expected_before[op.name]:
            raise Violation("validation rejects data whose hint equals the stored one", stored=w.registry()[op.name]["module"], **info)
        return "rejected"
    if hasattr(op, "fails"):
        raise Violation("a failing call ends without an error", **info)
    if op.mode == "validate" and known:
        if op.want != expected_before[op.name]:
            raise Violation("validation accepts data whose hint differs from the stored one", stored=before, **info)
        return "accepted"
    return "new" if not known else "overwritten"


def variants(data, r):
    k = r.random()
    if k < .2:
        return data, "same"
    if k < .35:
        return gen.revalue(data, r), "other values"
    if k < .5:
        return history.documented(data, r), "documented"
    if k < .7:
        return gen.nearby(data, r), "one value of another type"
    if isinstance(data, dict) and data:
        d = dict(data)
        key = r.choice(list(d))
        if k < .78:
            del d[key]
            return d, "key removed"
        if k < .86:
            d["new_key"] = 1
            return d, "key added"
        if k < .93:
            d[key] = {"a": r.choice([1, "x"])}
            return d, "value replaced"
        return dict(reversed(list(d.items()))), "reordered"
    return r.choice([[data], (data,), {"k": data}]), "wrapped"


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    w = live.world(cx)
    counts = collections.Counter()
    h = history.History(w, r, cx, names=r.sample(live.NAMES, r.choice([1, 1, 2, 3])), modes=("validate", "validate", "validate", "overwrite"), repeat=.85, reset=.04, restart=.1, fail=.06, yaml_share=.25)
    for _ in range(r.choice([3, 5, 8, 12])):
        op = h.choose()
        if op.kind == "call" and not hasattr(op, "fails"):
            prev = h.stored.get(op.name)
            if prev is not None and prev.kind == "call" and r.random() < .7:
                op.data, op.variant = variants(prev.data, r)
                counts["variant_" + op.variant.replace(" ", "_")] += 1
                if r.random() < .8:  # the same strategies, so that the data decides
                    op.tool, op.strategies, op.mode = prev.tool, prev.strategies, prev.mode
                    if prev.mode != "validate":
                        op.tool, op.mode = w.tool(prev.strategies, "validate"), "validate"
            elif r.random() < .6:
                op.data = {"doc": "text", **{k: history.small(r) for k in r.sample("abcd", 2)}} if r.random() < .5 else history.documented(history.small(r), r)
        before = w.new_files()
        expected = dict(h.expected)
        h.do(op)
        if op.kind in ("call", "yaml"):
            counts[judge(w, op, before, expected, h.log)] += 1
    return CaseInfo(repr(h.log), counts["accepted"] + counts["rejected"] > 0, dict(counts), sample=h.log[:4])


TEXTS = ["", "x", "one line.", "two\nlines", "a\n\nb", '"""', "'''", "\\", "x: int", "class A:", "b: str", "...", "# c", "word " * 60, "é名", "from typing import List", '"""\n    b: str\n    """', "@x", "def f(self): ..."]


def fun1(a, b=1): ...
def fun2(a, b): ...
def fun3(a, *, b=1): ...
def fun4(a, b=1) -> int: ...
def fun5(a: int, b=1): ...
def fun6(b, a=1): ...
def fun7(a, b=1): return a
def fun8(a, *b): ...
def fun9(a, **b): ...


def zoo():
    """Values of types that are close to each other (made anew, as iterators can be used once)."""
    import io
    import sys

    import numpy as np
    import pandas as pd
    F = pd.DataFrame
    return [1, 1.0, True, "s", b"s", None, 1j, range(3), int, str, S.Alpha, S.Alpha(), S.Beta, S.Beta(), S.GammaSub(), S.NAMED_LIKE_BUILTINS[4](), S.NAMED_LIKE_BUILTINS[4], S.StrSub("x"),
            [], [1], [1.0], [1, 1.0], [1, "s"], ["s", 1], [[1]], [(1,)], (1,), (1, 1), (1, "s"), ("s", 1), (), {1}, frozenset([1]), {1, "s"}, set(), frozenset(), [{1}], [frozenset([1])], iter([1]), iter(["s"]),
            {}, {"a": 1}, {"a": "s"}, {"b": 1}, {"A": 1}, {"a ": 1}, {"a": 1, "b": 1}, {"b": 1, "a": 1}, {"a": {"a": 1}}, {"a": [1]}, {1: 1}, {"1": 1}, {1: "s"}, {None: 1}, {(1,): 1}, MappingProxyType({"a": 1}), MappingProxyType({"b": 1}), MappingProxyType({1: 1}),
            [{"a": 1}], [{"a": 1}, {"a": 1, "b": 1}], [{"a": 1}, {"a": "s"}], [{"a": 1, "b": 1}], [{"a": 1, "b": 2}, {"a": 1}, {"b": 1}], {"a": 1, 2: 1},
            np.zeros(1), np.zeros(1, int), np.zeros((1, 2)), np.array(["s"]), np.float64(1), pd.Series([1]), pd.Series(["s"]), pd.Series([1, "s"], dtype=object),
            F({"a": [1]}), F({"b": [1]}), F({"a": ["s"]}), F({"a": [1], "b": [1]}), F({1: [1]}), F({True: [1]}), F({"1": [1]}), F({1.5: [1]}), F(), F([[1]], columns=pd.MultiIndex.from_tuples([("a", "b")])), F([[1]], columns=pd.MultiIndex.from_tuples([("a", "c")])),
            fun1, fun2, fun3, fun4, fun5, fun6, fun7, fun8, fun9, lambda: 1, lambda a: 1, lambda a, b: 1, len, print, io.StringIO(), io.BytesIO(), sys, pd.Index([1])]


SETTINGS = [({}, "alone"), (dict(dict_strategy="dict"), "key"), (dict(tuple_size_strategy="any size", list_strategy="Sequence"), "among"), (dict(dict_strategy="Mapping", min_height_to_define_type_alias=0), "deep")]


@functools.lru_cache(None)
def all_hints(j):
    from lazy_type_hint import LazyTypeHint
    kw, frame = SETTINGS[j]
    tool = LazyTypeHint(api.make_strategies(kw))
    return [live.definitions(tool.from_data(FRAMES[frame](x), class_name="A").to_string()) for x in zoo()]


FRAMES = {"alone": lambda x: x, "key": lambda x: {"k": x, "n": 1}, "among": lambda x: [{"k": 1}, x, "other"], "deep": lambda x: ({"k": [[x], None]}, 1)}


def directed(cx):
    import itertools

    def docs(syntax, a):
        """Any documentation text against any other, and against changes that look like documentation."""
        w = live.world(cx, "docs")
        c = collections.Counter()
        try:
            for b in TEXTS:
                w.wipe()
                w.tool(dict(key_used_as_doc="doc"), "overwrite").from_data({"doc": a, syntax: 1}, "A")
                tool = w.tool(dict(key_used_as_doc="doc"), "validate")
                try:
                    tool.from_data({"doc": b, syntax: 2}, "A")
                except Exception as e:  # noqa: BLE001
                    raise Violation(f"validation rejects another documentation text: {e}", stored=a, new=b) from None
                files = w.new_files()
                for other in ({"doc": b, syntax: "s"}, {"doc": b, syntax: 1, "b": "x"}, {"doc": b}, {syntax: 1}, [{"doc": b, syntax: 1}]) if a == TEXTS[0] or b == TEXTS[0] or a == b else ():
                    try:
                        tool.from_data(other, "A")
                    except Exception as e:  # noqa: BLE001
                        if type(e).__name__ not in live.TOOL_ERRORS:
                            raise Violation(f"validation ends with {type(e).__name__}: {e}", stored=a, new=other) from None
                    else:
                        raise Violation("validation accepts another structure", stored={"doc": b, syntax: 1}, new=other)
                    c["documentation_rejected"] += 1
                if w.new_files() != files:
                    raise Violation("a rejected call changes files", stored=a, new=b)
                c["documentation_accepted"] += 1
        finally:
            live.leave(cx)
        return CaseInfo(repr((syntax, a)), True, dict(c))

    def pairs(j, kw, a_at, frame):
        """Data of one type against data of every other one."""
        w = live.world(cx, "pairs")
        c = collections.Counter()
        make, hints = FRAMES[frame], all_hints(j)
        new = zoo()
        try:
            w.tool(kw, "overwrite").from_data(make(zoo()[a_at]), "A")
            files = w.new_files()
            tool = w.tool(kw, "validate")
            for b_at, value in enumerate(new):
                equal = hints[b_at] == hints[a_at]
                info = dict(stored=f"element {a_at} of zoo()", new=f"element {b_at} of zoo()", within=frame, strategies=kw)
                try:
                    tool.from_data(make(value), "A")
                except Exception as e:  # noqa: BLE001
                    if type(e).__name__ not in live.TOOL_ERRORS:
                        raise Violation(f"validation ends with {type(e).__name__}: {e}", **info) from None
                    if equal:
                        raise Violation("validation rejects data whose hint equals the stored one", **info) from None
                else:
                    if not equal:
                        raise Violation("validation accepts data whose hint differs from the stored one", **info)
                c["pairs_" + ("same" if equal else "different")] += 1
            if w.new_files() != files:
                raise Violation("rejected calls change files", stored=safe_repr(zoo()[a_at]), within=frame, strategies=kw)
        finally:
            live.leave(cx)
        return CaseInfo(repr((kw, a_at, frame)), True, dict(c))

    for j, (kw, frame) in enumerate(SETTINGS):
        for a_at in range(len(zoo())):
            yield f"pairs {j} {a_at}", lambda j=j, kw=kw, a_at=a_at, frame=frame: pairs(j, kw, a_at, frame)

    for syntax, a in itertools.product(("k", "k-1"), TEXTS):
        yield f"documentation {a!r:.20} {syntax}", lambda syntax=syntax, a=a: docs(syntax, a)


def required(tier):
    return {"accepted": 1500, "rejected": 1500, "new": 1500, "overwritten": 100, "failing": 300, "documentation_accepted": 600, "documentation_rejected": 400, "pairs_different": 20000, "pairs_same": 350}
