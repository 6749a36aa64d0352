"""C31: the effort grows in proportion to the data, and not at all beyond the inspection limit."""
import sys
import warnings
from types import MappingProxyType

import pandas as pd

from vlib import api, gen
from vlib.runner import CaseInfo, Violation

PROP = "C31"
LEVEL = "exploration"
RULE = ("each case: a random family of data (how the i-th element looks, the container that holds n of them, or the wrapper repeated n times, and an outer frame; or the lines of a YAML document; or a history of n live calls) is generated and rendered at sizes n, 2n and 4n while "
        "sys.monitoring counts the calls, generator steps and loop iterations the interpreter executes (no clock), and the elements that list(), sorted(), min() and the like go through. The increase from 2n to 4n must be at most 3.2 times the one from n to 2n for more elements (2 is "
        "proportional, 4 quadratic), 7 times for more depth; with an inspection limit below n there must be next to none. Non-trivial: the largest size counts at least 2000 events; distinct by family.")
ASSUMPTIONS = ["work inside other C functions (string building, membership tests in lists, slices) is not counted", "depth up to 64: deeper data is limited by the interpreter's stack"]
TOOL = 4
MAX = 30_000_000
HEAVY = 1_200_000
WIDE, DEEP, FLAT = 3.2, 7, 1.02


BUILTIN = {type, type(len), type(list.copy)}
CONSUMERS = {list, tuple, set, frozenset, dict, sorted, sum, min, max, any, all, list.copy, dict.copy, set.copy, list.index, list.count, tuple.index, tuple.count}
SIZED = {list, tuple, set, frozenset, dict, str, type({}.keys()), type({}.values()), type({}.items())}


class TooMuch(BaseException):
    pass


def effort(fn, copies=False):
    """Events executed by fn; with copies, also the elements that built-in functions go through."""
    mon = sys.monitoring
    n = 0

    def hit(*_):
        nonlocal n
        n += 1
        if n > MAX:
            raise TooMuch

    def call(code, offset, callee, arg0):
        nonlocal n
        if type(callee) in BUILTIN and callee in CONSUMERS and type(arg0) in SIZED:
            n += len(arg0)
    events = mon.events.PY_START | mon.events.PY_RESUME | mon.events.JUMP | (mon.events.CALL if copies else 0)
    mon.use_tool_id(TOOL, "effort")
    try:
        for e in (mon.events.PY_START, mon.events.PY_RESUME, mon.events.JUMP):
            mon.register_callback(TOOL, e, hit)
        if copies:
            mon.register_callback(TOOL, mon.events.CALL, call)
        mon.set_events(TOOL, events)
        try:
            fn()
        finally:
            mon.set_events(TOOL, 0)
    except TooMuch:
        return MAX
    finally:
        mon.free_tool_id(TOOL)
    return n


def element(r, depth=0):
    """A function from an index to a value."""
    k = r.random()
    if k < .18 or depth > 2:
        v = r.choice([1, "s", 2.5, None, True, b"x", 3 + 1j, int])
        return f"{v!r}", lambda i: v
    if k < .26:
        vs = r.sample([1, "s", 2.5, None, True, b"x", range(2)], 3)
        return f"one of {vs}", lambda i: vs[i % 3]
    if k < .36:
        d, f = element(r, depth + 1)
        c = r.choice([list, tuple])
        m = r.choice([1, 2, 3])
        return f"{c.__name__} of {m} ({d})", lambda i: c(f(i + j) for j in range(m))
    if k < .4:
        return "set", lambda i: {i % 3, "x"}
    if k < .62:
        d, f = element(r, depth + 1)
        m = r.choice([1, 2, 4])
        return f"dict with the same {m} keys ({d})", lambda i: {f"key{j}": f(i) for j in range(m)}
    if k < .76:
        d, f = element(r, depth + 1)
        m = r.choice([1, 2, 3])
        return f"dict with {m} keys of its own ({d})", lambda i: {f"own{i}_{j}": f(i) for j in range(m)}
    if k < .88:
        d, f = element(r, depth + 1)
        return f"dict with some of 6 keys ({d})", lambda i: {f"key{j}": f(i) for j in range(6) if j < 3 or (i >> (j - 3)) & 1}
    if k < .94:
        d, f = element(r, depth + 1)
        return f"dict with other keys than strings ({d})", lambda i: {i % 4: f(i), None: 1}
    if k < .97:
        return "class of its own", lambda i: type(f"Class{i}", (), {})
    return "tuple of growing length", lambda i: (1,) * (i % 8)


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def wide(r):
    d, f = element(r)
    k = r.choice(["list", "list", "tuple", "keys", "keys", "int keys", "proxy", "iterator", "series", "columns", "levels", "rows", "function", "lists in a list"])
    make = {"list": lambda n: [f(i) for i in range(n)],
            "tuple": lambda n: tuple(f(i) for i in range(n)),
            "keys": lambda n: {f"k{i}": f(i) for i in range(n)},
            "int keys": lambda n: {i: f(i) for i in range(n)},
            "proxy": lambda n: MappingProxyType({f"k{i}": f(i) for i in range(n)}),
            "iterator": lambda n: iter([f(i) for i in range(n)]),
            "series": lambda n: pd.Series([f(i) for i in range(n)], dtype=object),
            "columns": lambda n: pd.DataFrame({f"c{i}": pd.Series([f(i), f(i)], dtype=object) for i in range(n)}),
            "levels": lambda n: pd.DataFrame([[0] * n], columns=pd.MultiIndex.from_tuples([(f"a{i // 3}", f"b{i}") for i in range(n)])),
            "rows": lambda n: pd.DataFrame({"a": pd.Series([f(i) for i in range(n)], dtype=object), "b": 1}),
            "function": lambda n: {"f": len, "rest": [f(i) for i in range(n)]},
            "lists in a list": lambda n: [[f(i) for i in range(8)] for _ in range(n // 8)]}[k]
    return k, d, make


def deep(r):
    """A cycle of wrappers."""
    names = ["list", "tuple", "dict", "dict with more", "list with more", "tuple with more", "int dict", "two dicts", "proxy", "replies", "replies in a dict", "list of many"]
    cycle = [r.choice(names) for _ in range(r.choice([1, 1, 2, 3]))]
    apply = {"list": lambda x, i: [x], "tuple": lambda x, i: (x,), "dict": lambda x, i: {"a": x}, "dict with more": lambda x, i: {"a": 1, f"b{i}": x, "c": "s"}, "list with more": lambda x, i: [1, x, "s"],
             "tuple with more": lambda x, i: (x, 1, "s"), "int dict": lambda x, i: {1: x}, "two dicts": lambda x, i: [{"u": x, "v": 1}, {"u": x, "w": 1}] if i == 0 else [{"u": x, "v": 1}, {"q": 1, "w": 1}],
             "proxy": lambda x, i: MappingProxyType({"a": x}), "replies": lambda x, i: [{"text": "t", "replies": x}, {"text": "u"}], "replies in a dict": lambda x, i: {"n": 1, "items": ({"q": 1, f"x{i % 2}": x}, {"q": 2})},
             "list of many": lambda x, i: [x, *[{"n": i, f"m{j}": 1} for j in range(4)]]}
    d, f = element(r, 2)

    def make(n):
        x = f(0)
        for i in range(n):
            x = apply[cycle[i % len(cycle)]](x, i)
        return x
    return "+".join(cycle), d, make


def tree(r):
    """Every level twice as wide, all levels alike: n leaves."""
    k = r.choice(["lists", "tuples", "equal dictionaries", "dictionaries with keys of their own", "lists of two dictionaries with keys of their own", "lists of similar dictionaries"])
    d, f = element(r, 2)
    node = {"lists": lambda a, b, i: [a, b], "tuples": lambda a, b, i: (a, b), "equal dictionaries": lambda a, b, i: {"a": a, "b": b}, "dictionaries with keys of their own": lambda a, b, i: {f"a{i}": a, f"b{i}": b},
            "lists of two dictionaries with keys of their own": lambda a, b, i: [{f"a{i}": a}, {f"b{i}": b}], "lists of similar dictionaries": lambda a, b, i: [{"a": a, "b": 1, "c": 1}, {"a": b, "b": 1}]}[k]

    def build(n, lo):
        return f(lo) if n <= 1 else node(build(n // 2, lo), build(n // 2, lo + n // 2), lo)
    return "tree of " + k, d, lambda n: build(n, 0)


def document(r):
    """Lines of YAML with comments: documents of n blocks."""
    c = r.choice([lambda i: f"  # word {i}", lambda i: "  # same", lambda i: f"  # {'long ' * 20}{i}", lambda i: "" if i % 3 else f" # now and then {i}", lambda i: ""])
    a = r.choice([lambda i, p: f"{p}# above {i}\n", lambda i, p: f"{p}# above {i}\n{p}# and more\n", lambda i, p: "\n", lambda i, p: "", lambda i, p: f"\n{p}# block\n\n"])
    v = r.choice(["1", "'quoted # text'", "[1, 2, {x: 1}]", "{q: 1, r: [s]}", "word", "", '"a b"', "2020-01-01"])
    k = r.choice(["keys", "quoted keys", "blocks", "list", "list of dictionaries", "nested lists", "lists of keys", "comments", "one long value", "deep", "own keys"])
    block = {"keys": lambda i: f"{a(i, '')}key{i}: {v}{c(i)}\n", "quoted keys": lambda i: f"{a(i, '')}'key {i}': {v}{c(i)}\n",
             "blocks": lambda i: f"{a(i, '')}key{i}:{c(i)}\n  a: {v}{c(i)}\n{a(i, '  ')}  b: {v}\n", "list": lambda i: f"{a(i, '')}- {v}{c(i)}\n",
             "list of dictionaries": lambda i: f"{a(i, '')}- a: {v}{c(i)}\n{a(i, '  ')}  b: {v}{c(i)}\n", "nested lists": lambda i: f"- - a: {v}{c(i)}\n  - - {v}\n",
             "lists of keys": lambda i: f"key{i}:{c(i)}\n  - {v}\n{a(i, '  ')}  - a: {v}{c(i)}\n", "comments": lambda i: f"{a(i, '') or '# x'}{'' if i else 'a: 1'}\n",
             "one long value": lambda i: f"a: {v}{c(i)}{' more' * 8}" if not i else " word" * 8, "deep": lambda i: f"{a(i, '  ' * i)}{'  ' * i}key{i}:{c(i)}\n",
             "own keys": lambda i: f"key{i}:\n  own{i}: {v}{c(i)}\n"}[k]
    return f"YAML: {k}, {v}, {c(0)!r}, {a(0, '')!r}", lambda n: "".join(block(i) for i in range(n)), k == "deep"


def run_document(r, cx, strategies, kw, counts):
    from pathlib import Path

    import yaml

    from lazy_type_hint import LazyTypeHint
    what, make, nested = document(r)
    pos = r.choice(["side", "above", "below", ("above", "side")])
    path = cx.scratch.tmp / f"c31_{r.random()}.yaml"
    loader = lambda p: yaml.load(Path(p).read_bytes(), yaml.CSafeLoader)  # noqa: E731
    seen = []
    sizes = (8, 16, 32) if nested else (40, 80, 160)
    try:
        for n in (2, *sizes):
            path.write_text(make(n))
            try:
                loader(path)
            except yaml.YAMLError:
                return CaseInfo((what,), False, dict(counts, not_loadable=1))
            tool = LazyTypeHint(strategies)
            seen.append(effort(lambda: tool.from_yaml_file(loader, path, class_name="Example", comments_are=pos).to_string(), copies=True))
    finally:
        path.unlink()
    return judge(f"{what}, comments {pos}", sizes, seen[1:], DEEP if nested else WIDE, kw, counts)


def run_history(r, cx, kw, counts):
    """One call after n others."""
    from vlib import live
    w = live.world(cx)
    try:
        same, mode = r.random() < .3, r.choice(["overwrite", "validate"])
        d, f = element(r)
        before = r.sample(range(10 ** 6), 32)
        sizes, seen = (8, 16, 32), []
        tool = w.tool(kw, mode)
        last, done = "Same" if same or r.random() < .5 else f"Class{before[0]}", 0
        for _ in range(2):  # what happens only once
            tool.from_data(f(0), class_name=last)
        for n in sizes:
            while done < n:
                tool.from_data(f(0) if same else f(done), class_name="Same" if same else f"Class{before[done]}")
                done += 1
            seen.append(effort(lambda: tool.from_data(f(0), class_name=last), copies=True))
        if same and max(seen) > min(seen) * FLAT + 20:
            raise Violation("calls for the same class grow more costly", family=d, mode=mode, strategies=api.diff_strategies(kw), steps=list(zip(sizes, seen)))
        return judge(f"live {mode} {'same class' if same else last[:5]}: {d}", sizes, seen, WIDE, kw, counts, least=500)
    finally:
        w.wipe()
        live.leave(cx)


def judge(family, sizes, seen, bound, kw, counts, least=2000):
    a, b, c = seen
    if MAX in seen or c - b > bound * max(b - a, 40):
        raise Violation(f"the effort grows out of proportion: steps for each size {list(zip(sizes, seen))}", family=family, strategies=api.diff_strategies(kw))
    counts["events"] = c
    (shape, *_) = counts
    counts[f"{shape}_growth_above_2.5"] = c - b > 2.5 * max(b - a, 40)
    return CaseInfo((family, shape), c >= least, counts, sample=dict(family=family, steps=list(zip(sizes, seen))), evals=3)


OUTER = {"alone": lambda x: x, "in a list": lambda x: [x], "in a dictionary": lambda x: {"data": x, "n": 1}, "in a tuple": lambda x: (1, x), "twice": lambda x: {"one": x, "two": [x]}}


def cases(tier):
    return 2200 if tier == "quick" else 60000


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    kw = gen.strategies(r)
    shape = r.choice(["wide", "wide", "wide", "deep", "tree", "limited", "document"])
    if r.random() < .05:
        shape = "history"
    outer = r.choice(list(OUTER))
    counts = {shape: 1}
    if shape in ("document", "history"):
        return run_document(r, cx, api.make_strategies(kw), kw, counts) if shape == "document" else run_history(r, cx, kw, counts)
    if shape == "deep":
        what, d, make = deep(r)
        sizes, bound = (8, 16, 32), DEEP
    elif shape == "tree":
        what, d, make = tree(r)
        sizes, bound = (32, 64, 128), WIDE
    else:
        what, d, make = wide(r)
        sizes, bound = (24, 48, 96), WIDE
        if r.random() < .15:
            sizes = (64, 128, 256)
        elif r.random() < .05 and what not in ("columns", "levels", "rows"):
            sizes = (500, 1000, 2000)
            counts["large"] = 1
    if what in ("iterator",) and outer == "twice":
        outer = "alone"
    kw["check_max_n_elements_within_container"] = None
    if shape == "limited":
        kw["check_max_n_elements_within_container"] = r.randint(1, 20)
        if what in ("columns", "levels", "function", "lists in a list") or what in ("keys", "int keys") and kw["dict_strategy"] == "TypedDict":
            what, make = "list", lambda n, f=element(r)[1]: [f(j) for j in range(n)]
            d = "another element"
    if r.random() < .15:
        kw["key_used_as_doc"] = "key0"
    family = f"{what} of {d}, {outer}"
    full = OUTER[outer]
    seen = []
    from lazy_type_hint import LazyTypeHint
    strategies = api.make_strategies(kw)
    first = effort(lambda: LazyTypeHint(strategies).from_data(full(make(sizes[0])), class_name="Example").to_string())  # and the caches of the interpreter
    if first > HEAVY and sizes[0] == 500:  # elements so rich that proportional effort alone takes minutes
        sizes = (60, 120, 240)
        counts["large"] = 0
    for n in sizes:
        data = full(make(n))
        tool = LazyTypeHint(strategies)
        seen.append(effort(lambda: tool.from_data(data, class_name="Example").to_string(), copies=shape != "limited"))
        if seen[-1] >= MAX:
            raise Violation(f"size {n} takes more than {MAX} steps", family=family, strategies=api.diff_strategies(kw), steps=list(zip(sizes, seen)))
    if shape == "limited":
        a, b, c = seen
        counts["limited_events"] = c
        if c > a * FLAT + 20:
            raise Violation("elements beyond the inspection limit cost effort", family=family, strategies=api.diff_strategies(kw), steps=list(zip(sizes, seen)))
        counts["events"] = c
        return CaseInfo((family, shape), c >= 2000, counts, sample=dict(family=family, steps=list(zip(sizes, seen))), evals=3)
    return judge(family, sizes, seen, bound, kw, counts)


def required(tier):
    return {"wide": 400, "deep": 100, "tree": 100, "limited": 100, "document": 100, "history": 20, "events": 3_000_000}
