"""C11: dictionaries in a container merge exactly when similar enough."""
import warnings

import pandas as pd

from vlib import api, gen, model, ref, samples as S
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C11"
LEVEL = "exploration"
RULE = ("each case: a list, tuple or mixture of both, at a random place, holding 2-8 dictionaries drawn as overlapping key subsets (1-120 keys) whose values mostly agree, with a threshold set at, "
        "just below or just above their exact similarity or at random; the executed hint is compared with a reference model of the merge rule. Non-trivial: a group of 2+ shapes; distinct by (hint, threshold).")
ASSUMPTIONS = ["two values have the same hint when the tool, given each alone, produces the same executed hint"]

VALS = [lambda r: r.randint(0, 9), lambda r: r.random(), lambda r: "s", lambda r: None, lambda r: [1], lambda r: [1.5], lambda r: ["s"], lambda r: [], lambda r: {"p": 1}, lambda r: {"p": 1.5}, lambda r: {"p": 1, "q": 2},
        lambda r: {}, lambda r: {1: 2}, lambda r: (1, "a"), lambda r: (1, 2), lambda r: [{"p": 1}, {"p": 2, "q": 1}], lambda r: [[1], ["s"]], lambda r: S.Alpha(), lambda r: S.GammaSub(), lambda r: S.Beta(),
        lambda r: {"p": {"q": [{"r": 1}]}}, lambda r: [[[1.5]]], lambda r: ({"p": ({"q": 1},)},),
        lambda r: True, lambda r: b"x", lambda r: {1}, lambda r: frozenset({1}), lambda r: int, lambda r: S.Colour.RED]
NUM = [lambda r: r.randint(0, 9), lambda r: r.random()]


def group(r, depth):
    big = r.random() < .12
    n = r.randint(20, 120) if big else r.randint(1, 12)
    keys = [f"k{j}" for j in range(n)] if big or r.random() < .6 else [gen.WEIRD_KEYS[(j * 7 + 3) % len(gen.WEIRD_KEYS)] for j in range(n)]
    keys = list(dict.fromkeys(keys))
    n = len(keys)
    agree = r.random()
    vals = {k: (r.choice(VALS) if not big else r.choice(VALS[:5])) for k in keys}
    nums = {k for k in keys if r.random() < .3}
    common = r.randint(0, n)
    out = []
    for _ in range(r.choice([2, 2, 2, 3, 4, 8])):
        have = keys[:common] + [k for k in keys[common:] if r.random() < .5]
        if r.random() < .5:
            r.shuffle(have)
        d = {}
        for k in have:
            if k in nums:
                d[k] = r.choice(NUM)(r)
            elif r.random() < .02 * (agree > .6) * (1 if not big else .1):
                d[k] = r.choice(VALS)(r)
            else:
                d[k] = vals[k](r)
            if depth and r.random() < .06:
                d[k] = wrap(group(r, depth - 1), r)
        out.append(d)
    if r.random() < .3:
        out.append(dict(r.choice(out)))
    if r.random() < .3:
        out.append(r.choice([1, "s", None, {1: 2}, [1], (), {"k0": 1}, {}]))
    r.shuffle(out)
    return out


def wrap(g, r):
    p = r.random()
    if p < .05:
        return pd.Series(g, dtype=object)
    if p < .1:
        return pd.DataFrame({"column": pd.Series(g, dtype=object), "other": "x"})
    if p < .6:
        return g
    if p < .85:
        return tuple(g)
    if p < .93:
        return [g, g[:1]]
    return (g, tuple(g))


def similarity(ds):
    sets = [set(d) for d in ds if type(d) is dict and all(isinstance(k, str) for k in d)]
    if len(sets) < 2:
        return 50
    total = set.union(*sets)
    return 100 * len(set.intersection(*sets)) // len(total) if total else 50


def examine(data, kw, name="Example"):
    text = api.text_of(data, kw, name)
    m = model.Module(text, name)
    st = ref.Stats()
    want = ref.hint(data, kw, st)
    got = m.root()
    e = ref.explain(got, want)
    if e:
        raise Violation("the hint differs from the merge rule: " + e, data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
    return got, st, text


def cases(tier):
    return 20000 if tier == "quick" else 400000


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    g = group(r, r.choice([0, 0, 1]))
    s = similarity(g)
    threshold = min(100, max(1, r.choice([s, s, s + 1, s - 1, 50, 1, 100, r.randint(1, 100)])))
    kw = gen.strategies(r, dict_strategy="TypedDict", merge_different_typed_dicts_if_similarity_above=threshold, check_max_n_elements_within_container=r.choice([None, 500]))
    data = wrap(g, r)
    place = r.random()
    if place < .15:
        data = {"a": data}
    elif place < .25:
        data = {1: data, 2: [data]}
    elif place < .32:
        data = [data, [1]]
    got, st, text = examine(data, kw, gen.class_name(r))
    return CaseInfo((got, threshold), st["groups"] > 0, dict(st), sample=dict(data=safe_repr(data), strategies=api.diff_strategies(kw), text=text))


def directed(cx):
    def rounding(lo, hi):
        """Every number of common keys out of every total, at the exact percentage and one above."""
        def fn():
            n = 0
            for total in range(lo, hi):
                for common in range(total + 1):
                    p = 100 * common // total
                    a = {f"k{j}": 1 for j in range(common)}
                    b = dict(a, **{f"x{j}": 1 for j in range(total - common)})
                    for t in {p, p + 1} & set(range(1, 101)):
                        examine([a, b], dict(gen.DEFAULTS, merge_different_typed_dicts_if_similarity_above=t))
                        n += 1
            return CaseInfo("x", counts={"percentages": n})
        return fn

    for lo in range(1, 31, 5):
        yield f"rounding-{lo}", rounding(lo, lo + 5)
    yield "rounding-50", rounding(50, 51)
    yield "rounding-100", rounding(100, 101)
    if cx.tier == "thorough":
        for lo in range(31, 121):
            yield f"rounding-{lo}", rounding(lo, lo + 1)

    def pairs():
        """Every pair of value kinds under one common key."""
        import random
        n = 0
        for va in VALS:
            for vb in VALS:
                for w in (list, tuple, lambda x: [x, [1]], lambda x: {"a": x}, lambda x: {2: x}):
                    for extra in ({}, {"z": 1}):
                        rr = random.Random(1)
                        examine(w([{"k": va(rr), "c": 1}, dict({"k": vb(rr), "c": 1}, **extra)]), dict(gen.DEFAULTS))
                        n += 1
        return CaseInfo("x", counts={"value_pairs": n})

    yield "pairs", pairs


def required(tier):
    return {"groups_merged": 2000, "groups_conflict": 1000, "groups_at_threshold": 1000, "groups_just_below": 1000, "percentages": 900, "value_pairs": 5000}
