"""Reference model: what hint a data structure must get under given strategies (pandas aside).

Leaves are taken from the tool itself (each leaf alone); everything about containers,
their strategies, limits and the merging of dictionaries is specified here."""
from __future__ import annotations

import collections.abc
from types import MappingProxyType

import pandas as pd

from vlib import api, gen, model

INT, FLOAT = ("cls", "int"), ("cls", "float")
_leaf: dict = {}


class Stats(collections.Counter):
    pass


def leaf(v):
    key = (type(v), id(v)) if callable(v) or hasattr(v, "dtype") else type(v)
    if key not in _leaf:
        if len(_leaf) > 5000:
            _leaf.clear()
        _leaf[key] = (model.Module(api.text_of(v, dict(gen.DEFAULTS), "Leaf_"), "Leaf_").root(), v)
    return _leaf[key][0]


def union(ms):
    ms = set(ms)
    if FLOAT in ms:
        ms.discard(INT)
    return model.mk_union(ms) if ms else model.ANY


def key_model(k):
    if k is None:
        return model.NONE
    import builtins
    t = type(k)
    return ("cls", t.__name__) if getattr(builtins, t.__name__, None) is t else ("fwd", t.__name__)


def key_union(keys):
    ms = {key_model(k) for k in keys}
    if FLOAT in ms:
        ms.discard(INT)
    return model.mk_union(ms) if ms else model.ANY


def cut(items, n):
    items = list(items)
    return items if n is None else items[:n]


def merge(ms, threshold, stats=None):
    """The models of the elements of one container -> the same list with similar TypedDicts merged."""
    tds = list(dict.fromkeys(m for m in ms if m[0] == "td"))
    if len(tds) < 2:
        return ms
    keysets = [{x[0] for x in m[1]} for m in tds]
    common, total = set.intersection(*keysets), set.union(*keysets)
    percent = 100 * len(common) // len(total) if total else 0
    per_key = collections.defaultdict(set)
    ro = False
    for m in tds:
        for key, _req, r, t in m[1]:
            per_key[key].add(t)
            ro = ro or r
    for key, ts in per_key.items():
        if FLOAT in ts:
            ts.discard(INT)
    agree = all(len(ts) == 1 for ts in per_key.values())
    if stats is not None:
        stats["groups"] += 1
        stats["groups_similar"] += percent >= threshold
        stats["groups_conflict"] += not agree
        stats["groups_at_threshold"] += percent == threshold
        stats["groups_just_below"] += percent + 1 == threshold
        stats["groups_merged"] += agree and percent >= threshold
    if percent < threshold or not agree:
        return ms
    merged = ("td", tuple(sorted(((k, k in common, ro, next(iter(ts))) for k, ts in per_key.items()), key=lambda x: x[0])))
    return [merged if m[0] == "td" else m for m in ms]


def plain_label(x):
    """(type, label): labels of types that inherit from str, bool or int are equal to plain ones."""
    t = next(t for t in (str, bool, int) if isinstance(x, t))
    return t.__name__, str.__str__(x) if t is str else t(x)


def frame_hint(df, kw, stats):
    labels = list(df.columns)
    plain = kw["pandas_strategies"] == "Do not type hint columns" or not df.columns.is_unique
    if df.columns.nlevels > 1:
        labels = list(dict.fromkeys(x[0] for x in labels))
        plain = plain or any(not isinstance(x, (str, int, bool)) for x in labels)
    else:
        tuples = [x for x in labels if isinstance(x, tuple)]
        others = [x for x in labels if not isinstance(x, tuple)]
        plain = plain or not others or any(not isinstance(x, (str, int, bool)) for x in others)
        plain = plain or any(not x or not isinstance(x[0], (str, int, bool)) for x in tuples)
        labels = others
    if plain or not labels:
        return ("df",)
    return ("dfc", tuple((*plain_label(x), hint(df[x], kw, stats)) for x in labels))


def hint(v, kw, stats=None):
    n = kw["check_max_n_elements_within_container"]
    if isinstance(v, pd.DataFrame):
        return frame_hint(v, kw, stats)
    if isinstance(v, pd.Series):
        return ("series", union(merge([hint(x, kw, stats) for x in cut(v, n)], kw["merge_different_typed_dicts_if_similarity_above"], stats)))
    if isinstance(v, MappingProxyType):
        items = cut(v.items(), n)
        return ("mproxy", key_union(k for k, _ in items), union(hint(x, kw, stats) for _, x in items))
    if isinstance(v, dict):
        if kw["dict_strategy"] == "TypedDict" and all(isinstance(k, str) for k in v):
            ro = kw["typed_dict_read_only_values"]
            return ("td", tuple(sorted(((k, True, ro, hint(x, kw, stats)) for k, x in v.items()), key=lambda x: x[0])))
        items = list(v.items()) if kw["dict_strategy"] == "TypedDict" else cut(v.items(), n)
        kind = "map" if kw["dict_strategy"] == "Mapping" else "dict"
        return (kind, key_union(k for k, _ in items), union(hint(x, kw, stats) for _, x in items))
    if isinstance(v, (list, tuple, set, frozenset)):
        ms = merge([hint(x, kw, stats) for x in cut(v, n)], kw["merge_different_typed_dicts_if_similarity_above"], stats)
        if isinstance(v, list):
            return ("list" if kw["list_strategy"] == "list" else "seq", union(ms))
        if isinstance(v, tuple):
            if not ms:
                return ("vtuple", model.ANY)
            return ("tuple", tuple(ms)) if kw["tuple_size_strategy"] == "fixed" else ("vtuple", union(ms))
        return ("fset" if isinstance(v, frozenset) else "set", union(ms))
    return leaf(v)


def flat(m):
    """Unions inside unions and the spelling of None do not matter."""
    return m


def explain(got, want, path="data"):
    if got == want:
        return None
    if got[0] != want[0]:
        return f"{path}: {model.show(got)[:400]} instead of {model.show(want)[:400]}"
    k = got[0]
    if k == "td":
        g, w = {x[0]: x for x in got[1]}, {x[0]: x for x in want[1]}
        if g.keys() != w.keys():
            return f"{path}: keys {sorted(g)} instead of {sorted(w)}"
        for key in g:
            if g[key][:3] != w[key][:3]:
                return f"{path}[{key!r}]: (required, read-only) is {g[key][1:3]} instead of {w[key][1:3]}"
            e = explain(g[key][3], w[key][3], f"{path}[{key!r}]")
            if e:
                return e
    if k in ("list", "seq", "set", "fset", "vtuple"):
        return explain(got[1], want[1], path + "[*]")
    if k == "tuple" and len(got[1]) == len(want[1]):
        for i, (a, b) in enumerate(zip(got[1], want[1])):
            if a != b:
                return explain(a, b, f"{path}[{i}]")
    if k in ("dict", "map", "mproxy"):
        return explain(got[1], want[1], path + " keys") or explain(got[2], want[2], path + "[*]")
    if k == "union":
        extra, miss = got[1] - want[1], want[1] - got[1]
        if len(extra) == len(miss) == 1:
            return explain(next(iter(extra)), next(iter(miss)), path)
        return f"{path}: unexpected {[model.show(x)[:200] for x in extra]}, missing {[model.show(x)[:200] for x in miss]}"
    return f"{path}: {model.show(got)[:400]} instead of {model.show(want)[:400]}"
