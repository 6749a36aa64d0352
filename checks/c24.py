"""C24: equal structures share one alias, different ones never do."""
import ast
import warnings
from types import MappingProxyType

import pandas as pd

from checks import c22
from vlib import api, gen, model, ref
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C24"
LEVEL = "exploration"
RULE = ("each case: (a) a list, any-size tuple, scalar set or iterator anywhere in random data gets further elements with the structure of earlier ones: the text must stay; (b) the annotations of all keys of a "
        "dictionary are compared pairwise with the structures of the values; (c) the alternatives of every union in the module are compared. Non-trivial: an element was added or two keys share; distinct by text.")


def cases(tier):
    return 40000 if tier == "quick" else 250000


def spots(v, out, kw, path=()):
    """Paths of the containers in v to which an element can be added."""
    if type(v) is list or type(v) is tuple and kw["tuple_size_strategy"] == "any size":
        if v:
            out.append(path)
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        for i, x in enumerate(v):
            spots(x, out, kw, (*path, i))
    elif type(v) is dict:
        for k, x in v.items():
            spots(x, out, kw, (*path, k))
    return out


def grown(v, path, r):
    """A copy of v in which the container at path has more elements of structures it already has."""
    if path:
        if type(v) is dict:
            return {k: grown(x, path[1:], r) if k is path[0] or (type(k) is type(path[0]) and k == path[0]) else x for k, x in v.items()}
        return type(v)(grown(x, path[1:], r) if i == path[0] else x for i, x in enumerate(v))
    items = list(v)
    for _ in range(r.randint(1, 4)):
        i = r.randrange(len(items))
        items.insert(r.randint(i + 1, len(items)), gen.revalue(items[i], r))
    return type(v)(items)


def unions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "Union" and isinstance(n.slice, ast.Tuple):
            yield n


def check_unions(mod, info):
    n_alt = 0
    for u in unions(mod.tree):
        alts = u.slice.elts
        seen = {}
        for a in alts:
            src = ast.unparse(a)
            if src in seen:
                raise Violation(f"a union lists {src} twice", **info)
            try:
                m = mod.model(eval(src, mod.ns))  # noqa: S307
            except Violation:
                continue
            except Exception:  # noqa: BLE001  evaluated elsewhere (C02)
                continue
            for other, mo in seen.items():
                if mo == m and m[0] not in ("proto", "callable"):
                    raise Violation(f"a union lists {other} and {src}, which are the same", **info)
            seen[src] = m
            n_alt += 1
    return n_alt


def annotations(mod, name):
    n = dict(mod.definitions()).get(name)
    if isinstance(n, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == "TypedDict" for b in n.bases):
        return {x.target.id: x.annotation for x in n.body if isinstance(x, ast.AnnAssign)}
    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
        d = n.value.args[1]
        return {ast.literal_eval(k): v for k, v in zip(d.keys, d.values)}
    return None


def check_aliases(mod, info, counts):
    """Keys of one TypedDict (of merged dictionaries, too) that mean the same are hinted alike."""
    for name, _ in mod.definitions():
        seen = {}
        for key, a in (annotations(mod, name) or {}).items():
            while isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ("NotRequired", "Required", "ReadOnly"):
                a = a.slice
            src = ast.unparse(a)
            try:
                m = mod.model(eval(src, mod.ns))  # noqa: S307
            except Violation:
                continue
            except Exception:  # noqa: BLE001  evaluated elsewhere (C02)
                continue
            if m[0] in ("proto", "callable"):
                continue
            other_key, other = seen.setdefault(m, (key, src))
            if other != src:
                raise Violation(f"{other_key!r} and {key!r} of {name} mean the same but are hinted as {other} and {src}", **info)
            counts["same_meaning"] += other_key != key


def check_keys(mod, name, data, kw, info, counts):
    ann = annotations(mod, name)
    if ann is None or set(ann) != set(data):
        return
    items = [(k, ref.hint(v, kw), ast.unparse(ann[k])) for k, v in data.items()]
    for i, (k1, m1, s1) in enumerate(items):
        for k2, m2, s2 in items[:i]:
            if m1 == m2 and s1 != s2:
                raise Violation(f"{k2!r} and {k1!r} have the same structure but are hinted as {s2} and {s1}", **info)
            if m1 != m2 and s1 == s2:
                raise Violation(f"{k2!r} and {k1!r} have different structures but share {s1}", **info)
            counts["shared" if m1 == m2 else "apart"] += 1
            counts["shared_containers"] += m1 == m2 and m1[0] in ("td", "list", "tuple", "dict", "seq", "vtuple", "map")
    for k, v in data.items():
        if type(v) is dict and v and all(isinstance(x, str) for x in v):
            a = ann[k]
            while isinstance(a, ast.Subscript):
                a = a.slice
            if isinstance(a, ast.Name):
                check_keys(mod, a.id, v, kw, info, counts)


def run_case(i, r, cx):
    kw = gen.strategies(r, check_max_n_elements_within_container=None)
    g = gen.Gen(r, gen.Features(dup=.6, weird_keys=.15, shared=.15, io=.02))
    name = gen.class_name(r)
    counts = dict(added=0, shared=0, apart=0, shared_containers=0, alternatives=0, sets=0, iterators=0, wide_mappings=0, same_meaning=0)
    data = g.container()
    if r.random() < .5:
        # several keys with similar values
        base = [g.value() for _ in range(r.randint(1, 3))]
        if i % 6 == 5:
            warnings.simplefilter("ignore")
            f = c22.frame(r, g)
            base = [*base, f, c22.variation(f, r, g), *(c22.relabelled(f, r) if f.shape[1] else ()), pd.Series([1, 2]), pd.Series(["s"]), pd.Series(r.sample([1, "s", None, 2.5], 2), dtype=object), pd.DataFrame({"a": [1], "b": ["s"]}), {"f": pd.DataFrame({"a": [1]})}, {"f": pd.DataFrame({"a": ["s"]})}]
            counts["with_frames"] = 1
        keys = r.sample(gen.WORDS, r.randint(2, 7))
        if r.random() < .02:
            keys = [f"key_{j}" for j in range(r.choice([17, 33, 65, 80, 101, 130, 200, 257]))]
            counts["wide_mappings"] += 1
        data = {k: gen.similar(r.choice(base), r, g) if r.random() < .8 else g.value(2) for k in keys}
        if r.random() < .1:
            # dictionaries that can be merged, with one value under different keys
            common = dict.fromkeys(r.sample(gen.WORDS, r.randint(2, 6)), 1)
            moved = {"moved_" + g.key_str(): g.leaf(), "other": r.choice(base)}
            moved = r.choice([moved, [moved], {"of": moved}])
            data = [{**common, k: gen.revalue(moved, r)} for k in r.sample(["left", "right", "upper"], r.randint(2, 3))]
            data = data if r.random() < .5 else {"merged": data, "value": moved}
            counts["moved"] = 1
        elif r.random() < .3:
            data = {j: v for j, v in enumerate(data.values())}
        elif r.random() < .1:
            data = MappingProxyType(data)
    text = api.text_of(data, kw, name)
    info = dict(data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
    mod = model.Module(text, name)
    counts["alternatives"] = check_unions(mod, info)
    check_aliases(mod, info, counts)
    if type(data) is dict and all(isinstance(k, str) for k in data) and kw["dict_strategy"] == "TypedDict":
        check_keys(mod, name, data, kw, info, counts)
    ps = spots(data, [], kw)
    for path in r.sample(ps, min(len(ps), 2)):
        more = grown(data, path, r)
        t = api.text_of(more, kw, name)
        if t != text:
            raise Violation(f"adding elements of structures already present at {path} changes the text", more=more, new_text=t, **info)
        counts["added"] += 1
    if r.random() < .3 and type(data) is list and data:
        a = api.text_of(iter(data), kw, name)
        b = api.text_of(iter(grown(data, (), r)), kw, name)
        if a != b:
            raise Violation("adding elements of structures already present to an iterator changes the text", a=a, b=b, **info)
        counts["iterators"] += 1
    if r.random() < .2:
        pool = [1, 2, 3, "a", "b", 1.5, 2.5, None, True, b"x", b"y"]
        s = set(r.sample(pool, r.randint(1, 4)))
        s2 = s | {x for x in pool if any(type(x) is type(y) for y in s)}
        for t in (set, frozenset):
            if api.text_of(t(s), kw, name) != api.text_of(t(s2), kw, name):
                raise Violation("adding scalars of types already present to a set changes the text", small=s, large=s2, strategies=api.diff_strategies(kw))
        counts["sets"] += 1
    return CaseInfo(text, counts["added"] > 0 or counts["shared"] > 0, counts, sample=dict(data=safe_repr(data), text=text))


def required(tier):
    return {"added": 3000, "shared": 3000, "apart": 5000, "shared_containers": 1000, "alternatives": 5000, "sets": 500, "iterators": 200, "wide_mappings": 30, "with_frames": 1000, "same_meaning": 3000, "moved": 800}
