"""C09: container strategies are honoured everywhere and change nothing else."""
import warnings

from checks import c02
from vlib import api, gen, model, ref
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C09"
LEVEL = "exploration"
RULE = ("each case: random data generated under a random base strategy and under every alternative of each container strategy; executed hints are compared pairwise through the transformation the "
        "strategy stands for, and each with a reference model. Non-trivial: some flip changes the hint; distinct by base hint.")


def mapped(m, fn):
    """Rebuild a model bottom-up, applying fn to every node."""
    k = m[0]
    if k == "union":
        return fn(model.mk_union([mapped(x, fn) for x in m[1]]))
    if k in ("list", "seq", "set", "fset", "vtuple", "series"):
        return fn((k, mapped(m[1], fn)))
    if k == "dfc":
        return fn((k, tuple((a, b, mapped(c, fn)) for a, b, c in m[1])))
    if k == "tuple":
        return fn((k, tuple(mapped(x, fn) for x in m[1])))
    if k in ("dict", "map", "mproxy"):
        return fn((k, mapped(m[1], fn), mapped(m[2], fn)))
    if k == "td":
        return fn((k, tuple((a, b, c, mapped(d, fn)) for a, b, c, d in m[1])))
    return fn(m)


def count(m, kinds):
    n = 0

    def see(x):
        nonlocal n
        n += x[0] in kinds
        return x

    mapped(m, see)
    return n


def absent(m, kinds, what, info):
    if count(m, kinds):
        raise Violation(f"{what} was not applied everywhere: {model.show(m)[:500]}", **info)


def cases(tier):
    return 20000 if tier == "quick" else 100000


def run_case(i, r, cx):
    kw = gen.strategies(r, check_max_n_elements_within_container=r.choice([None, 500]))
    g = gen.Gen(r, gen.Features(dup=r.choice([.2, .6]), callables=.02, io=.01))
    data = g.container()
    framed = i % 7 == 6
    if framed:
        warnings.simplefilter("ignore")
        data = c02.with_frames(r, g, data)
    name = gen.class_name(r)
    seen = {}

    def hint(**change):
        k = dict(kw, **change)
        text = api.text_of(data, k, name)
        m = model.Module(text, name).root()
        info = dict(data=data, strategies=api.diff_strategies(k), class_name=name, text=text)
        e = ref.explain(m, ref.hint(data, k))
        if e:
            raise Violation("the hint differs from what these strategies stand for: " + e, **info)
        if k["list_strategy"] == "list":
            absent(m, ("seq",), "list_strategy=list", info)
        else:
            absent(m, ("list",), "list_strategy=Sequence", info)
        if k["tuple_size_strategy"] == "any size":
            absent(m, ("tuple",), "tuple_size_strategy=any size", info)
        if k["dict_strategy"] != "Mapping":
            absent(m, ("map",), f"dict_strategy={k['dict_strategy']}", info)
        else:
            absent(m, ("td", "dict"), "dict_strategy=Mapping", info)
        if k["dict_strategy"] == "dict":
            absent(m, ("td",), "dict_strategy=dict", info)
        return m, info

    base, info = hint()
    counts = {"lists": count(base, ("list", "seq")), "tuples": count(base, ("tuple", "vtuple")), "dicts": count(base, ("dict", "map")), "typed_dicts": count(base, ("td",)), "with_frames": framed and count(base, ("series", "dfc"))}

    def same(a, b, what):
        e = ref.explain(a, b)
        if e:
            raise Violation(f"{what} changes something else: {e}", **info)

    other = "Sequence" if kw["list_strategy"] == "list" else "list"
    m, _ = hint(list_strategy=other)
    swap = {"list": "seq", "seq": "list"}
    same(m, mapped(base, lambda x: (swap[x[0]], *x[1:]) if x[0] in swap else x), f"list_strategy={other}")
    changed = m != base
    ro = not kw["typed_dict_read_only_values"]
    m, _ = hint(typed_dict_read_only_values=ro)
    same(m, mapped(base, lambda x: ("td", tuple((a, b, ro, d) for a, b, _c, d in x[1])) if x[0] == "td" else x), f"typed_dict_read_only_values={ro}")
    changed |= m != base
    if kw["dict_strategy"] in ("dict", "Mapping"):
        other = "dict" if kw["dict_strategy"] == "Mapping" else "Mapping"
        m, _ = hint(dict_strategy=other)
        swap2 = {"dict": "map", "map": "dict"}
        same(m, mapped(base, lambda x: (swap2[x[0]], *x[1:]) if x[0] in swap2 else x), f"dict_strategy={other}")
        changed |= m != base
        m, _ = hint(dict_strategy="TypedDict")
    else:
        for other in ("dict", "Mapping"):
            m, _ = hint(dict_strategy=other)
            changed |= m != base
    other = "fixed" if kw["tuple_size_strategy"] == "any size" else "any size"
    m, _ = hint(tuple_size_strategy=other)
    if not count(base, ("tuple", "vtuple")):
        same(m, base, f"tuple_size_strategy={other}")
    changed |= m != base
    return CaseInfo(base, changed, {**counts, "flips_with_effect": changed}, sample=dict(data=safe_repr(data), strategies=api.diff_strategies(kw), text=info["text"]), evals=5)


def required(tier):
    return {"lists": 1500, "tuples": 700, "dicts": 500, "typed_dicts": 1500, "flips_with_effect": 2000, "with_frames": 1500}
