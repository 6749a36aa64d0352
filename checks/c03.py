"""C03 precision: the hint claims nothing that the data does not witness."""
from vlib import api, gen, model
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C03"
LEVEL = "exploration"
RULE = ("each case: seeded random nested data + strategies; the executed hint is compared with all values seen at every position: each union member, key, "
        "NotRequired mark and tuple length needs a witness. Non-trivial: at least 3 type nodes; distinct by hint model.")


def cases(tier):
    return 60000 if tier == "quick" else 1500000


def run_case(i, r, cx):
    kw = gen.strategies(r)
    g = gen.Gen(r, gen.Features(io=.02))
    data = g.container() if r.random() < .97 else g.leaf()
    name = gen.class_name(r)
    text = api.text_of(data, kw, name)
    m = model.Module(text, name)
    t = m.root()
    why = model.precise([data], t)
    if why:
        raise Violation("not precise: " + why, data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
    n = model.count_nodes(t)
    ks = model.kinds(t)
    return CaseInfo(t, n >= 3, {"type_nodes": n, **{"kind_" + k: 1 for k in ks}}, sample=dict(data=safe_repr(data), strategies=api.diff_strategies(kw), text=text))


def required(tier):
    return {"kind_td": 500, "kind_union": 500, "kind_tuple": 200, "kind_dict": 200, "kind_set": 50, "kind_fset": 50, "kind_notrequired": 100, "kind_any": 50}
