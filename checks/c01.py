"""C01 soundness: the data conforms to the hint generated from it."""
from vlib import api, gen, model
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C01"
LEVEL = "exploration"
RULE = ("each case: seeded random nested data + strategies + class name; the generated module is executed and the data is "
        "checked against the executed type at every position. Non-trivial: the hint has at least 3 type nodes; distinct by hint model.")


def cases(tier):
    return 60000 if tier == "quick" else 1500000


def run_case(i, r, cx):
    kw = gen.strategies(r)
    g = gen.Gen(r, gen.Features(io=.02))
    data = g.container() if r.random() < .97 else g.leaf()
    name = gen.class_name(r)
    text = api.text_of(data, kw, name)
    m = model.Module(text, name)
    t = m.root()
    if not model.fits(data, t, False):
        raise Violation("data does not conform: " + str(model.why_not(data, t, False)), data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
    n = model.count_nodes(t)
    ks = model.kinds(t)
    return CaseInfo(t, n >= 3, {"type_nodes": n, **{"kind_" + k: 1 for k in ks}}, sample=dict(data=safe_repr(data), strategies=api.diff_strategies(kw), text=text))


def required(tier):
    return {"kind_td": 500, "kind_union": 500, "kind_tuple": 200, "kind_dict": 200, "kind_set": 50, "kind_fset": 50, "kind_mproxy": 50, "kind_notrequired": 100}
