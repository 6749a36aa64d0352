"""C06: rendering has no memory."""
import ast

from vlib import api, gen
from vlib.runner import CaseInfo, Violation

PROP = "C06"
LEVEL = "exploration"
RULE = ("each case: one tree rendered by a random sequence of 2-8 to_string(with/without imports)/str/to_file calls; every result is compared with the first rendering of a freshly "
        "generated tree with the same arguments; with and without imports are compared by syntax tree. Non-trivial: sequence mixes arguments and text has 2+ lines; distinct by (text, sequence).")


def cases(tier):
    return 24000 if tier == "quick" else 120000


def run_case(i, r, cx):
    kw = gen.strategies(r)
    if r.random() < .3:
        kw["key_used_as_doc"] = r.choice(["name", "a"])
    g = gen.Gen(r, gen.Features(callables=.06, weird_keys=.4))
    data = g.container() if r.random() < .9 else g.leaf()
    name = gen.class_name(r)
    info = dict(data=data, strategies=api.diff_strategies(kw), class_name=name)
    fresh = {b: api.text_of(data, kw, name, include_imports=b) for b in (True, False)}
    default = api.text_of(data, kw, name)
    if default != fresh[True]:
        raise Violation("to_string() is not to_string(include_imports=True)", **info)
    tree = api.tree_of(data, kw, name)
    seq = []
    path = cx.scratch.tmp / f"c06_{i}.py"
    for _ in range(r.randint(2, 8)):
        op = r.choice(["T", "F", "F", "T", "file", "default"])
        seq.append(op)
        try:
            if op == "file":
                tree.to_file(path)
                got, want = path.read_bytes().decode("utf-8"), fresh[True]
                want = want.replace("\r\n", "\n") if False else want
            elif op == "default":
                got, want = tree.to_string(), fresh[True]
            else:
                got, want = tree.to_string(include_imports=op == "T"), fresh[op == "T"]
        except Exception as e:  # noqa: BLE001
            raise Violation(f"rendering fails after {seq}: {type(e).__name__}: {e}", **info) from None
        if got != want:
            raise Violation(f"after {seq}: differs from a fresh tree", got=got, want=want, **info)
    if path.exists():
        path.unlink()
    try:
        w, wo = ast.parse(fresh[True]), ast.parse(fresh[False])
    except SyntaxError as e:
        raise Violation(f"not Python: {e}", **info) from None
    imports = (ast.Import, ast.ImportFrom)
    if any(isinstance(n, imports) for n in wo.body):
        raise Violation("imports although told not to include them", text=fresh[False], **info)
    body = list(w.body)
    while body and isinstance(body[0], imports):
        body.pop(0)
    if [ast.dump(x) for x in body] != [ast.dump(x) for x in wo.body]:
        raise Violation("with imports, more changes than import statements in front", with_imports=fresh[True], without=fresh[False], **info)
    return CaseInfo(fresh[True] + "".join(seq), len(set(seq)) > 1 and fresh[True].count("\n") > 1, {"renderings": len(seq), "mixed": len(set(seq)) > 1, "to_file": seq.count("file")},
                    sample=dict(sequence=seq, text=fresh[True]), evals=len(seq))


def required(tier):
    return {"mixed": 1000, "to_file": 500}
