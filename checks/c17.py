"""C17: the live tool hands back the caller's data untouched."""
import collections
import os
import warnings
from pathlib import Path
from types import MappingProxyType

import yaml

from checks.c04 import Recorder, decorate
from vlib import api, gen, live, samples as S, snapshot, yamlgen
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C17"
LEVEL = "exploration"
RULE = ("each case: a history of 1-6 live calls (from_data with deep structures, from_yaml_file with commented documents and several loaders) by one or two tools in both modes; the returned object must be the given one, "
        "with an unchanged deep snapshot (rejected calls included), or equal in type, order and content to what the loader returns. Non-trivial: 2+ calls; distinct by the data of the history.")
ASSUMPTIONS = ["iterators are consumed by inspection by design and are left out", "loaders return equal data for equal paths"]


def typed(v):
    """Everything about plain data, as a comparable value."""
    t = type(v)
    if isinstance(v, dict):
        return (t.__name__, [(typed(k), typed(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (t.__name__, [typed(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return (t.__name__, sorted(map(repr, v)))
    return (t.__name__, safe_repr(v))


def loaders(r):
    kind = r.choice(["safe", "safe", "full", "ordered", "default", "wrapped", "tuple", "proxy"])

    def load(p):
        with open(p, "rb") as f:
            d = (yaml.full_load if kind == "full" else yaml.safe_load)(f)
        if kind in ("ordered", "default"):
            def conv(v):
                if isinstance(v, dict):
                    v = {k: conv(x) for k, x in v.items()}
                    return collections.OrderedDict(v) if kind == "ordered" else collections.defaultdict(list, v)
                return [conv(x) for x in v] if isinstance(v, list) else v
            return conv(d)
        if kind == "wrapped":
            return {"n": 1, "content": d}
        if kind == "tuple":
            return (d, [d])
        if kind == "proxy" and isinstance(d, dict):
            return MappingProxyType(d)
        return d

    return load, kind


def cases(tier):
    return 5000 if tier == "quick" else 80000


def run_case(i, r, cx):
    if not hasattr(run_case, "w"):
        run_case.w = live.world(cx)
    w = run_case.w
    w.wipe()
    warnings.simplefilter("ignore")
    kw = gen.strategies(r)
    if r.random() < .3:
        kw["key_used_as_doc"] = r.choice(["name", "a", "doc"])
    if r.random() < .3:
        kw["check_max_n_elements_within_container"] = r.randint(1, 4)
    kws = [kw, gen.strategies(r)]
    modes = [r.choice(["overwrite", "validate"]), r.choice(["overwrite", "validate", None])]
    tools = [(w.tool(kws[0], modes[0]), modes[0]), (w.tool(kws[r.choice([0, 1])], modes[1]), modes[1])]
    names = r.sample(live.NAMES, 2)
    last = None
    counts = collections.Counter()
    history = []
    for step in range(r.choice([1, 2, 3, 4, 6])):
        tool, mode = r.choice(tools)
        name = r.choice(names)
        if r.random() < .6:
            if last is not None and r.random() < .35:
                data = last
            elif last is not None and r.random() < .3 and isinstance(last, (dict, list)):
                data = r.choice([gen.similar, gen.nearby])(last, r)
            else:
                data = decorate(gen.Gen(r, gen.Features(callables=.03, shared=.2, dup=.5)).container(), r)
            if r.random() < .1:
                data = r.choice([None, 5, "text", S.Alpha(), 2.5, b"x"])
            last = data
            history.append(("data", name, safe_repr(data)))
            snap0, keep = snapshot.snapshot(data)
            Recorder.log.clear()
            S.Sentinel.touched.clear()
            try:
                back = tool.from_data(data, name) if r.random() < .5 else tool.from_data(data=data, class_name=name)
                counts["from_data"] += 1
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ not in live.TOOL_ERRORS or mode != "validate":
                    raise Violation(f"the call fails: {type(e).__name__}: {e}", history=history, strategies=api.diff_strategies(kw)) from None
                back = data
                counts["rejected"] += 1
            if back is not data:
                raise Violation("from_data does not return the object it was given", history=history, returned=back)
            d = snapshot.difference(snap0, snapshot.snapshot(data)[0])
            if d or Recorder.log or S.Sentinel.touched:
                raise Violation(f"the data was changed: {d or Recorder.log[:3] or S.Sentinel.touched}", history=history, strategies=api.diff_strategies(kw))
            counts["objects"] += len(snap0)
        else:
            text = yamlgen.hostile(r)
            path = cx.scratch.tmp / f"c17_{os.getpid()}.yaml"
            path.write_bytes(text.encode())
            load, kind = loaders(r)
            try:
                want = typed(load(path))
            except Exception:  # noqa: BLE001
                counts["not_loadable"] += 1
                continue
            pos = r.choice([*yamlgen.POSITIONS, "default", "default"])
            args = {} if pos == "default" else {"comments_are": pos}
            history.append(("yaml", name, text, pos, kind))
            given = []

            def loader(p):
                d = load(p)
                given.append((d, snapshot.snapshot(d)))
                return d

            try:
                back = tool.from_yaml_file(loader, str(path) if r.random() < .5 else Path(path), class_name=name, **args)
            except Exception as e:  # noqa: BLE001
                if type(e).__name__ not in live.TOOL_ERRORS or mode != "validate":
                    raise Violation(f"the call fails: {type(e).__name__}: {e}", history=history) from None
                counts["rejected"] += 1
                continue
            if typed(back) != want:
                raise Violation("from_yaml_file returns something else than loader(path)", history=history, returned=back, loaded=load(path))
            counts["from_yaml_file"] += 1
            counts["commented"] += len(given) > 1
            for d, (s, _keep) in given:
                if d is back:
                    diff = snapshot.difference(s, snapshot.snapshot(d)[0])
                    if diff:
                        raise Violation(f"the loaded data was changed: {diff}", history=history)
    return CaseInfo(repr(history), len(history) > 1, dict(counts), sample=history[:2])


def required(tier):
    return {"from_data": 3000, "from_yaml_file": 1000, "rejected": 200, "commented": 500, "objects": 30000}
