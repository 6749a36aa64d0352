"""C04: generating and rendering never changes the caller's data, nor the process."""
import collections
import warnings

import numpy as np
import pandas as pd

from vlib import api, gen, samples as S, snapshot, watch
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C04"
LEVEL = "exploration"
RULE = ("each case: random nested data with shared substructures, dict subclasses with side effects, sentinels, arrays and frames; deep snapshots (identity, type, "
        "order, contents) and interpreter state before and after generation and repeated rendering. Non-trivial: at least 5 objects snapshotted; distinct by structure.")
ASSUMPTIONS = ["iterators are consumed by inspection by design and are left out"]


def cases(tier):
    return 15000 if tier == "quick" else 120000


def frame(r):
    n = r.randint(0, 3)
    cols = r.sample(["a", "b", 1, 2, True, "c d"], r.randint(1, 4))
    if r.random() < .3:
        df = pd.DataFrame({(str(c), j): [gen.scalar(r) for _ in range(n)] for j, c in enumerate(cols)})
    else:
        df = pd.DataFrame({c: [r.choice([1, 2.5, "x", None]) for _ in range(n)] for c in cols})
    return df if r.random() < .7 else df[df.columns[0]]


class Recorder(dict):
    """A dictionary that notices being changed."""

    log: list = []

    def __setitem__(self, k, v):
        Recorder.log.append(("setitem", k))
        super().__setitem__(k, v)

    def __delitem__(self, k):
        Recorder.log.append(("delitem", k))
        super().__delitem__(k)

    def __missing__(self, k):
        Recorder.log.append(("missing", k))
        raise KeyError(k)

    def pop(self, *a):
        Recorder.log.append(("pop", a))
        return super().pop(*a)

    def update(self, *a, **k):
        Recorder.log.append(("update",))
        super().update(*a, **k)


class ListRecorder(list):
    def append(self, x):
        Recorder.log.append(("append", x))
        super().append(x)

    def sort(self, *a, **k):
        Recorder.log.append(("sort",))
        super().sort(*a, **k)

    def pop(self, *a):
        Recorder.log.append(("lpop", a))
        return super().pop(*a)

    def __setitem__(self, k, v):
        Recorder.log.append(("lset", k))
        super().__setitem__(k, v)


def decorate(v, r):
    """Put containers that notice changes, default dicts, frames and sentinels into the data."""
    if type(v) is dict:
        out = {k: decorate(x, r) for k, x in v.items()}
        p = r.random()
        if p < .1:
            return Recorder(out)
        if p < .2:
            return collections.defaultdict(list, out)
        if p < .25:
            return collections.OrderedDict(out)
        if p < .32:
            out["sentinel"] = S.Sentinel()
        return out
    if type(v) is list:
        out = [decorate(x, r) for x in v]
        if r.random() < .1:
            out.append(S.Sentinel())
        if r.random() < .08:
            out.append(frame(r))
        return ListRecorder(out) if r.random() < .1 else out
    if type(v) is tuple:
        return tuple(decorate(x, r) for x in v) + ((S.Sentinel(),) if r.random() < .1 else ())
    return v


def run_case(i, r, cx):
    from lazy_type_hint import LazyTypeHint

    kw = gen.strategies(r)
    if r.random() < .3:
        kw["key_used_as_doc"] = r.choice(["name", "a", "doc"])
    if r.random() < .3:
        kw["check_max_n_elements_within_container"] = r.randint(1, 4)
    data = S.Sentinel() if i % 100 == 3 else decorate(gen.Gen(r, gen.Features(callables=.04, shared=.2, io=.03, dup=.6)).container(), r)
    Recorder.log.clear()
    S.Sentinel.touched.clear()
    snap0, keep = snapshot.snapshot(data)
    with warnings.catch_warnings():
        state0 = watch.global_state()
        st = api.make_strategies(kw)
        tool = LazyTypeHint(st)
        renders = 0
        with watch.recording() as events:
            try:
                for _ in range(r.randint(1, 2)):
                    tree = tool.from_data(data, class_name="Example")
                    for _ in range(r.randint(1, 3)):
                        tree.to_string(include_imports=r.random() < .5)
                        renders += 1
            except Exception as e:  # noqa: BLE001
                raise Violation(f"fails: {type(e).__name__}: {e}", data=data, strategies=api.diff_strategies(kw)) from None
        state1 = watch.global_state()
    snap1, _ = snapshot.snapshot(data)
    d = snapshot.difference(snap0, snap1)
    info = dict(data=data, strategies=api.diff_strategies(kw))
    if d:
        raise Violation("the data changed: " + d, **info)
    if Recorder.log:
        raise Violation(f"the data was written to: {Recorder.log[:5]}", **info)
    if S.Sentinel.touched:
        raise Violation(f"a user object's own methods were invoked: {sorted(set(S.Sentinel.touched))}", **info)
    if events:
        raise Violation(f"the file system was changed: {events[:5]}", **info)
    sd = watch.state_diff(state0, state1)
    if sd:
        raise Violation(f"global state changed: {sd}", **info)
    if st != api.make_strategies(kw):
        raise Violation("the strategies changed", **info)
    kinds = {t.__name__ for t, _ in snap0.values()}
    return CaseInfo(safe_repr(data), len(snap0) >= 5, {"objects": len(snap0), "renders": renders, "with_frame": "DataFrame" in kinds, "with_sentinel": "Sentinel" in kinds,
                                                  "with_recorder": "Recorder" in kinds or "ListRecorder" in kinds, "with_defaultdict": "defaultdict" in kinds},
                    sample=dict(data=safe_repr(data), objects=len(snap0)))


def required(tier):
    return {"objects": 10000, "with_frame": 30, "with_sentinel": 100, "with_recorder": 100, "with_defaultdict": 100}
