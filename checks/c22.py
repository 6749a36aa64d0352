"""C22: DataFrame hints give every column its own accurate type."""
import ast
import warnings

import numpy as np
import pandas as pd

from vlib import api, gen, model, ref
from vlib import samples as S
from vlib.runner import CaseInfo, Violation

PROP = "C22"
LEVEL = "exploration"
RULE = ("each case: 1-3 DataFrames with random labels (str, int, bool, mixed, multi-level, tuples, other types), dtypes and elements, at random places; the executed hint is compared with what indexing each label "
        "returns, and frames that differ must not share a hint. Non-trivial: at least 2 columns are typed; distinct by hint and strategy.")
ASSUMPTIONS = ["Series hints are read with pd.Series made subscriptable (finding recorded for C02)"]

STR = ["a", "b", "A", "x y", "1", "", " ", "-", "?!", "class", "é", "名", "it's", 'q"q', "a\nb", "back\\slash", "{x}", "#", "a=b", "very long column label for the overloads", "B", "a-b", "a_b", "self", "key", "True"]


def labels(r, n):
    kind = r.random()
    if kind < .35:
        return r.sample(STR, n)
    if kind < .5:
        return r.sample(range(-3, 20), n)
    if kind < .53:
        return r.sample([*S.Word, *S.Code, S.ShownStr("q"), np.str_("n"), 5, "z"], n)
    if kind < .58:
        return r.sample([True, False], min(n, 2))
    if kind < .75:
        return r.sample(r.choice([[*STR[:7], 2, 3, 5, -1, True, False], ["1", 1, "a", "-1", -1, "0", 0, "True", "False"]]), n)
    if kind < .8:
        return r.sample([*STR[:4], 1.5, None, pd.Timestamp("2020-01-01"), b"x"], n)
    if kind < .85:
        return r.sample([*STR[:4], ("a", "b"), ("c", "d"), 2], n)
    if kind < .88:
        return r.sample([("a", "b"), ("c", "d"), ("a", "x"), ("e",)], min(n, 4))
    if kind < .9:
        return [r.choice(["a", "b"]) for _ in range(n)]
    raise StopIteration


def columns(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    if n and r.random() < .25:
        depth = r.choice([2, 2, 3])
        first = r.choice([STR[:5], STR[4:9], [1, 2, 3], ["a", 2, True, "b"], ["a", 1.5], ["1", 1, "a", "A"], [S.Word.NAME, S.Word.DASHED, S.Code.OK, "a"], ["True", True, "0", 0]])
        rest = r.choice([["x", "y", ""], [1, 2, "x"], ["x", "y", 2.5], ["", "x"]])
        tuples = list(dict.fromkeys((r.choice(first), *(r.choice(rest) for _ in range(depth - 1))) for _ in range(n)))
        if r.random() < .1 and tuples:
            tuples.append(tuples[0])
        return pd.MultiIndex.from_tuples(tuples)
    while True:
        try:
            ls = labels(r, n)
        except StopIteration:
            continue
        return pd.Index(ls, dtype=object, tupleize_cols=False) if r.random() < .6 or any(isinstance(x, (tuple, S.Code)) for x in ls) else pd.Index(ls)


def column(r, g, rows):
    k = r.random()
    if k < .45:
        dt = r.choice(["int", "float", "str", "bool", "dt", "td", "cat", "Int64", "string", "none", "float32", "boolean"])
        vals = {"int": lambda: r.randint(0, 9), "float": r.random, "str": lambda: "s", "bool": lambda: r.random() < .5, "dt": lambda: pd.Timestamp("2020-01-01"), "td": lambda: pd.Timedelta(1), "cat": lambda: r.choice("ab"),
                "Int64": lambda: r.choice([1, 2]), "string": lambda: "x", "none": lambda: None, "float32": r.random, "boolean": lambda: True}[dt]
        s = [vals() for _ in range(rows)]
        if dt == "cat":
            return pd.Series(s, dtype="category")
        if dt in ("Int64", "string", "float32", "boolean"):
            return pd.Series(s, dtype=dt)
        return pd.Series(s) if rows else pd.Series(s, dtype=object)
    pool = [g.leaf() for _ in range(r.randint(1, 3))] if k < .7 else [g.value() for _ in range(2)] if k < .85 else [1, 2.5, "x", None, True]
    out = np.empty(rows, dtype=object)
    for j in range(rows):
        out[j] = r.choice(pool)
    return pd.Series(out, dtype=object)


def frame(r, g, rows=None):
    rows = r.choice([0, 1, 2, 3, 5]) if rows is None else rows
    cols = columns(r)
    df = pd.concat([column(r, g, rows) for _ in range(len(cols))], axis=1) if len(cols) else pd.DataFrame(index=range(rows))
    df.columns = cols
    if r.random() < .2 and rows:
        df.index = pd.Index([f"r{j}" for j in range(rows)]) if r.random() < .5 else pd.Index(range(5, 5 + rows))
    return df


CLOSE = [[-1, -2], [0, 2**61 - 1, -(2**61 - 1), False, "0"], [1, True, "1", 2**61], [314159, 2], [True, "True", 1], ["a", "A"], ["-1", -1, -2]]


def relabelled(df, r):
    """The same frame with one label that is another one, close to it (equal hashes, equal values of other types, ...)."""
    pool = r.choice(CLOSE)
    a, b = r.sample(pool, 2)
    cols = list(df.columns)
    j = r.randrange(len(cols))

    def named(x):
        new = [*cols]
        new[j] = x
        out = df.copy()
        out.columns = pd.Index(new, dtype=object, tupleize_cols=False) if not isinstance(df.columns, pd.MultiIndex) else pd.MultiIndex.from_tuples([*cols[:j], (x, *cols[j][1:]), *cols[j + 1:]])
        return out
    return named(a), named(b)


def variation(df, r, g):
    df = df.copy()
    a = r.random()
    if a < .3 and df.shape[1] > 1 and df.columns.is_unique:
        return df.iloc[:, :-1]
    if a < .5 and df.shape[1]:
        return df.iloc[:, ::-1]
    if a < .8 and df.shape[1] and df.shape[0]:
        cols = df.columns
        new = pd.concat([column(r, g, df.shape[0])] + [df.iloc[:, j].reset_index(drop=True) for j in range(1, df.shape[1])], axis=1)
        new.columns = cols
        return new
    return df


def count(m):
    if m[0] == "dfc":
        return len(m[1]) + sum(count(x[2]) for x in m[1])
    return 0


def explain(got, want, path="data"):
    if got == want:
        return None
    if got[0] == want[0] == "dfc":
        gl, wl = [x[:2] for x in got[1]], [x[:2] for x in want[1]]
        if gl != wl:
            return f"{path}: overloads for {gl} instead of {wl}"
        for (_, lab, a), (_, _l, b) in zip(got[1], want[1]):
            if a != b:
                return explain(a, b, f"{path}[{lab!r}]")
    return ref.explain(got, want, path)


def strict(m):
    """Labels with their types: True and 1 are different labels."""
    return m


def cases(tier):
    return 30000 if tier == "quick" else 100000


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    g = gen.Gen(r, gen.Features(sets=False, max_depth=2, arrays=0))
    kw = gen.strategies(r)
    if r.random() < .2:
        kw["check_max_n_elements_within_container"] = r.randint(1, 3)
    name = gen.class_name(r)
    df = frame(r, g)
    counts = dict(columns=df.shape[1], multi=df.columns.nlevels > 1, typed=0, plain=0, compared=0, apart=0, series=0, relabelled=0)
    place = r.random()
    other = variation(df, r, g) if r.random() < .6 else frame(r, g)
    if r.random() < .12 and df.shape[1]:
        df, other = relabelled(df, r)
        counts["relabelled"] = 1
    if place < .35:
        data = df
    elif place < .5:
        data = [df, 1]
    elif place < .65:
        data = {"one": df, "two": other}
    elif place < .75:
        data = [df, other, df.copy()]
    elif place < .85:
        data = {1: [df], 2: (other,)}
    elif place < .9:
        data = (df, {"x": other, "y": other.copy()})
    else:
        data = column(r, g, r.randint(0, 4))
        counts["series"] = 1
    text = api.text_of(data, kw, name)
    info = dict(data=data, labels=[repr(c) for c in df.columns], strategies=api.diff_strategies(kw), class_name=name, text=text)
    mod = model.Module(text, name)
    got = mod.root()
    want = ref.hint(data, kw)
    e = explain(got, want) or (None if repr_model(got) == repr_model(want) else "labels of another type")
    if e:
        raise Violation("the hint of the frame is not that of its columns: " + e, **info)
    n = sum(count(x) for x in frames(got))
    counts["typed"] = n
    counts["plain"] = sum(x == ("df",) for x in frames(got))
    if isinstance(data, dict) and "two" in data and kw["dict_strategy"] == "TypedDict":
        a, b = ref.hint(df, kw), ref.hint(other, kw)
        node = dict(mod.definitions())[name]
        ann = {x.target.id: ast.unparse(x.annotation) for x in node.body if isinstance(x, ast.AnnAssign)}
        counts["compared"] = 1
        if repr_model(a) != repr_model(b):
            counts["apart"] = 1
            if ann["one"] == ann["two"]:
                raise Violation(f"different frames share the hint {ann['one']}", other=other, **info)
    # a typed class answers indexing of a real instance like the frame itself
    return CaseInfo((repr_model(got), kw["pandas_strategies"]), n >= 2, counts, sample=dict(labels=[repr(c) for c in df.columns], text=text))


def repr_model(m):
    if isinstance(m, frozenset):
        return "{" + ", ".join(sorted(map(repr_model, m))) + "}"
    if isinstance(m, tuple):
        return "(" + ", ".join(map(repr_model, m)) + ")"
    return repr(ref.plain_label(m) if isinstance(m, (str, int)) else m)


def frames(m):
    k = m[0]
    if k in ("df", "dfc"):
        yield m
        return
    if k in ("union", "tuple"):
        for x in m[1]:
            yield from frames(x)
    elif k in ("list", "seq", "vtuple", "series", "set", "fset"):
        yield from frames(m[1])
    elif k in ("dict", "map", "mproxy"):
        yield from frames(m[2])
    elif k == "td":
        for x in m[1]:
            yield from frames(x[3])


def required(tier):
    return {"typed": 15000, "plain": 2000, "multi": 2000, "compared": 1000, "apart": 500, "series": 700, "relabelled": 1500}
