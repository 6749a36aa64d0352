"""C30: type checkers know the columns of hinted DataFrames, and no others."""
import re
import shutil
import warnings

import numpy as np
import pandas as pd

from checks import c22
from vlib import api, gen, model, ref, static
from vlib import samples as S
from vlib.runner import CaseInfo, Inconclusive, Violation

PROP = "C30"
LEVEL = "exploration"
RULE = ("each case is a batch of 40 modules for data with DataFrames (alone, in dictionaries, in tuples), read by pyright and mypy together with user code that indexes them: with each own label, along every level, "
        "the type revealed is that of the hint of the Series alone; labels the frame lacks are reported exactly with 'Full type hint' and accepted otherwise. Instances of the classes answer own labels as the frame "
        "does. Non-trivial: columns typed and foreign labels reported; distinct by batch texts.")
ASSUMPTIONS = ["pandas is seen by the type checkers through a stub with a generic Series (as pandas-stubs has it)", "with one column 'Full type hint' writes a lone @overload, and the implementation under 'Type hint only for autocomplete' takes no int labels, which type checkers complain about: the tests demand both"]
BATCH = 40
PANDAS = """from typing import Any, Generic, TypeVar
T = TypeVar("T")
class Index: ...
class Series(Generic[T]):
    def first(self) -> T: ...
class DataFrame:
    shape: tuple[int, int]
    def __getitem__(self, key: Any) -> Any: ...
"""


LIKE = [*S.Word, S.Code.OK, np.str_("n"), "z", 5]  # labels that are equal to plain ones


def cases(tier):
    return 24 if tier == "quick" else 600


def columns(r):
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    k = r.random()
    if k < .35:
        depth = r.choice([2, 2, 3])
        first = r.choice([c22.STR[:5], [1, 2, 3], ["a", 2, True, "b"], ["1", 1, "a", "A"], LIKE])
        rest = r.choice([["x", "y", ""], [1, 2, "x"], ["x", "y", 2.5], ["", "x"], ["x", "y", "z"]])
        return pd.MultiIndex.from_tuples(list(dict.fromkeys((r.choice(first), *(r.choice(rest) for _ in range(depth - 1))) for _ in range(n))))
    if k < .4:
        return pd.Index([r.choice(["a", "b"]) for _ in range(n)])
    if k < .45:
        return pd.Index(r.sample(["a", 1.5, b"x", None, "b"], min(n, 4)), dtype=object)
    return pd.Index(r.sample(r.choice([c22.STR, c22.STR[:6], range(-3, 9), LIKE, ["1", 1, "a", "-1", -1, "0", 0, "True", "False"], [*c22.STR[:5], 2, 3, True, False]]), min(n, 5)), dtype=object)


def column(r, rows):
    pool = r.choice([[1], [1, 2], [1.5], ["s"], [True], [None, 1], [None], ["s", 1], [1, 2.5, "x"], [[1], ["s"]], [[1]], [(1, "x")], [{1, 2}], [b"x", None], [[], [1]], [{1: "x"}], [{1: "x"}, {2: 2}]])
    out = np.empty(rows, dtype=object)
    for j in range(rows):
        out[j] = r.choice(pool)
    s = pd.Series(out, dtype=object)
    return s.infer_objects() if r.random() < .7 else s


def frame(r):
    cols = columns(r)
    rows = r.choice([0, 1, 2, 3])
    df = pd.concat([column(r, rows) for _ in range(len(cols))], axis=1)
    df.columns = cols
    return df


def typed(df, strategy):
    c = df.columns
    if strategy == "Do not type hint columns" or not len(c) or not c.is_unique or any(type(x) is tuple for x in c) and c.nlevels == 1:
        return False
    return all(isinstance(x[0] if c.nlevels > 1 else x, (str, int)) for x in c)


def own(df):
    return list(dict.fromkeys((type(x), x) for x in (df.columns if df.columns.nlevels == 1 else df.columns.get_level_values(0))))


FOREIGN = ["zz", "", "a", "A", "x", "1", "0", "True", 77, 1, 0, "class", "-1", "é"]


def accesses(df, strategy, r, path=""):
    """(expression, kind, Series or None): what user code does with the frame."""
    if not isinstance(df, pd.DataFrame):
        yield path, "series", df
        return
    if not typed(df, strategy):
        for x in r.sample(FOREIGN, 2):
            yield f"{path}[{x!r}]", "free", None
        return
    mine = own(df)
    for _, x in mine if len(mine) < 5 else r.sample(mine, 5):
        yield from accesses(df[x], strategy, r, f"{path}[{ref.plain_label(x)[1]!r}]")
    others = [x for x in FOREIGN if not any(x == y for _, y in mine)]
    for x in r.sample(others, 3):
        if strategy == "Full type hint":
            yield f"{path}[{x!r}]", "foreign", None
        elif type(x) is str:
            yield f"{path}[{x!r}]", "any string", None
    yield f"{path}.shape", "shape", None


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
        return False
    return a.astype(object).equals(b.astype(object)) and list(a.index) == list(b.index) and (not isinstance(a, pd.DataFrame) or list(a.columns) == list(b.columns))


def run_case(i, r, cx):
    d = cx.scratch.tmp / f"c30_{i}"
    (d / "typings" / "pandas").mkdir(parents=True)
    try:
        return batch(i, r, cx, d)
    finally:
        shutil.rmtree(d)


def batch(i, r, cx, d):
    warnings.simplefilter("ignore")
    (d / "typings/pandas/__init__.pyi").write_text(PANDAS)
    (d / "typings/pandas/_typing.pyi").write_text("from typing import Union\nScalar = Union[str, bytes, int, float, complex]\n")
    counts = dict(modules=0, own_labels=0, foreign_reported=0, strings_accepted=0, free=0, levels=0, instances=0, excused=0)
    user = ["from typing import Any"]
    where, info = {}, {}
    for j in range(BATCH):
        kw = gen.strategies(r)
        kw["pandas_strategies"] = r.choice(["Full type hint", "Full type hint", "Type hint only for autocomplete", "Type hint only for autocomplete", "Do not type hint columns"])
        kw["check_max_n_elements_within_container"] = 500
        s = kw["pandas_strategies"]
        df = frame(r)
        k = r.random()
        other = frame(r)
        parts = [("", df)]
        data = df
        if k < .25:
            data, parts = {"one": df, "two": other}, [("['one']", df), ("['two']", other)]
            kw["dict_strategy"] = "TypedDict"
        elif k < .4:
            data, parts = (df, other), [("[0]", df), ("[1]", other)]
            kw["tuple_size_strategy"] = "fixed"
        name = f"Frame{j}"
        text = api.text_of(data, kw, name)
        (d / f"m{j}.py").write_text(text, encoding="utf-8")
        info[j] = dict(data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
        mod = model.Module(text, name)
        user.append(f"from m{j} import {name}")
        user.append(f"def of_{j}() -> {name}: raise Exception")
        counts["modules"] += 1
        n = 0
        for prefix, x in parts:
            for e, kind, series in accesses(x, s, r):
                full = f"of_{j}(){prefix}{e}"
                if kind == "series":
                    stext = api.text_of(series, {**kw, "min_height_to_define_type_alias": 50}, "S")
                    (d / f"s{j}_{n}.py").write_text(stext, encoding="utf-8")
                    user.append(f"from s{j}_{n} import S as S{j}_{n}")
                    user.append(f"def s_{j}_{n}() -> S{j}_{n}: raise Exception")
                    where[len(user)] = (j, "series", full, len(user) + 1)
                    user.append(f"reveal_type({full})")
                    user.append(f"reveal_type(s_{j}_{n}())")
                    counts["levels"] = max(counts["levels"], e.count("[") )
                    n += 1
                else:
                    where[len(user)] = (j, kind, full, None)
                    user.append(full if kind != "shape" else f"reveal_type({full})")
        if type(data) is pd.DataFrame and typed(df, s):
            frame_class = mod.ns[name]
            inst = frame_class(df)
            for _, x in own(df):
                if not same(inst[x], df[x]):
                    raise Violation(f"an instance of the class gives something else for {x!r}", got=inst[x], want=df[x], **info[j])
            if own(df)[0][0] is not bool and not same(inst[[own(df)[0][1]]], df[[own(df)[0][1]]]):
                raise Violation("an instance of the class gives something else for a list of labels", **info[j])
            counts["instances"] += 1
    (d / "user.py").write_text("\n".join(user) + "\n", encoding="utf-8")
    found, analyzed = static.pyright(d, stubPath="typings", reportWildcardImportFromLibrary=False)
    if analyzed < BATCH:
        raise Inconclusive(f"pyright read {analyzed} files")
    judge("pyright", found, user, where, info, counts)
    files = ["user.py", *[f"m{j}.py" for j in range(BATCH)]]
    found = static.mypy(d, files, cx.scratch.tmp / f"mypy_cache_c30_{i}", MYPYPATH=str(d / "typings"))
    shutil.rmtree(cx.scratch.tmp / f"mypy_cache_c30_{i}", ignore_errors=True)
    judge("mypy", found, user, where, info, counts)
    return CaseInfo("\n".join(x["text"] for x in info.values()), counts["foreign_reported"] > 0, counts, sample=dict(text=info[0]["text"], accesses=[x[2] for x in where.values()][:8]), evals=len(where))


def words(shown):
    """Without the order of the members of unions."""
    return sorted(re.findall(r"\w+|\W", shown or ""))


def judge(who, found, user, where, info, counts):
    shown, errors = {}, {}
    for x in found:
        file = x["file"].name
        if file == "user.py":
            if x["severity"] == "error":
                errors.setdefault(x["line"], x["message"])
            elif x["severity"] in ("information", "note"):
                m = x["message"]
                shown[x["line"]] = m.rsplit(' is "', 1)[-1]
        elif file[0] == "m" and x["severity"] == "error":
            j = int(file[1:-3])
            if x["rule"] == "reportInconsistentOverload" or "ingle overload" in x["message"] or "Overloaded function implementation does not accept" in x["message"]:
                counts["excused"] += 1
                continue
            raise Violation(f"{who} complains about the module: line {x['line'] + 1}: {x['message']}", **info[j])
    for line, (j, kind, e, twin) in where.items():
        bad = errors.pop(line, None)
        if kind == "foreign":
            if not bad:
                raise Violation(f"{who} accepts {e.replace(f'of_{j}()', 'data')}, though the frame has no such column", **info[j])
            counts["foreign_reported"] += 1
            continue
        if bad:
            raise Violation(f"{who} rejects {e.replace(f'of_{j}()', 'data')}: {bad}", **info[j])
        if kind == "series":
            if twin not in shown or words(shown.get(line)) != words(shown[twin]):
                raise Violation(f"{who} gives {e.replace(f'of_{j}()', 'data')} the type {shown.get(line)} instead of {shown.get(twin)}", **info[j])
            counts["own_labels"] += 1
        elif kind == "any string":
            counts["strings_accepted"] += 1
        elif kind == "free":
            counts["free"] += 1
    for line, m in errors.items():
        raise Inconclusive(f"{who} complains about the user code `{user[line]}`: {m}")


def required(tier):
    return {"own_labels": 500, "foreign_reported": 300, "strings_accepted": 150, "free": 80, "instances": 80}
