"""C02: every generated module is self-contained, importable and well-scoped."""
import ast
import builtins
import io
import os
import warnings
from types import MappingProxyType

import numpy as np

from vlib import api, gen, model
from vlib.runner import CaseInfo, Violation

PROP = "C02"
LEVEL = "exploration"
RULE = ("each case: seeded random nested data (odd keys, callables, arrays, user classes) + strategies + class name; the text is compiled and executed in an "
        "empty module, all its names, forward references and definitions are checked. Non-trivial: at least one definition besides class_name or one import; distinct by text.")
ASSUMPTIONS = ["class_name is not a builtin, an imported typing name or the name of a user class in the data"]


def cases(tier):
    return 30000 if tier == "quick" else 250000


def scope_check(m, text):
    defs = m.definitions()
    names = [n for n, _ in defs]
    dup = {n for n in names if names.count(n) > 1}
    if dup:
        raise Violation(f"names bound twice: {sorted(dup)}", text=text)
    if not names or names[-1] != m.class_name:
        raise Violation(f"the last definition is {names[-1:]}, not {m.class_name}", text=text)
    imported = set()
    for n in m.tree.body:
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name not in model.ALLOWED_IMPORTS:
                    raise Violation(f"imports {a.name}", text=text)
                imported.add(a.asname or a.name)
        elif isinstance(n, ast.ImportFrom):
            if n.module not in model.ALLOWED_IMPORTS or n.level:
                raise Violation(f"imports from {n.module}", text=text)
            imported.update(a.asname or a.name for a in n.names)
    clash = imported & set(names)
    if clash:
        raise Violation(f"definitions hide imports: {sorted(clash)}", text=text)
    hidden = {n for n in names[:-1] if hasattr(builtins, n)}
    if hidden:
        raise Violation(f"definitions hide builtins: {sorted(hidden)}", text=text)
    # every name loaded anywhere is bound before (annotations need not be evaluated at run time)
    known = set(imported)
    used_later = []
    for name, node in defs:
        params = {a.arg for f in ast.walk(node) if isinstance(f, ast.arguments) for a in ast.walk(f) if isinstance(a, ast.arg)}
        used = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                used.add(x.id)
                if x.id not in known and not hasattr(builtins, x.id) and x.id not in params:
                    raise Violation(f"{name} uses {x.id}, which is not bound before", text=text)
            elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == "NoneType":
                raise Violation(f"{name} refers to the class of None by a name that is not defined anywhere", text=text)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                used.add(x.value)
                used.update(_quoted_names(x.value))
        used_later.append((name, used))
        known.add(name)
    for i, name in enumerate(names[:-1]):
        if not any(name in used for _n, used in used_later[i + 1:]):
            raise Violation(f"{name} is defined but never used", text=text)
    return len(names), len(imported)


def _quoted_names(s):
    try:
        return {x.id for x in ast.walk(ast.parse(s, mode="eval")) if isinstance(x, ast.Name)}
    except (SyntaxError, ValueError):
        return ()


def examine(data, kw, name, **detail):
    text = api.text_of(data, kw, name)
    try:
        m = model.Module(text, name)
        ndefs, nimp = scope_check(m, text)
        for n, _node in m.definitions():
            m.model_of(n)
    except Violation as v:
        v.detail.update(data=data, strategies=api.diff_strategies(kw), class_name=name, text=text, **detail)
        raise
    return text, ndefs, nimp


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    kw = gen.strategies(r)
    name = gen.class_name(r)
    framed = False
    if i % 50 == 7:
        data = deep(r)
    else:
        f = gen.Features(callables=.08, custom=.12, weird_keys=.5, builtin_odd=.1, io=.02, types=.06)
        g = gen.Gen(r, f)
        data = g.container() if r.random() < .95 else g.leaf()
        if i % 6 == 5:
            data, framed = with_frames(r, g, data), True
    text, ndefs, nimp = examine(data, kw, name)
    return CaseInfo(text, ndefs > 1 or nimp > 0, {"definitions": ndefs, "imported_names": nimp, "with_functional_td": "TypedDict(\n" in text,
                                                  "with_callable": "Callable" in text or "Protocol" in text, "deep": i % 50 == 7, "with_frames": framed and "pd." in text,
                                                  "numbered_names": any(c in text for c in ("2(", "2:", "2]"))},
                    sample=dict(strategies=api.diff_strategies(kw), text=text))


def with_frames(r, g, data):
    """DataFrames, Series and arrays at random places."""
    from checks import c22

    def one():
        f = c22.frame(r, g)
        k = r.random()
        return f if k < .6 or not f.shape[1] else f.iloc[:, 0] if k < .8 else np.array([1, 2]) if k < .9 else f.index
    return r.choice([lambda: one(), lambda: {"f": one(), "d": data}, lambda: [data, one(), one()], lambda: {"a": {"b": one()}, "c": [one()]}, lambda: (one(), data), lambda: {1: one()}, lambda: [{"x": one(), "y": 1}, {"x": one()}]])()


def deep(r):
    """Depth and width at which exponential work or unbounded recursion would show."""
    k = r.randrange(5)
    v = {"leaf": 1} if r.random() < .5 else 1
    n = r.randint(20, 45)
    for j in range(n):
        if k == 0:
            v = [v]
        elif k == 1:
            v = {"k": v, "o": j}
        elif k == 2:
            v = [v, v] if j < 5 else [v]
        elif k == 3:
            v = r.choice([lambda x: [x], lambda x: (x, 1), lambda x: {"a": x}, lambda x: {"a-b": x, "z": 0}, lambda x: {1: x}])(v)
        else:
            v = [{"a": v}, {"a": 3, "b": 1}] if j % 7 == 0 else {"c": v}
    return v


def directed(cx):
    """Names that are likely to collide, in every container."""
    pool = ["a", "A", "a_", "_a", "a-b", "aB", "AB", "a b", "List", "list", "TypedDict", "TypeAlias", "Any", "Dict", "Example", "ExampleA", "None", "int", "str",
            "self", "cls", "Union", "Optional", "Callable", "np", "pd", "npt", "Type", "object", "print", "1", "11", "1a", "a1", "", " ", "-", "²", "É", "é", "a\u00b2", "a2", "a\ufb01", "afi", "\uff4e", "n", "x\u00aa", "xa", "\u212b", "\u00c5", "A\u030a", "\u1e9b\u0323", "\u017f", "s"]

    def case(keys, wrap):
        def fn():
            from vlib import samples as S
            n = 0
            for vals in ([{"x": 1}, [1], (1, "a"), {"x": "s"}, {1: 2}, ["s"], {"y": 1.0}], [[1], ["a"], [1.5], [None], [b"x"], [[1]], [[[1]]]],
                         [S.Alpha(), S.Beta(), int, S.Colour.RED, len, lambda x: 1, {"q": lambda: 1}]):
                data = {k: vals[j % len(vals)] for j, k in enumerate(keys)}
                for h in (0, 1, 3):
                    for ds in ("TypedDict", "dict"):
                        for nm in ("Example", "X", "A"):
                            examine(wrap(data), dict(gen.DEFAULTS, min_height_to_define_type_alias=h, dict_strategy=ds), nm)
                            n += 1
            return CaseInfo("x", counts={"collision_cases": n})
        return fn

    def imported(word):
        """The alias of a value would be named like something that the module imports or uses."""
        def fn():
            from vlib import samples as S
            n = 0
            kinds = [{"x": 1}, [1], (1, "a"), {1: 2}, {"s"}, frozenset([1]), MappingProxyType({"q": 1}), int, S.Alpha(), len, lambda x: 1, os, iter([1]), io.StringIO(), {"b-c": None}, range(3), [None, 1]]
            for cut in range(1, len(word)):
                for key in {word[cut:], word[cut:].lower()} if word[cut].isupper() else ():
                    for v in ({"x": 1}, [[1]], [{"x": 1}], (1, "a"), lambda x: 1):
                        others = {f"k{j}": x for j, x in enumerate(kinds)}
                        for data in ({key: v, **others}, [{key: v, **others}], ({key: v}, {key: v, "q": 1, **others})):
                            for h in (0, 1):
                                examine(data, dict(gen.DEFAULTS, min_height_to_define_type_alias=h), word[:cut])
                                n += 1
            return CaseInfo("x", counts={"imported_name_cases": n})
        return fn

    for word in ("FrozenSet", "MappingProxyType", "TypedDict", "NotRequired", "ReadOnly", "ModuleType", "TextIO", "BinaryIO", "NDArray", "ValueError", "BaseException", "OSError"):
        yield f"imported-{word}", imported(word)

    wraps = {"plain": lambda d: d, "list": lambda d: [d, {"List": d}], "tuple": lambda d: (d, [d], {"Dict": [d, 1]}), "nest": lambda d: {"a": d, "A": {"a": d}}}
    for wname, wrap in wraps.items():
        for s in range(0, len(pool), 5):
            yield f"collide-{wname}-{s}", case(pool[s:s + 9], wrap)


def known(cx):
    def series():
        import pandas as pd
        t = api.text_of(pd.Series([1]), dict(gen.DEFAULTS), "Example")
        try:
            exec(compile(t, "<g>", "exec", dont_inherit=True), {"__name__": "g"})  # noqa: S102
        except TypeError as e:
            return "not subscriptable" in str(e)
        return False

    if not _series_subscriptable():
        yield ("series-alias", "the module generated for pd.Series([1]) (`Example: TypeAlias = pd.Series[int]`) raises TypeError when executed: pd.Series is not "
               "subscriptable at run time", series)


def _series_subscriptable():
    import pandas as pd
    return hasattr(pd.Series, "__class_getitem__")


def required(tier):
    return {"with_functional_td": 300, "with_callable": 300, "with_frames": 300, "deep": 50, "collision_cases": 500, "numbered_names": 100, "imported_name_cases": 500}
