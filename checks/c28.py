"""C28: type checkers accept the generated modules, and the data, and nothing that differs from it."""
import ast
import datetime
import decimal
import os
import re
import shutil
from types import MappingProxyType

from vlib import api, gen, model, samples as S, static
from vlib.runner import CaseInfo, Inconclusive, Violation

PROP = "C28"
LEVEL = "exploration"
RULE = ("each case is a batch of 60 random modules, handed to pyright and mypy as files: no complaint about the module; pyright accepts the data, written as a literal, where the type is expected, and copies with "
        "a foreign leaf or container, a key too much or too few or a longer tuple exactly if the conformance oracle does (a copy counts as accepted if both checkers accept it). Non-trivial: some copy is rejected; "
        "distinct by batch texts.")
ASSUMPTIONS = ["no dictionary has the empty string as a key (pyright does not support it)", "pyright and mypy, as installed, stand for the type checkers users run",
               "keys that are names used in the annotations of later keys of the same class are a recorded finding"]
BATCH = 60


def cases(tier):
    return 64 if tier == "quick" else 1500


class Foreign:
    pass


CLASSES = {c.__name__: c for c in (S.Alpha, S.Beta, S.GammaSub, S.Colour, S.Level, S.Pixel, S.Box, S.StrSub, S.Slotted, S.lowercase, datetime.date, datetime.datetime, datetime.timedelta, decimal.Decimal, Foreign)}
USER = """class date: ...
class datetime(date): ...
class timedelta: ...
class Decimal: ...
class Foreign: ...
class Alpha: ...
class Beta: ...
class GammaSub(Alpha): ...
class Colour: ...
class Level(int): ...
class Pixel: ...
class Box: ...
class StrSub(str): ...
class Slotted: ...
class lowercase: ...
"""
CUSTOM = [lambda r, c=c: _make(c) for c in CLASSES.values() if c is not Foreign]


def _make(c):
    return {"Colour": lambda: S.Colour.RED, "Level": lambda: S.Level.LOW, "Pixel": lambda: S.Pixel(1, 2), "Box": lambda: S.Box([]), "StrSub": lambda: S.StrSub("q"), "Slotted": lambda: S.Slotted(1),
            "date": lambda: datetime.date(2020, 1, 1), "datetime": lambda: datetime.datetime(2020, 1, 1), "timedelta": lambda: datetime.timedelta(1), "Decimal": lambda: decimal.Decimal(1)}.get(c.__name__, c)()


class Unwritable(Exception):
    pass


def literal(v):
    t = type(v)
    if t in (int, str, bool, type(None), bytes, complex, range):
        return repr(v)
    if t is float:
        return repr(v) if v == v and abs(v) != float("inf") else f'float("{v!r}")'
    if t is dict:
        return "{" + ", ".join(f"{literal(k)}: {literal(x)}" for k, x in v.items()) + "}"
    if t is list:
        return "[" + ", ".join(map(literal, v)) + "]"
    if t is tuple:
        return "(" + "".join(literal(x) + ", " for x in v) + ")"
    if t is set:
        return "{" + ", ".join(map(literal, v)) + "}" if v else "set()"
    if t is frozenset:
        return "frozenset({" + ", ".join(map(literal, v)) + "})" if v else "frozenset()"
    if isinstance(v, type):
        if v is type(None):
            return "type(None)"
        if v in (int, str, float, list, dict, bool, type) or CLASSES.get(v.__name__) is v:
            return v.__name__
        raise Unwritable(v)
    if CLASSES.get(t.__name__) is t:
        return f"{t.__name__}()"
    raise Unwritable(t)


def clean(v):
    """The same without empty keys."""
    t = type(v)
    if t is dict:
        return {k if k != "" else "empty": clean(x) for k, x in v.items()}
    if t is MappingProxyType:
        return MappingProxyType(clean(dict(v)))
    if t in (list, tuple):
        return t(clean(x) for x in v)
    return v


def has_empty(v):
    """Does a dictionary in it, of whatever class, still have an empty key?"""
    if isinstance(v, (dict, MappingProxyType)):
        return "" in v or any(map(has_empty, v.values()))
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(map(has_empty, v))
    return "pandas" in type(v).__module__ and any(map(has_empty, v.values.ravel()))


def paths(v, path=()):
    """(path, value) of every value reachable by indexes and keys."""
    yield path, v
    if type(v) in (list, tuple):
        for i, x in enumerate(v):
            yield from paths(x, (*path, i))
    elif type(v) is dict:
        for k, x in v.items():
            yield from paths(x, (*path, k))


def replaced(v, path, new):
    if not path:
        return new
    if type(v) is dict:
        return {k: replaced(x, path[1:], new) if k is path[0] else x for k, x in v.items()}
    return type(v)(replaced(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v))


def mutants(data, r):
    ps = list(paths(data))
    leaves = [p for p, v in ps if not isinstance(v, (list, tuple, dict, set, frozenset, MappingProxyType))]
    if leaves:
        yield "foreign leaf", replaced(data, r.choice(leaves), Foreign())
    dicts = [(p, v) for p, v in ps if type(v) is dict and v]
    if dicts:
        p, v = r.choice(dicts)
        k = r.choice(list(v))
        yield "key less", replaced(data, p, {a: b for a, b in v.items() if a is not k})
        p, v = r.choice(dicts)
        yield "key more", replaced(data, p, {**v, "key_that_nobody_uses": r.choice(list(v.values()))})
    inner = [p for p, v in ps if isinstance(v, (list, tuple, dict)) and p]
    if inner:
        yield "foreign container", replaced(data, r.choice(inner), Foreign())
    tuples = [(p, v) for p, v in ps if type(v) is tuple and v]
    if tuples:
        p, v = r.choice(tuples)
        yield "tuple longer", replaced(data, p, (*v, v[0]))


def permissive(m):
    """Optional[object], the spelling of None, accepts everything."""
    if m == model.OPTOBJ or m == model.OBJ:
        return model.ANY
    if isinstance(m, tuple):
        return tuple(permissive(x) for x in m)
    if isinstance(m, frozenset):
        return frozenset(permissive(x) for x in m)
    return m


def lines_of(text):
    return len(re.split("\r\n|\r|\n", text)) - 1


def shadowed(text):
    """Lines (0-based) of class bodies whose annotations use the name of an earlier key of the class: the recorded finding."""
    res = set()
    for c in ast.parse(text).body:
        if isinstance(c, ast.ClassDef):
            keys = set()
            for a in c.body:
                if isinstance(a, ast.AnnAssign):
                    if keys & set(re.findall(r"\w+", ast.unparse(a.annotation))):
                        res.add(a.lineno - 1)
                    keys.add(a.target.id)
    return res


def run_case(i, r, cx):
    d = cx.scratch.tmp / f"c28_{i}"
    d.mkdir()
    try:
        return batch(i, r, cx, d)
    finally:
        shutil.rmtree(d)


RICH = gen.Features(named_like_builtins=False, callables=.1, arrays=.05, huge=0)


def excused(x, text):
    """Complaints about what other properties settle or record."""
    if x["rule"] == "reportSelfClsParameterName" or re.search("self|Incompatible default", x["message"]) and "def __call__(" in text.splitlines()[x["line"]]:
        return "no-self"  # recorded under C23
    m = re.fullmatch(r'"(\w+)" is not defined', x["message"]) or re.match(r'Name "(\w+)" is not defined', x["message"])
    if m and not any(isinstance(n, ast.Name) and n.id == m[1] for n in ast.walk(ast.parse(text))):
        return "quoted"  # by quoted name, as C02 has it
    return None


def batch(i, r, cx, d):
    (d / "user_types.py").write_text(USER)
    counts = dict(modules=0, excused=0, rich_modules=0, literals=0, accepted=0, rejected=0, literals_rejected_by_mypy=0, literals_rejected_by_pyright=0)
    f = gen.Features(arrays=0, builtin_odd=0, modules=0, subclasses=0, huge=0, wide=.005, callables=0, custom=0, types=.04, groups=.15, named_like_builtins=False)
    info = {}
    expect = {}
    for j in range(BATCH):
        rich = j % 3 == 2  # anything goes, but there are no literals of such data
        kw = gen.strategies(r)
        name = gen.class_name(r)
        data = clean(gen.Gen(r, RICH if rich else f).container())
        while has_empty(data):
            data = clean(gen.Gen(r, RICH if rich else f).container())
        if not rich and r.random() < .3:
            ps = [p for p, v in paths(data) if not isinstance(v, (list, tuple, dict, set, frozenset, MappingProxyType))]
            for _ in range(min(3, len(ps))):
                data = replaced(data, r.choice(ps), r.choice(CUSTOM)(r))
        text = api.text_of(data, kw, name)
        file = f"m{j}.py"
        body = text + "\n\nfrom user_types import *\n"
        n = lines_of(body)
        info[file] = dict(data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
        expect[file] = {}
        counts["rich_modules"] += rich
        root = None if rich else permissive(model.Module(text, name).root())
        for what, value in [] if rich else [("the data", data), *mutants(data, r)]:
            try:
                lit = literal(value)
            except Unwritable:
                continue
            if len(lit) > 5000:
                continue
            body += f"check_{len(expect[file])}_: {name} = {lit}\n"
            expect[file][n] = (what, lit, True if what == "the data" else model.fits(value, root, False))
            n += 1
        (d / file).write_text(body, encoding="utf-8")
        counts["modules"] += 1
    found, analyzed = static.pyright(d, reportWildcardImportFromLibrary=False)
    if analyzed < BATCH:
        raise Inconclusive(f"pyright read {analyzed} files")
    hidden = set()
    bad_lines = {}
    for x in found:
        if x["severity"] != "error":
            continue
        file = x["file"].name
        if file not in expect:
            raise Inconclusive(f"pyright complains about {file}: {x['message']}")
        if x["line"] not in expect[file]:
            if x["message"] == "Variable not allowed in type expression" and x["line"] in shadowed(info[file]["text"]):
                hidden.add(file)
                continue
            if excused(x, info[file]["text"]):
                counts["excused"] += 1
                continue
            raise Violation(f"pyright complains about the module: line {x['line'] + 1}: {x['message']}", **info[file])
        bad_lines.setdefault((file, x["line"]), x["message"])
    counts["modules_with_shadowing_keys"] = len(hidden)
    mypy_bad = set()
    for x in static.mypy(d, [f"m{j}.py" for j in range(BATCH)], cx.scratch.tmp / f"mypy_cache_c28_{os.getpid()}"):
        if x["severity"] == "error":
            file = x["file"].name
            if file not in expect:
                raise Inconclusive(f"mypy complains about {file}: {x['message']}")
            if x["line"] not in expect[file]:
                if excused(x, info[file]["text"]):
                    counts["excused"] += 1
                    continue
                raise Violation(f"mypy complains about the module: line {x['line'] + 1}: {x['message']}", **info[file])
            mypy_bad.add((file, x["line"]))
    for file, exp in expect.items():
        if file in hidden:
            continue
        for line, (what, lit, ok) in exp.items():
            by_pyright, by_mypy = (file, line) not in bad_lines, (file, line) not in mypy_bad
            got = by_pyright if ok else by_pyright and by_mypy
            counts["literals"] += 1
            counts["literals_rejected_by_mypy"] += not by_mypy
            counts["literals_rejected_by_pyright"] += not by_pyright
            verdict = "accepted" if got else "rejected"
            counts[verdict] += 1
            counts[f"{what}: {verdict}"] = counts.get(f"{what}: {verdict}", 0) + 1
            if got != ok:
                raise Violation(f"{what}: {'both checkers accept' if got else 'pyright rejects'} {lit}: {bad_lines.get((file, line))}", **info[file])
    return CaseInfo(str([v["text"] for v in info.values()]), counts["rejected"] > 0, counts, sample=dict(text=info["m0.py"]["text"], verdicts=[v[::2] for v in expect["m0.py"].values()]), evals=counts["literals"] + BATCH * 2)


def known(cx):
    def shadow():
        d = cx.scratch.tmp / "c28_known"
        d.mkdir()
        try:
            (d / "m.py").write_text(api.text_of({"int": True, "y": 1}, {}, "Example"))
            return any(x["severity"] == "error" for x in static.pyright(d)[0])
        finally:
            shutil.rmtree(d)
    yield "key-shadows-type", "{'int': True, 'y': 1}: the key `int`, declared in the class body, hides the builtin from pyright in the annotation of the later key", shadow


def required(tier):
    return {"modules": 1500, "accepted": 1500, "rejected": 1000, "foreign leaf: rejected": 300, "key less: rejected": 100, "key more: rejected": 100}
