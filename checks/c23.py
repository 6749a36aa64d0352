"""C23: callables are hinted with their own signature."""
import ast
import importlib.util
import inspect
import re
import sys
import typing

from vlib import api, funcs, gen, model
from vlib.runner import CaseInfo, Violation

PROP = "C23"
LEVEL = "exploration"
RULE = ("each case: a module of 8 random functions, methods and lambdas is written, imported and its members put into data (alone, in lists, dictionaries, tuples); the executed protocols are compared with "
        "inspect.signature and the generator's knowledge of the bodies. Non-trivial: a signature has 2+ parameters; distinct by source.")
ASSUMPTIONS = ["Protocol.__call__ is accepted with or without a leading self (recorded finding: it is written without)"]

HEAD = """import collections
import collections.abc
import datetime
import functools
import types
import typing
import typing as t
from pathlib import Path
from typing import *
from typing import List as L

import numpy as np
import pandas as pd

T = TypeVar("T")


class User:
    class Inner:
        pass


class MyNoneType:
    pass


class Odd:
    # anything that is shown as the given text

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


class Broken:
    def __repr__(self):
        raise RuntimeError("cannot be shown")


class StrDefault(str):
    def __repr__(self):
        return f"<{str(self)}>"


def nested(n):
    out = []
    for _ in range(n):
        out = [out]
    return out


"""
ANN = ["int", "str", "float", "bool", "None", "bytes", "object", "type", "list", "dict", "List[int]", "L[str]", "Dict[str, int]", "Dict[str, List[Dict[str, int]]]", "Optional[str]", "Union[int, str, None]",
       "Tuple[int, ...]", "Tuple[()]", "Tuple[int, str]", "Set[int]", "FrozenSet[str]", "Callable", "Callable[..., Any]", "Callable[[int, str], bool]", "Callable[[], None]", "Type[int]", "Any", "Iterable[int]",
       "Iterator[str]", "Mapping[str, Any]", "Sequence[int]", "Literal['a', 'b']", "Literal[\"it's\"]", "Literal[1, True, None]", "Generator[int, None, str]", "list[int]", "dict[str, list[int]]", "int | None",
       "list[int] | dict[str, int]", "tuple[int, ...]", "collections.OrderedDict", "collections.abc.Iterable[int]", "datetime.date", "Path", "User", "User.Inner", "List[User]", "np.ndarray", "pd.DataFrame", "T",
       "'int'", "'List[str]'", "'Unknown'", "'Optional[Unknown]'", "'User'", "typing.List[typing.Any]", "t.Optional[t.Dict[str, int]]", "Hashable", "Sized", "Type['User']", "List['int']", "ClassVar[int]",
       "Annotated[int, 5]", "NoReturn", "TextIO", "Awaitable[int]", "type(None)", "...", "5", "'not an expression!'", "[1, 2]", "MyNoneType", "Optional[MyNoneType]", "'MyNoneType'", "Literal['NoneType', None]", "Literal['a.NoneType']", "types.ModuleType", "types.FunctionType",
       "Optional[types.ModuleType]", "type(iter([]))", "'annotations'", "'numpy'", "'npt'", "'pandas'", "'list'", "'_Private'", "'__dunder'", "Odd('annotations')", "Odd('npt')", "Odd('_hidden')", "Odd('List')",
       "Odd('not valid!')", "Dict[str, Optional[None]]", "Union[None, int]", "Callable[[None], None]", "types.NoneType", "'types.NoneType'", "List['None']", "Text", "Deque[int]", "Counter[str]", "type(...)"]
RET = [a for a in ANN if a not in ("5", "...", "[1, 2]")]  # noqa
DEFAULTS = ["None", "0", "1", "-1", "1.5", "True", "''", "'text'", "\"it's\"", "'a\\nb'", "b'x'", "()", "(1, 2)", "[]", "{}", "{'a': 1}", "{1, 2}", "1 + 2j", "float('inf')", "float('nan')", "object()", "len", "int", "...",
            "User()", "Path('x')", "datetime.date(2020, 1, 1)", "np.int64(3)", "frozenset()", "lambda: 1", "[object()]", "'=' * 3", "'# comment'", "'def f(): ...'", "' -> '", "Odd('{[]: 1}')", "Odd('{{}: 1, [1]}')", "Odd('')", "Odd('int')", "Odd('1 + ')", "Odd('a, b')", "Odd('x=1')", "Odd(')')", "Broken()", "[Broken()]", "StrDefault('x')", "nested(90)", "nested(300)",
            "nested(5000)", "'x' * 200", "list(range(100))", "-0.0", "1e999", "10 ** 30", "{(): ()}", "{None: [{'a': (1,)}]}", "(1,)", "'\\\\'", "'\"\"\"'", "range(3)", "slice(1)", "NotImplemented", "Ellipsis", "type(None)"]
NAMES = ["a", "b", "c", "data", "value", "x1", "_p", "key", "args", "kwargs", "self", "cls", "type", "id", "list", "Any", "Protocol", "Callable", "über", "名", "__m", "return_", "print", "match", "_"]
BODIES = {"pass": ("pass", False), "ret": ("return 1", True), "bare": ("return", True), "none": ("print(1)", False), "yield": ("yield 1", True), "yieldfrom": ("yield from []", True), "assign_yield": ("x = yield", True),
          "doc": ('"""This will return nothing and yield no value."""', False), "comment": ("pass  # return 3", False), "string": ("x = 'return 3'; print(x)", False), "raise": ("raise ValueError('no return')", False),
          "nested": ("def inner():\n        return 3\n    print(inner)", None), "if": ("if 1:\n        return 3\n    print(2)", True), "returned": ("returned = yielded = 1", False), "try": ("try:\n        pass\n    finally:\n        return 1", True),
          "loop": ("for i in []:\n        yield i", True), "dots": ("...", False), "multi": ('"""\n    return x\n    """\n    pass', False), "lambda": ("print(lambda: 1)", False)}


def signature_source(r, first=None):
    names = r.sample(NAMES, len(NAMES))
    if first:
        names = [n for n in names if n != first]
    rate = r.choice([0, .5, 1])
    parts = []
    had_default = False

    def ann():
        return f": {r.choice(ANN)}" if r.random() < rate else ""

    def positional():
        nonlocal had_default
        had_default = had_default or r.random() < .3
        return f"{names.pop()}{ann()}" + (f" = {r.choice(DEFAULTS)}" if had_default else "")

    if first:
        parts.append(first)
    n = r.choice([0, 0, 0, 1, 2])
    parts += [positional() for _ in range(n)]
    if n or first and r.random() < .05:
        parts.append("/")
    parts += [positional() for _ in range(r.choice([0, 1, 1, 2, 3]))]
    star = r.random()
    kwonly = r.choice([0, 0, 1, 2])
    if star < .25:
        parts.append(f"*{names.pop()}{ann()}")
    elif kwonly:
        parts.append("*")
    else:
        kwonly = 0
    parts += [f"{names.pop()}{ann()}" + (f" = {r.choice(DEFAULTS)}" if r.random() < .5 else "") for _ in range(kwonly)]
    if r.random() < .25:
        parts.append(f"**{names.pop()}{ann()}")
    return ", ".join(parts)


def function_source(r, name, first=None, indent="", deco=""):
    body = r.choice(list(BODIES))
    ret = f" -> {r.choice(RET)}" if r.random() < .35 else ""
    pre = "async " if r.random() < .06 and "yieldfrom" not in body and not (BODIES[body][1] and body in ("ret", "loop", "try", "if", "yield", "assign_yield")) else ""
    src = f"{deco}{pre}def {name}({signature_source(r, first)}){ret}:\n    {BODIES[body][0]}\n"
    return "\n".join(indent + x if x else x for x in src.split("\n")), body, bool(pre)


def write_module(r):
    src = HEAD
    what = []
    for j in range(4):
        s, body, is_async = function_source(r, f"f{j}")
        src += s + "\n\n"
        what.append((f"f{j}", body, is_async))
    src += "class K:\n"
    for j, (first, deco) in enumerate([("self", ""), (None, "@staticmethod\n"), ("cls", "@classmethod\n")]):
        s, body, is_async = function_source(r, f"m{j}", first, "    ", deco)
        src += s + "\n"
        what.append((f"K.m{j}", body, is_async))
    src += "\n\ndef deco(fn):\n    @functools.wraps(fn)\n    def wrapper(*args, **kwargs):\n        return fn(*args, **kwargs)\n    return wrapper\n\n\n"
    s, body, is_async = function_source(r, "w", None, "", "@deco\n")
    src += s + "\n\n"
    what.append(("w", body, is_async))
    lambdas = []
    for j in range(2):
        ps = signature_source(r)
        ps = strip_annotations(ps)
        src += f"l{j} = lambda {ps}: 1\n"
        lambdas.append(f"l{j}")
    return src, what, lambdas


def strip_annotations(ps):
    a = ast.parse(f"def f({ps}): pass").body[0].args
    for x in ast.walk(a):
        if isinstance(x, ast.arg):
            x.annotation = None
    return ast.unparse(a)


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


KINDS = inspect.Parameter
BUILTINS = [f for f in funcs.BUILTINS if type(f).__name__ == "builtin_function_or_method"]


def ast_parameters(a):
    """[(name, kind, has default, annotation node)] of an ast.arguments."""
    out = []
    pos = [*((x, KINDS.POSITIONAL_ONLY) for x in a.posonlyargs), *((x, KINDS.POSITIONAL_OR_KEYWORD) for x in a.args)]
    for j, (x, kind) in enumerate(pos):
        out.append((x.arg, kind, j >= len(pos) - len(a.defaults), x.annotation))
    if a.vararg:
        out.append((a.vararg.arg, KINDS.VAR_POSITIONAL, False, a.vararg.annotation))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((x.arg, KINDS.KEYWORD_ONLY, d is not None, x.annotation))
    if a.kwarg:
        out.append((a.kwarg.arg, KINDS.VAR_KEYWORD, False, a.kwarg.annotation))
    return out


def norm(s):
    try:
        return ast.dump(ast.parse(s, mode="eval"))
    except SyntaxError:
        return s


def same_annotation(real, node, ns):
    if real is inspect.Parameter.empty:
        return node is None
    if node is None:
        return False
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        if isinstance(real, str):
            return norm(node.value) == norm(real)
        try:
            return bool(eval(node.value, {**vars(typing), **ns}) == real)  # noqa: S307
        except Exception:  # noqa: BLE001  (names that the module does not define; None is called None in annotations)
            return norm(node.value) == norm(re.sub(r"(?<![\w.'\"])NoneType\b", "None", inspect.formatannotation(real)))
    try:
        got = eval(ast.unparse(node), ns)  # noqa: S307
    except Exception:  # noqa: BLE001
        return False
    if got is None:
        got = type(None)
    if real is None:
        real = type(None)
    if isinstance(real, str):
        return norm(ast.unparse(node)) == norm(real)
    try:
        return bool(got == real) or norm(ast.unparse(node)) == norm(inspect.formatannotation(real))
    except Exception:  # noqa: BLE001
        return norm(ast.unparse(node)) == norm(inspect.formatannotation(real))


def find_call(mod, name, info):
    node = dict(mod.definitions()).get(name)
    if not isinstance(node, ast.ClassDef):
        raise Violation(f"{name} is not a protocol", **info)
    if not any("Protocol" in ast.unparse(b) for b in node.bases):
        raise Violation(f"{name} is not a protocol: bases {[ast.unparse(b) for b in node.bases]}", **info)
    defs = [n for n in node.body if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    if len(defs) != 1 or defs[0].name != "__call__":
        raise Violation(f"{name} has not exactly one __call__", **info)
    return defs[0]


def verify_protocol(fn, has_return, is_async, d, mod, info):
    sig = inspect.signature(fn)
    got = ast_parameters(d.args)
    want = [(p.name, p.kind, p.default is not p.empty, p.annotation) for p in sig.parameters.values()]
    if len(got) == len(want) + 1 and got[0][0] == "self":
        got = got[1:]
    if [x[:3] for x in got] != [x[:3] for x in want]:
        raise Violation(f"parameters {[(n, str(k), d) for n, k, d, _ in got]} instead of {[(n, str(k), d) for n, k, d, _ in want]}", **info)
    for (n, _k, _d, node), (_n, _k2, _d2, real) in zip(got, want):
        if not same_annotation(real, node, mod.ns):
            raise Violation(f"annotation of {n}: {node and ast.unparse(node)} instead of {real!r}", **info)
    if sig.return_annotation is not sig.empty:
        if not same_annotation(sig.return_annotation, d.returns, mod.ns):
            raise Violation(f"returns {d.returns and ast.unparse(d.returns)} instead of {sig.return_annotation!r}", **info)
    else:
        r = ast.unparse(d.returns) if d.returns else "nothing"
        ok = {"None", "Any"} if has_return is None or is_async else {"Any"} if has_return else {"None"}
        if r not in ok:
            raise Violation(f"returns {r} instead of {'/'.join(ok)}", **info)
    return len(want)


def resolve(mod, key=None, name="Example"):
    """The name of the definition that describes the callable: at the root or under a key."""
    if key is None:
        return name
    node = dict(mod.definitions())[name]
    for x in node.body:
        if isinstance(x, ast.AnnAssign) and x.target.id == key:
            a = x.annotation
            while isinstance(a, ast.Subscript):
                a = a.slice
            return a.id if isinstance(a, ast.Name) else ast.literal_eval(a)
    raise Violation(f"{key} is not declared", text=mod.text)


def lambda_model(fn):
    return ("callable", len(inspect.signature(fn).parameters))


def cases(tier):
    return 2500 if tier == "quick" else 50000


def shown(annotation):
    return annotation if isinstance(annotation, str) else inspect.formatannotation(annotation)


def identity(fn, body_has_return):
    s = inspect.signature(fn)
    ret = s.return_annotation
    return (tuple((p.name, p.kind, p.default is not p.empty, shown(p.annotation)) for p in s.parameters.values()), shown(ret) if ret is not s.empty else "Any" if body_has_return else "None")


def run_case(i, r, cx):
    src, what, lambdas = write_module(r)
    modname = f"c23_funcs_{i}"
    path = cx.scratch.tmp / f"{modname}.py"
    path.write_text(src, encoding="utf-8")
    counts = dict(protocols=0, parameters=0, lambdas=0, methods=0, wrapped=0, pairs_apart=0, nested=0, no_source=0)
    try:
        user = load(path, modname)
        k = user.K()
        items = []
        for name, body, is_async in what:
            has = BODIES[body][1]
            if name == "w":
                items.append((user.w, has, is_async))
                counts["wrapped"] += 1
            elif name.startswith("K."):
                attr = name[2:]
                items.append((getattr(k, attr), has, is_async))
                items.append((getattr(user.K, attr), has, is_async))
                if attr == "m1":
                    items.append((user.K.__dict__["m1"], has, is_async))
                counts["methods"] += 1
            else:
                items.append((getattr(user, name), has, is_async))
        kw = dict(gen.DEFAULTS, min_height_to_define_type_alias=r.choice([0, 1, 2, 5]), list_strategy=r.choice(["list", "Sequence"]))
        info = dict(source=src[len(HEAD):], strategies=api.diff_strategies(kw))
        for fn, has, is_async in items:
            text = api.text_of(fn, kw, "Example")
            mod = model.Module(text, "Example")
            counts["parameters"] += verify_protocol(fn, has, is_async, find_call(mod, "Example", dict(info, text=text)), mod, dict(info, function=fn, text=text))
            counts["protocols"] += 1
        # all together in one dictionary, at different depths
        table = {f"k{j}": it for j, it in enumerate(items)}
        order = list(table)
        r.shuffle(order)
        data = {n: table[n][0] for n in order}
        for j, ln in enumerate(lambdas):
            data[f"l{j}"] = getattr(user, ln)
        data["b"] = r.choice(BUILTINS)
        text = api.text_of(data, kw, "Example")
        mod = model.Module(text, "Example")
        names = {}
        for n in order:
            fn, has, is_async = table[n]
            names[n] = resolve(mod, n)
            verify_protocol(fn, has, is_async, find_call(mod, names[n], dict(info, text=text)), mod, dict(info, function=fn, text=text, key=n))
            counts["nested"] += 1
        types_ = {x[0]: x[3] for x in mod.root()[1]}
        for j, ln in enumerate(lambdas):
            want = lambda_model(getattr(user, ln))
            if types_[f"l{j}"] != want:
                raise Violation(f"lambda {ln}: {types_[f'l{j}']} instead of {want}", text=text, **info)
            counts["lambdas"] += 1
        if types_["b"] != ("callable", None):
            raise Violation(f"builtin {data['b']}: {types_['b']} instead of a plain Callable", text=text, **info)
        for a in order:
            for b in order:
                if a < b and identity(table[a][0], table[a][1]) != identity(table[b][0], table[b][1]):
                    if names[a] == names[b] and not (None in (table[a][1], table[b][1]) or table[a][2] or table[b][2]):
                        raise Violation(f"{a} and {b} have different signatures but share {names[a]}", text=text, **info)
                    counts["pairs_apart"] += 1
        # in a list: each different signature is an alternative
        some = r.sample(items, 3)
        text = api.text_of([x[0] for x in some] + [getattr(user, lambdas[0])], kw, "Example")
        mod = model.Module(text, "Example")
        protos = {x for x in model.members(mod.root()[1])}
        for fn, has, is_async in some:
            for n, node in mod.definitions():
                if isinstance(node, ast.ClassDef):
                    try:
                        verify_protocol(fn, has, is_async, find_call(mod, n, {}), mod, {})
                        break
                    except Violation:
                        continue
            else:
                raise Violation("no protocol in the list stands for this function", function=fn, text=text, **info)
        if lambda_model(getattr(user, lambdas[0])) not in protos:
            raise Violation("the lambda is missing in the list", text=text, **info)
        # the same functions when their source is not available
        path.unlink()
        import linecache
        linecache.clearcache()
        for fn, has, is_async in r.sample(items, 2):
            text = api.text_of(fn, kw, "Example")
            mod = model.Module(text, "Example")
            verify_protocol(fn, True, is_async, find_call(mod, "Example", dict(info, text=text)), mod, dict(info, function=fn, text=text, source_available=False))
            counts["no_source"] += 1
    finally:
        sys.modules.pop(modname, None)
        if path.exists():
            path.unlink()
    return CaseInfo(src, counts["parameters"] > 1, counts, sample=dict(source=src[len(HEAD):], text=text), evals=counts["protocols"])


def directed(cx):
    def fixed():
        n = 0
        for fn in [*funcs.PY, *funcs.METHODS, *(f for f in funcs.WRAPPED if isinstance(f, staticmethod))]:
            for h in (0, 1, 3):
                kw = dict(gen.DEFAULTS, min_height_to_define_type_alias=h)
                text = api.text_of(fn, kw, "Example")
                mod = model.Module(text, "Example")
                verify_protocol(fn, None, False, find_call(mod, "Example", dict(text=text)), mod, dict(function=fn, text=text))
                n += 1
        for _ in range(2):
            for fn, has in zip(funcs.TWINS, funcs.TWINS_RETURN):
                if has is not None:
                    text = api.text_of(fn, dict(gen.DEFAULTS), "Example")
                    mod = model.Module(text, "Example")
                    verify_protocol(fn, has, False, find_call(mod, "Example", dict(text=text)), mod, dict(function=fn, text=text))
                    n += 1
        for fn in [*funcs.LAMBDAS, *(f for f, has in zip(funcs.TWINS, funcs.TWINS_RETURN) if has is None)]:
            got = model.Module(api.text_of(fn, dict(gen.DEFAULTS), "Example"), "Example").root()
            if got != lambda_model(fn):
                raise Violation(f"lambda with {inspect.signature(fn)}: {got}")
            n += 1
        for fn in [*BUILTINS, *(f for f in funcs.WRAPPED if isinstance(f, classmethod))]:
            got = model.Module(api.text_of(fn, dict(gen.DEFAULTS), "Example"), "Example").root()
            if got != ("callable", None):
                raise Violation(f"{fn}: {got} instead of a plain Callable")
            n += 1
        return CaseInfo("x", counts={"fixed": n})

    yield "fixed", fixed


def known(cx):
    def no_self():
        def f(a):
            pass
        text = api.text_of(f, dict(gen.DEFAULTS), "Example")
        d = find_call(model.Module(text, "Example"), "Example", dict(text=text))
        return [x.arg for x in d.args.args] == ["a"]

    yield "no-self", "the protocol generated for `def f(a): ...` has `__call__(a)` without self, so that for a type checker the callable has one parameter less", no_self


def required(tier):
    return {"protocols": 10000, "parameters": 10000, "lambdas": 2000, "methods": 3000, "wrapped": 1000, "pairs_apart": 50000, "nested": 10000, "no_source": 2000, "fixed": 100}
