"""Executes a generated module and turns the hint into a structural model; conformance and
precision oracles over that model."""
from __future__ import annotations

import ast
import builtins
import collections.abc
import io
import re
import sys
import types
import typing
from types import MappingProxyType

import numpy as np
import typing_extensions as te

from vlib.runner import safe_repr, Violation

try:
    import pandas as pd
except ImportError:  # pragma: no cover
    pd = None

STD_ATTRS = frozenset(types.ModuleType("x").__dict__) | {"__builtins__", "__annotations__"}
ANY = ("any",)
NONE = ("none",)
OBJ = ("object",)
OPTOBJ = ("optobj",)  # the spelling Optional[object] used for None

ALLOWED_IMPORTS = {"typing", "typing_extensions", "types", "numpy", "numpy.typing", "pandas", "pandas._typing", "__future__", "npt", "collections.abc", "datetime"}


def _series_shim():
    """pd.Series is not subscriptable at run time in this pandas (see known finding of C22)."""
    if pd is not None and not hasattr(pd.Series, "__class_getitem__"):
        pd.Series.__class_getitem__ = classmethod(types.GenericAlias)


class Module:
    """A generated module, executed."""

    def __init__(self, text, class_name, shim=True):
        self.text = text
        self.class_name = class_name
        try:
            self.tree = ast.parse(text)
        except (SyntaxError, ValueError) as e:
            raise Violation(f"generated text is not valid Python: {e}", text=text) from None
        if shim:
            _series_shim()
        self.mod = types.ModuleType("generated_module")
        self.ns = self.mod.__dict__
        sys.modules["generated_module"] = self.mod
        try:
            exec(compile(self.tree, "<generated>", "exec", dont_inherit=True), self.ns)  # noqa: S102
        except Exception as e:  # noqa: BLE001
            raise Violation(f"generated module does not import: {type(e).__name__}: {e}", text=text) from None
        if class_name not in self.ns:
            raise Violation(f"generated module does not define {class_name}", text=text)
        self.postponed = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in self.tree.body)
        self._td_cache = {}
        self.referenced = set()

    # -- static view ---------------------------------------------------------------
    def definitions(self):
        """[(name, ast node)] of the module-level definitions, in order."""
        out = []
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                out.append((n.name, n))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.append((n.target.id, n))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    out.append((t.id if isinstance(t, ast.Name) else ast.dump(t), n))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                pass  # a docstring below a functional TypedDict
            else:
                raise Violation(f"unexpected statement in the generated module: {ast.unparse(n)[:200]}", text=self.text)
        return out

    # -- structural model ----------------------------------------------------------
    def root(self):
        return self.model(self.ns[self.class_name])

    def model_of(self, name):
        return self.model(self.ns[name])

    def model(self, t):  # noqa: PLR0911, PLR0912
        if t is typing.Any:
            return ANY
        if t is None or t is type(None):
            return NONE
        if t is object:
            return OBJ
        if isinstance(t, str):
            return self._forward(t)
        if isinstance(t, typing.ForwardRef):
            return self._forward(t.__forward_arg__)
        if typing.is_typeddict(t) or te.is_typeddict(t):
            return self._typed_dict(t)
        org = typing.get_origin(t)
        args = typing.get_args(t)
        if t in (typing.List, typing.Dict, typing.Tuple, typing.Set, typing.FrozenSet, typing.Callable, typing.Type):
            args = ()
        if org is typing.Union or org is types.UnionType:
            ms = []
            for a in args:
                m = self.model(a)
                ms.extend(m[1] if m[0] == "union" else [m])
            return mk_union(ms)
        if org is list:
            return ("list", self.model(args[0]) if args else ANY)
        if org is collections.abc.Sequence:
            return ("seq", self.model(args[0]) if args else ANY)
        if org is set:
            return ("set", self.model(args[0]) if args else ANY)
        if org is frozenset:
            return ("fset", self.model(args[0]) if args else ANY)
        if org is collections.abc.Iterator:
            return ("iter", self.model(args[0]))
        if org is tuple:
            if len(args) == 2 and args[1] is Ellipsis:
                return ("vtuple", self.model(args[0]))
            return ("tuple", tuple(self.model(a) for a in args))
        if org is dict:
            return ("dict", self.model(args[0]), self.model(args[1]))
        if org is collections.abc.Mapping:
            return ("map", self.model(args[0]), self.model(args[1]))
        if org is MappingProxyType:
            return ("mproxy", self.model(args[0]), self.model(args[1]))
        if org is type:
            return ("type", self.model(args[0]))
        if org is collections.abc.Callable or t is typing.Callable:
            if not args:
                return ("callable", None)
            if any(self.model(a) != ANY for a in args[0]) or self.model(args[1]) != ANY:
                raise Violation(f"unexpected callable hint {t}", text=self.text)
            return ("callable", len(args[0]))
        if org is np.ndarray:
            dt = typing.get_args(args[1])
            return ("nd", dt[0].__name__ if dt else "Any")
        if pd is not None and org is pd.Series:
            return ("series", mk_union([self.model(a) for a in args]) if len(args) > 1 else self.model(args[0]))
        if pd is not None and t is pd.DataFrame:
            return ("df",)
        if t is typing.TextIO:
            return ("textio",)
        if t is typing.BinaryIO:
            return ("binaryio",)
        if t is types.ModuleType:
            return ("module",)
        if isinstance(t, type):
            if pd is not None and issubclass(t, pd.DataFrame):
                return self._dataframe(t)
            if getattr(t, "_is_protocol", False):
                return self._protocol(t)
            if t.__module__ == "generated_module":
                raise Violation(f"unexpected class {t} in the generated module", text=self.text)
            if getattr(builtins, t.__name__, None) is t:
                return ("cls", t.__name__)
            return ("ext", t.__module__, t.__qualname__)
        raise Violation(f"cannot interpret the hint {t!r}", text=self.text)

    def _forward(self, s):
        if s in self.ns and s not in STD_ATTRS:
            self.referenced.add(s)
            v = self.ns[s]
            if isinstance(v, str) and v == s:
                return ("fwd", s)
            return self.model(v)
        if s.isidentifier():
            if s == "None":
                return NONE
            return ("fwd", s)  # the names of builtins are not quoted
        parametrized = re.fullmatch(r"([^\W\d]\w*)\[.+\]", s)
        if parametrized and parametrized[1] not in self.ns and not hasattr(builtins, parametrized[1]):
            return ("fwd", s)  # the name of a class of the user that is written like a generic
        try:
            v = eval(s, self.ns)  # noqa: S307
        except Exception as e:  # noqa: BLE001
            raise Violation(f"string in a hint cannot be resolved: {s!r} ({type(e).__name__}: {e})", text=self.text) from None
        return self.model(v)

    def _typed_dict(self, t):
        if t in self._td_cache:
            return self._td_cache[t]
        items = []
        # only then are the annotations of a class kept as the text they are written as
        as_text = self.postponed and any(isinstance(n, ast.ClassDef) and n.name == t.__name__ for n in self.tree.body)
        for key, ann in t.__dict__.get("__annotations__", {}).items():
            if as_text and isinstance(ann, typing.ForwardRef):
                try:
                    ann = eval(ann.__forward_arg__, self.ns)  # noqa: S307
                except Exception as e:  # noqa: BLE001
                    raise Violation(f"annotation cannot be evaluated: {ann.__forward_arg__} ({type(e).__name__}: {e})", text=self.text) from None
            req, ro, inner = True, False, ann
            if isinstance(inner, typing.ForwardRef) and re.match(r"\s*(NotRequired|ReadOnly|Required)\[", inner.__forward_arg__):
                inner = eval(inner.__forward_arg__, self.ns)  # noqa: S307
            while True:
                o = typing.get_origin(inner) or te.get_origin(inner)
                if o in (te.NotRequired, typing.NotRequired):
                    req, inner = False, inner.__args__[0]
                elif o is te.ReadOnly:
                    ro, inner = True, inner.__args__[0]
                elif o in (te.Required, typing.Required):
                    inner = inner.__args__[0]
                else:
                    break
            items.append((key, req, ro, self.model(inner)))
        m = ("td", tuple(sorted(items, key=lambda x: x[0])))
        self._td_cache[t] = m
        return m

    def _class_node(self, name):
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == name:
                return n
        raise Violation(f"class {name} not found at module level", text=self.text)

    def _protocol(self, t):
        node = self._class_node(t.__name__)
        defs = [n for n in node.body if isinstance(n, ast.FunctionDef)]
        if len(defs) != 1 or defs[0].name != "__call__":
            raise Violation("protocol without exactly one __call__", text=self.text)
        d = defs[0]
        return ("proto", ast.unparse(d.args), ast.unparse(d.returns) if d.returns else None)

    def _dataframe(self, t):
        node = self._class_node(t.__name__)
        cols = []
        for d in node.body:
            if not isinstance(d, ast.FunctionDef) or d.name != "__getitem__":
                continue
            key = d.args.args[1].annotation
            if isinstance(key, ast.Subscript) and isinstance(key.value, ast.Name) and key.value.id == "Literal":
                lit = ast.literal_eval(key.slice)
                cols.append((type(lit).__name__, lit, self.model(eval(ast.unparse(d.returns), self.ns))))  # noqa: S307
        return ("dfc", tuple(cols))


def mk_union(ms):
    s = set()
    for m in ms:
        if m[0] == "union":
            s.update(m[1])
        else:
            s.add(m)
    if OBJ in s and NONE in s:
        s -= {OBJ, NONE}
        s.add(OPTOBJ)
    if len(s) == 1:
        return next(iter(s))
    return ("union", frozenset(s))


def members(m):
    return m[1] if m[0] == "union" else (m,)


def show(m):
    return repr(m)


# -- conformance ------------------------------------------------------------------------
def mro_names(c):
    return {k.__name__ for k in c.__mro__}


def fits(v, m, strict, hidden=()):  # noqa: PLR0911, PLR0912
    """Does the value conform to the model? strict: exact types only, Any stands for nothing."""
    k = m[0]
    if k == "union":
        return any(fits(v, x, strict, hidden) for x in m[1])
    if k == "any":
        return not strict
    if k == "object":
        return not strict
    if k in ("none", "optobj"):
        return v is None
    if k == "cls":
        name = m[1]
        if strict:
            if name == "float" and type(v) is int:
                return True
            return type(v).__name__ == name and type(v).__module__ == "builtins"
        if name == "float" and isinstance(v, int):
            return True
        if name == "complex" and isinstance(v, (int, float)):
            return True
        return isinstance(v, getattr(builtins, name))
    if k == "fwd":
        return type(v).__name__ == m[1] if strict else m[1] in mro_names(type(v))
    if k == "ext":
        return type(v).__qualname__ == m[2]
    if k == "list":
        return isinstance(v, list) and all(fits(x, m[1], strict, hidden) for x in v)
    if k == "seq":
        return isinstance(v, (list, tuple)) and all(fits(x, m[1], strict, hidden) for x in v)
    if k in ("set", "fset"):
        return isinstance(v, set if k == "set" else frozenset) and all(fits(x, m[1], strict, hidden) for x in v)
    if k == "tuple":
        return isinstance(v, tuple) and len(v) == len(m[1]) and all(fits(x, t, strict, hidden) for x, t in zip(v, m[1]))
    if k == "vtuple":
        return isinstance(v, tuple) and all(fits(x, m[1], strict, hidden) for x in v)
    if k in ("dict", "map"):
        return isinstance(v, dict if k == "dict" else (dict, MappingProxyType)) and all(fits(a, m[1], strict, hidden) and fits(b, m[2], strict, hidden) for a, b in v.items())
    if k == "mproxy":
        return isinstance(v, MappingProxyType) and all(fits(a, m[1], strict, hidden) and fits(b, m[2], strict, hidden) for a, b in v.items())
    if k == "td":
        if not isinstance(v, dict):
            return False
        decl = {x[0]: x for x in m[1]}
        for key, val in v.items():
            if key not in decl or not fits(val, decl[key][3], strict, hidden):
                return False
        return all(key in v or not x[1] for key, x in decl.items())
    if k == "type":
        if not isinstance(v, type):
            return False
        if m[1] == NONE:
            return v is type(None)
        name = m[1][1] if m[1][0] in ("cls", "fwd") else None
        return v.__name__ == name if strict else name in mro_names(v)
    if k == "nd":
        return isinstance(v, np.ndarray) and v.dtype.type.__name__ == m[1]
    if k == "callable":
        return callable(v) or isinstance(v, (staticmethod, classmethod))
    if k == "proto":
        return callable(v) or isinstance(v, (staticmethod, classmethod))
    if k == "textio":
        return isinstance(v, io.TextIOBase)
    if k == "binaryio":
        return isinstance(v, io.IOBase) and not isinstance(v, io.TextIOBase)
    if k == "module":
        return isinstance(v, types.ModuleType)
    if k == "iter":
        return isinstance(v, collections.abc.Iterator)
    if k == "series":
        return pd is not None and isinstance(v, pd.Series)
    if k in ("df", "dfc"):
        return pd is not None and isinstance(v, pd.DataFrame)
    raise AssertionError(m)


def why_not(v, m, strict, path="data"):
    """Innermost explanation of a misfit."""
    k = m[0]
    if fits(v, m, strict):
        return None
    if k == "td" and isinstance(v, dict):
        decl = {x[0]: x for x in m[1]}
        for key, val in v.items():
            if key not in decl:
                return f"{path}: key {key!r} is not declared"
            w = why_not(val, decl[key][3], strict, f"{path}[{key!r}]")
            if w:
                return w
        for key, x in decl.items():
            if x[1] and key not in v:
                return f"{path}: lacks required key {key!r}"
    if k in ("list", "seq", "set", "fset", "vtuple") and isinstance(v, (list, tuple, set, frozenset)):
        for i, x in enumerate(v):
            w = why_not(x, m[1], strict, f"{path}[{i}]")
            if w:
                return w
    if k == "tuple" and isinstance(v, tuple) and len(v) == len(m[1]):
        for i, x in enumerate(v):
            w = why_not(x, m[1][i], strict, f"{path}[{i}]")
            if w:
                return w
    if k in ("dict", "map", "mproxy") and isinstance(v, (dict, MappingProxyType)):
        for a, b in v.items():
            w = why_not(a, m[1], strict, f"{path} key {a!r}") or why_not(b, m[2], strict, f"{path}[{a!r}]")
            if w:
                return w
    return f"{path}: {safe_repr(v)} (type {type(v).__name__}) does not fit {show(m)[:500]}"


def precise(values, m, path="data"):  # noqa: PLR0912
    """None, or why the model claims more than the values (all at this position) witness."""
    if not values:
        return None if m == ANY else f"{path}: {show(m)[:300]} but nothing was seen here"
    if m == ANY or m == OBJ:
        return f"{path}: {m[0]} although {len(values)} values were seen, e.g. {values[0]!r}"
    for v in values:
        if not fits(v, m, True):
            return "not exact: " + str(why_not(v, m, True, path))
    for x in members(m):
        vs = [v for v in values if fits(v, x, True)]
        if not vs:
            return f"{path}: alternative {show(x)[:300]} has no witness"
        k = x[0]
        if k == "cls" and x[1] == "float" and not any(type(v) is float for v in vs):
            return f"{path}: float without a float seen"
        if k in ("list", "seq", "set", "fset", "vtuple"):
            w = precise([e for v in vs for e in v], x[1], path + "[*]")
        elif k == "tuple":
            w = None
            for i, t in enumerate(x[1]):
                # dictionaries of one tuple may share one hint, which describes all of them
                same = [j for j, o in enumerate(x[1]) if o == t] if t[0] == "td" else [i]
                w = w or precise([v[j] for v in vs for j in same], t, f"{path}[{i}]")
        elif k in ("dict", "map", "mproxy"):
            w = precise([a for v in vs for a in v], x[1], path + " keys") or precise([b for v in vs for b in v.values()], x[2], path + "[*]")
        elif k == "td":
            w = None
            for key, req, _ro, t in x[1]:
                have = [v[key] for v in vs if key in v]
                if not have:
                    return f"{path}: key {key!r} declared but never seen"
                if not req and len(have) == len(vs):
                    return f"{path}: key {key!r} not required although every dictionary has it"
                w = w or precise(have, t, f"{path}[{key!r}]")
        else:
            w = None
        if w:
            return w
    return None


def count_nodes(m):
    k = m[0]
    if k == "union":
        return sum(count_nodes(x) for x in m[1])
    n = 1
    for x in m[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            n += count_nodes(x)
        elif k == "tuple":
            n += sum(count_nodes(y) for y in x)
        elif k == "td":
            n += sum(count_nodes(y[3]) for y in x)
    return n


def kinds(m, acc=None):
    acc = set() if acc is None else acc
    k = m[0]
    acc.add(k)
    if k in ("union", "tuple"):
        for x in m[1]:
            kinds(x, acc)
    elif k == "td":
        for x in m[1]:
            if not x[1]:
                acc.add("notrequired")
            if x[2]:
                acc.add("readonly")
            kinds(x[3], acc)
    elif k in ("list", "seq", "set", "fset", "vtuple", "iter", "series", "type"):
        kinds(m[1], acc)
    elif k in ("dict", "map", "mproxy"):
        kinds(m[1], acc)
        kinds(m[2], acc)
    return acc
