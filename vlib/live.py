"""Worlds for the live tool: private installations whose stub and generated modules are parsed independently."""
from __future__ import annotations

import ast
import importlib
import inspect
import os
import shutil
import sys
from pathlib import Path

from vlib.runner import Violation
from vlib.scratch import PKG

TOOL_ERRORS = ("LazyTypeHintError", "LazyTypeHintLiveError")
NAMES = ["A", "AA", "B", "User", "UserData", "Us", "Config", "data", "class_name", "match", "type_", "名前", "Été", "_X", "x1", "Very_Long_Name_For_A_Class_That_Needs_Room", "Error", "T", "path", "Model", "Literal_", "Anyone"]


def purge():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]


def tree_listing(root: Path):
    """{relative path: None for directories, bytes for files}; caches of the interpreter aside."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in files:
            if not n.endswith(".pyc"):
                p = os.path.join(d, n)
                out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else Path(p).read_bytes()
    return out


class World:
    """An installation of the package of its own."""

    def __init__(self, scratch, name):
        self.root = scratch.fresh_copy(name)
        self.pkg = self.root / PKG
        self.pristine = tree_listing(self.root)
        self.main = str(scratch.src)

    def wipe(self):
        """Back to a fresh installation (by the harness, not by the tool)."""
        now = tree_listing(self.root)
        for rel in sorted(set(now) - set(self.pristine), reverse=True):
            p = self.root / rel
            if p.is_dir() and not p.is_symlink():
                shutil.rmtree(p, ignore_errors=True)
            elif p.exists() or p.is_symlink():
                p.unlink()
        for rel, content in self.pristine.items():
            if isinstance(content, bytes) and now.get(rel) != content:
                (self.root / rel).write_bytes(content)

    def restart(self):
        """As a new process sees the installation: the package is imported anew from its files."""
        purge()
        sys.path[:] = [p for p in sys.path if p != self.main and not (p.startswith(os.path.dirname(self.main)) and p != str(self.root))]
        if str(self.root) not in sys.path:
            sys.path.insert(0, str(self.root))
        importlib.invalidate_caches()
        import lazy_type_hint

        where = Path(lazy_type_hint.__file__).resolve()
        if self.pkg not in where.parents:
            raise RuntimeError(f"imported {where}, not this world")
        self.module = Path(inspect.getfile(lazy_type_hint.LazyTypeHintLive)).resolve()
        self.stub = self.module.with_suffix(".pyi")

    def tool(self, kw=None, mode=None, derived=False):
        from lazy_type_hint import LazyTypeHintLive, ParsingStrategies

        args = {}
        if kw is not None:
            args["strategies"] = ParsingStrategies(**kw)
        if mode is not None:
            args["if_type_hint_exists"] = mode
        return type("Derived", (LazyTypeHintLive,), {})(**args) if derived else LazyTypeHintLive(**args)

    def reset(self):
        from lazy_type_hint import LazyTypeHintLive

        LazyTypeHintLive.reset()

    def new_files(self):
        """What is there that a fresh installation does not have (or has otherwise)."""
        now = tree_listing(self.root)
        d = {k: v for k, v in now.items() if k not in self.pristine or self.pristine[k] != v}
        d.update({k: "REMOVED" for k in self.pristine if k not in now})
        return d

    # ---- the registry, as a type checker would read it
    def registry(self):
        """{class: dict(imports=n, known=n, overloads={entry point: [returned type]}, module=text or None)}; None without a stub."""
        if not self.stub.exists():
            return None
        raw = self.stub.read_bytes()
        try:
            text = raw.decode("utf-8")
            tree = ast.parse(text)
            compile(text, "stub", "exec")
        except (SyntaxError, ValueError) as e:
            raise Violation(f"the stub is not valid Python: {e}", stub=raw.decode("utf-8", "replace")) from None
        out = {}

        def entry(c):
            return out.setdefault(c, dict(imports=0, known=0, overloads={}, module=None))

        for node in ast.walk(tree):
            if isinstance(node, ast.ImportFrom) and node.level == 0 and (node.module or "").startswith(PKG + "."):
                rel = node.module.replace(".", "/") + ".py"
                if rel in self.pristine or node.module.replace(".", "/") + "/__init__.py" in self.pristine:
                    continue
                if node not in tree.body:
                    raise Violation("a class is imported below the top level of the stub", stub=text)
                for alias in node.names:
                    e = entry(alias.asname or alias.name)
                    e["imports"] += 1
                    p = self.root / rel
                    e["module"] = p.read_bytes().decode("utf-8", "replace") if p.exists() else None
                    if alias.asname or node.module.split(".")[-1] != alias.name:
                        e["module_name"] = node.module
        cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == "LazyTypeHintLive"]
        if len(cls) != 1:
            raise Violation("the stub does not define LazyTypeHintLive once", stub=text)
        values = [n for n in cls[0].body if isinstance(n, ast.AnnAssign) and ast.unparse(n.target) == "classes_created"]
        if len(values) != 1:
            raise Violation("the stub does not list the known classes once", stub=text)
        value = values[0].value
        for node in ast.walk(value):
            if isinstance(node, ast.Subscript) and ast.unparse(node.value) == "Literal":
                for c in ast.walk(node.slice):
                    if isinstance(c, ast.Constant):
                        entry(c.value)["known"] += 1
        defs = {}
        for n in cls[0].body:
            if isinstance(n, ast.FunctionDef):
                defs.setdefault(n.name, []).append(n)
        generic = {}
        for name, ns in defs.items():
            seen_generic = False
            for n in ns:
                over = any(ast.unparse(d).split(".")[-1] == "overload" for d in n.decorator_list)
                if len(ns) > 1 and not over:
                    raise Violation(f"{name} has several signatures, one of which is no overload", stub=text)
                a = next((x for x in (*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs) if x.arg == "class_name"), None)
                if a is None:
                    continue
                if isinstance(a.annotation, ast.Subscript) and ast.unparse(a.annotation.value) == "Literal" and isinstance(a.annotation.slice, ast.Constant):
                    if seen_generic:
                        raise Violation(f"an overload of {name} for one class comes after the general one, which hides it", stub=text)
                    entry(a.annotation.slice.value)["overloads"].setdefault(name, []).append(ast.unparse(n.returns) if n.returns else None)
                elif a.annotation is not None and ast.unparse(a.annotation) == "str":
                    seen_generic = True
                    generic[name] = generic.get(name, 0) + 1
                else:
                    raise Violation(f"an overload of {name} takes the class name {ast.unparse(a)}", stub=text)
        for name in ("from_data", "from_yaml_file"):
            if generic.get(name) != 1:
                raise Violation(f"the stub has {generic.get(name, 0)} general signatures of {name}", stub=text)
        self._generic = {n: ast.unparse(ns[-1]) for n, ns in defs.items() if n in generic}
        return out

    def check_registry(self, expected, **info):
        """expected: {class: definitions (ast dump without docstrings, or None if not to be compared)}."""
        reg = self.registry() or {}
        stub = self.stub.read_text("utf-8") if self.stub.exists() else None
        if set(reg) != set(expected):
            raise Violation(f"the stub describes {sorted(reg)}, but the classes generated since the last reset are {sorted(expected)}", stub=stub, **info)
        for c, e in reg.items():
            if e["imports"] != 1 or e["known"] != 1:
                raise Violation(f"class {c} is imported {e['imports']} times and listed {e['known']} times as known", stub=stub, **info)
            if e["overloads"] != {"from_data": [c], "from_yaml_file": [c]}:
                raise Violation(f"class {c} has the overloads {e['overloads']}", stub=stub, **info)
            if "module_name" in e:
                raise Violation(f"class {c} is imported from module {e['module_name']}", stub=stub, **info)
            if e["module"] is None:
                raise Violation(f"the module of class {c} does not exist", stub=stub, **info)
            if expected[c] is not None and definitions(e["module"]) != expected[c]:
                raise Violation(f"the module of class {c} does not hold the definitions of its last successful call", module=e["module"], **info)
        return len(reg)


def definitions(text):
    """What the module defines, docstrings aside."""
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise Violation(f"a generated module is not valid Python: {e}", module=text) from None
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            node.body = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and (isinstance(x.value.value, str) or x.value.value is ...))]
    return ast.dump(tree)


_worlds = {}


def world(cx, label="live"):
    """The world of this worker process, as freshly installed and freshly imported."""
    key = (os.getpid(), label)
    if key not in _worlds:
        _worlds[key] = World(cx.scratch, f"{label}_{os.getpid()}")
    w = _worlds[key]
    w.wipe()
    w.restart()
    return w


def leave(cx):
    """Import the package from the main copy again."""
    purge()
    roots = {str(w.root) for w in _worlds.values()}
    sys.path[:] = [p for p in sys.path if p not in roots]
    if str(cx.scratch.src) not in sys.path:
        sys.path.insert(0, str(cx.scratch.src))
