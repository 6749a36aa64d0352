#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): which small changes of the code survive the existing tests, and do the checks notice them?

mutate.py plan                 write WORK/mutants.json (one syntactic change each)
mutate.py tests [JOBS]         run the stable tests against each; survivors go to WORK/survivors.json
mutate.py checks               run the checks that concern the file against the survivors; verdicts go to WORK/verdicts.jsonl
Everything happens in scratch copies below WORK (/tmp/mut)."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from pathlib import Path

WORK = Path("/tmp/mut")
PY = "/opt/venv/bin/python"
SKIP = {"utils/mypy.py", "utils/test_ordered_set.py"}
ENV = {**os.environ, "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": str(WORK)}
CHECKS = [("yaml_file_modifier", "15 14 16 17"), ("py_file_modifier", "18 29"), ("lazy_type_hint_live", "18 19 20 17 08 21 29"), ("lazy_type_hint_abc", "08 14 16 17 15"), ("generators/lazy_type_hint.py", "07 06 08 14 15"),
          ("strategies", "26 09"), ("docstring_formatter", "13"), ("import_manager", "02 06 23 28 25"), ("function_", "23 02 24"), ("pandas_data_frame", "22 30 12 24 02"), ("pandas_series", "22 30 12 02"),
          ("simple_data_type_tree", "01 02 03 23"), ("utils.py", "08 02 27 06 18"), ("ordered_set", "05 02 03"), ("dict_data", "14 01 11 27 13 15 24 12 10 09 03 02"), ("mapping", "24 02 01 12 03 27 14"),
          ("set_and_sequence", "11 24 01 03 12 05 31"), ("tuple", "01 03 09 10"), ("list_", "09 10 01"), ("sequence", "09 12 01"), ("set_data", "01 03 12"), ("iterator", "12 02"),
          ("data_type_tree.py", "10 02 06 01 24 03 05"), ("generic_data", "01 03 10 12 24"), ("factory", "01 02 22 23 12")]


class Mutator(ast.NodeVisitor):
    """Collects (description, node path, replacement) for a module."""

    def __init__(self):
        self.out = []

    def add(self, what, node, make):
        self.out.append((what, node, make))

    def visit_FunctionDef(self, n):
        if n.name.startswith("print_") or n.name == "__repr__":
            return
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def statement(self, n):
        self.add("drop statement", n, lambda m: ast.Pass())

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.statement(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.statement(n)
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.visit(n.value)

    def visit_Raise(self, n):
        self.statement(n)

    def visit_Continue(self, n):
        self.add("continue->break", n, lambda m: ast.Break())
        self.add("drop continue", n, lambda m: ast.Pass())

    def visit_Break(self, n):
        self.add("break->continue", n, lambda m: ast.Continue())

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)

    def cond(self, n):
        self.add("condition negated", n, lambda m: setattr_(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        self.add("condition true", n, lambda m: setattr_(m, "test", ast.Constant(True)))
        self.add("condition false", n, lambda m: setattr_(m, "test", ast.Constant(False)))

    def visit_If(self, n):
        if isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        self.cond(n)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.cond(n)
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for k, c in enumerate(n.ifs):
            self.add("comprehension condition dropped", n, lambda m, k=k: m.ifs.pop(k) and m)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add("and<->or", n, lambda m: setattr_(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        for k in range(len(n.values)):
            self.add(f"operand {k} dropped", n, lambda m, k=k: (m.values.pop(k), m if len(m.values) > 1 else m.values[0])[1])
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add("not dropped", n, lambda m: m.operand)
        self.generic_visit(n)

    def visit_Compare(self, n):
        swap = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is]}
        for o in swap.get(type(n.ops[0]), []):
            self.add(f"{type(n.ops[0]).__name__}->{o.__name__}", n, lambda m, o=o: setattr_(m, "ops", [o(), *m.ops[1:]]))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult}
        o = swap.get(type(n.op))
        if o and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add("arithmetic", n, lambda m: setattr_(m, "op", o()))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add("constant flipped", n, lambda m: ast.Constant(not m.value))
        elif type(v) is int:
            self.add("constant +1", n, lambda m: ast.Constant(m.value + 1))
            if v:
                self.add("constant -1", n, lambda m: ast.Constant(m.value - 1))
        elif type(v) is str and v and len(v) < 60:
            self.add("string changed", n, lambda m: ast.Constant(""))

    def visit_JoinedStr(self, n):
        pass

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.add("slice dropped", n, lambda m: m.value)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if len(n.args) == 1 and name in ("sorted", "reversed", "set", "frozenset", "list", "tuple", "dict", "OrderedSet", "str", "strip", "copy", "deepcopy"):
            self.add(f"{name} dropped", n, lambda m: m.args[0] if name != "reversed" else m.args[0])
        if isinstance(f, ast.Attribute) and name in ("strip", "lstrip", "rstrip", "copy", "lower", "upper", "capitalize", "splitlines_") and not n.keywords:
            self.add(f".{name}() dropped", n, lambda m: m.func.value)
        for k in n.keywords:
            if k.arg:
                self.add(f"keyword {k.arg} dropped", n, lambda m, a=k.arg: setattr_(m, "keywords", [x for x in m.keywords if x.arg != a]))
        if len(n.args) == 2 and not isinstance(n.args[0], ast.Starred) and name not in ("isinstance", "getattr", "cast", "join", "add"):
            self.add("arguments swapped", n, lambda m: setattr_(m, "args", m.args[::-1]))
        if name == "isinstance" and isinstance(n.args[1], ast.Tuple):
            for k in range(len(n.args[1].elts)):
                self.add(f"isinstance alternative {k} dropped", n, lambda m, k=k: m.args[1].elts.pop(k) and m)
        if name in ("any", "all"):
            self.add("any<->all", n, lambda m: setattr_(m, "func", ast.Name("all" if m.func.id == "any" else "any", ast.Load())))
        self.generic_visit(n)


def setattr_(m, a, v):
    setattr(m, a, v)
    return m


class Replace(ast.NodeTransformer):
    def __init__(self, target, make):
        self.target, self.make = target, make

    def visit(self, node):
        if node is self.target:
            return ast.copy_location(self.make(node), node)
        return super().generic_visit(node)


def plan():
    random.seed(7)
    res = []
    root = Path("/repo/lazy_type_hint")
    for f in sorted(root.rglob("*.py")):
        rel = str(f.relative_to(root))
        if rel in SKIP or f.name == "__init__.py" or rel.startswith("generators/build"):
            continue
        src = f.read_text()
        tree = ast.parse(src)
        m = Mutator()
        for s in tree.body:
            m.visit(s)
        base = ast.dump(tree)
        seen = set()
        for j in range(len(m.out)):
            t2 = ast.parse(src)
            m2 = Mutator()
            for s in t2.body:
                m2.visit(s)
            what, node, make = m2.out[j]
            line = getattr(node, "lineno", None) or getattr(getattr(node, "target", None), "lineno", 0)
            before = ast.unparse(node)
            try:
                t3 = Replace(node, make).visit(t2)
                ast.fix_missing_locations(t3)
                new = ast.unparse(t3)
                compile(new, rel, "exec")
            except Exception:  # noqa: BLE001
                continue
            d = ast.dump(ast.parse(new))
            if d == base or d in seen:
                continue
            seen.add(d)
            res.append(dict(id=len(res), file=rel, line=line, what=what, before=before[:200], new=new))
    only = os.environ.get("MUT_SAMPLE")
    if only:
        res = random.sample(res, min(int(only), len(res)))
    (WORK / "mutants.json").write_text(json.dumps(res))
    print(len(res), "mutants")


def carried_over(file, new, root):
    """The mutant on top of the tree in ROOT, where the file has changed since the mutants were planned from MUT_BASE (None: conflict)."""
    base_rev = os.environ.get("MUT_BASE")
    now = (root / "lazy_type_hint" / file).read_text()
    if not base_rev:
        return new
    old = subprocess.run(["git", "-C", "/repo", "show", f"{base_rev}:lazy_type_hint/{file}"], capture_output=True, text=True, check=True).stdout
    if old == now:
        return new
    t = WORK / "merge"
    t.mkdir(exist_ok=True)
    for n, text in (("a", new), ("o", ast.unparse(ast.parse(old))), ("b", ast.unparse(ast.parse(now)))):
        (t / n).write_text(text + "\n")
    r = subprocess.run(["git", "merge-file", "-p", str(t / "a"), str(t / "o"), str(t / "b")], capture_output=True, text=True)
    return r.stdout if r.returncode == 0 else None


def work_copy(name):
    d = WORK / name
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    subprocess.run(f"git -C {os.environ.get('MUT_REPO', '/repo')} archive HEAD | tar -x -C {d}", shell=True, check=True)
    return d


def test_chunk(wid, ms):
    d = work_copy(f"w{wid}")
    out = []
    for m in ms:
        p = d / "lazy_type_hint" / m["file"]
        old = p.read_text()
        p.write_text(m["new"])
        try:
            r = subprocess.run([PY, "-m", "pytest", "tests", "--ignore=tests/test_performance", "-n", "0", "-q", "--tb=no", "-x", "-p", "no:cacheprovider", "-p", "stable_only", "--timeout=60", f"--basetemp={WORK}/bt{wid}"],
                               cwd=d, env=ENV, capture_output=True, text=True, timeout=200)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        p.write_text(old)
        subprocess.run(["git", "-C", "/repo", "status"], capture_output=True)
        for junk in (d / "lazy_type_hint/generators/build", ):
            shutil.rmtree(junk, ignore_errors=True)
        (d / "lazy_type_hint/generators/lazy_type_hint_live.pyi").unlink(missing_ok=True)
        if ok:
            out.append(m)
            with open(WORK / "survivors.jsonl", "a") as f:
                f.write(json.dumps(m) + "\n")
    shutil.rmtree(d)
    return out


def tests(jobs):
    ms = json.loads((WORK / "mutants.json").read_text())
    (WORK / "survivors.jsonl").unlink(missing_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        n = sum(len(f.result()) for f in [ex.submit(test_chunk, w, ms[w::jobs]) for w in range(jobs)])
    print(n, "survivors of", len(ms))


def checks():
    v = WORK / "verif"
    if v.exists():
        shutil.rmtree(v)
    shutil.copytree(Path(__file__).resolve().parent.parent, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    done = {json.loads(x)["id"] for x in (WORK / "verdicts.jsonl").read_text().splitlines()} if (WORK / "verdicts.jsonl").exists() else set()
    ms = [json.loads(x) for x in (WORK / "survivors.jsonl").read_text().splitlines()]
    d = work_copy("checked")
    for m in sorted(ms, key=lambda m: (m["file"], m["line"])):
        if m["id"] in done:
            continue
        p = d / "lazy_type_hint" / m["file"]
        old = p.read_text()
        new = carried_over(m["file"], m["new"], d)
        if new is None:
            print("conflict", m["id"], m["file"], m["line"], m["what"])
            continue
        p.write_text(new)
        verdict = None
        order = next((c.split() for k, c in CHECKS if k in m["file"]), "01 02 03".split())
        for c in order:
            env = {**os.environ, "VERIF_REPO": str(d), "VERIF_BUDGET_S": os.environ.get("MUT_BUDGET", "6"), "VERIF_MAX_BAD": "1"}
            try:
                r = subprocess.run(["python3", "run_check.py", f"C{c}"], cwd=v, env=env, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                verdict = f"C{c} timeout"
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                verdict = f"C{c}"
                break
            if r.returncode == 2 and "ERROR of the check" in r.stderr:
                verdict = f"C{c} error"
                break
        p.write_text(old)
        m.pop("new")
        with open(WORK / "verdicts.jsonl", "a") as f:
            f.write(json.dumps({**m, "verdict": verdict}) + "\n")
    shutil.rmtree(d)


if __name__ == "__main__":
    {"plan": plan, "tests": lambda: tests(int(sys.argv[2]) if len(sys.argv) > 2 else 6), "checks": checks}[sys.argv[1]]()
