"""Random histories of live calls with a reference model of what is to be registered."""
from __future__ import annotations

import collections
import os
from pathlib import Path

import yaml

from vlib import gen, live, yamlgen
from vlib.runner import Violation


def load_yaml(p):
    with open(p, "rb") as f:
        return yaml.safe_load(f)


def boom():
    yield 1
    raise ValueError("the data cannot be read")


def small(r):
    """Data that is quick to hint."""
    k = r.random()
    if k < .35:
        return {r.choice(["a", "b", "name", "k-1", "x"]): r.choice([1, "s", None, [1], {"z": 1.5}, [{"q": 1}, {"q": 2, "w": 3}], (1, "a"), {1: 2}]) for _ in range(r.randint(1, 4))}
    if k < .5:
        return r.choice([1, "s", None, [1], [], {}, (), [1, "a"], {1: 2}, [[1.5]], ({"a": 1},), 2.5, True, b"x", {"doc": "Some text.", "a": 1}])
    f = gen.Features(max_depth=2, max_width=3, sets=False, callables=0, io=0, modules=0, types=0)
    return gen.Gen(r, f).container()


def documented(data, r, key="doc"):
    """The same data with a documentation text in its dictionaries."""
    if type(data) is dict and all(isinstance(k, str) for k in data):
        d = {k: documented(v, r, key) for k, v in data.items()}
        d[key] = r.choice(["a text", "another \"\"\" text", "text\n\nwith paragraphs", "x = 1", "class A:", "a " * 60, "back\\slash", "..."])
        return d
    if type(data) is list:
        return [documented(x, r, key) for x in data]
    return data


def definitions_of(data, kw, name):
    """What the module of a class is to define, according to the tool that does not write files."""
    from lazy_type_hint import LazyTypeHint, ParsingStrategies

    return live.definitions(LazyTypeHint(ParsingStrategies(**kw)).from_data(data, class_name=name).to_string())


class Op:
    """One operation, what came out of it, and what the model says."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.name = self.tool = self.data = self.text = self.mode = self.error = self.want = None
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if v is not None and k not in ("want", "tool", "files")}
        d["error"] = self.error and f"{type(self.error).__name__}: {self.error}"[:200]
        return str({k: v for k, v in d.items() if v is not None})


class History:
    def __init__(self, w, r, cx, *, names=None, modes=("overwrite", "validate"), reset=.06, restart=.06, fail=.12, repeat=.35, yaml_share=.3):
        self.w, self.r, self.cx = w, r, cx
        self.names = names or r.sample(live.NAMES, r.choice([1, 2, 3, 5]))
        self.modes = modes
        self.p = dict(reset=reset, restart=restart, fail=fail, repeat=repeat, yaml=yaml_share)
        self.tools = []
        self.expected = {}
        self.stored = {}
        self.log = []
        self.counts = collections.Counter()
        self.new_tool()

    def new_tool(self):
        r = self.r
        kw = {} if r.random() < .5 else gen.strategies(r)
        if r.random() < .4:
            kw["key_used_as_doc"] = "doc"
        mode = r.choice([*self.modes, None])
        derived = r.random() < .1
        try:
            tool = self.w.tool(kw, mode, derived)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"the live tool cannot be created: {type(e).__name__}: {e}", history=self.log, strategies=kw, mode=mode) from None
        self.tools.append((len(self.log), tool, kw, mode or "overwrite", self.counts["instances"]))
        self.counts["instances"] += 1
        self.counts["instances_of_a_derived_class"] += derived

    def choose(self):
        """The next operation (not yet done)."""
        r, p = self.r, self.p
        k = r.random()
        if k < p["reset"]:
            return Op("reset", mode=r.choice(["class", "instance"]))
        k -= p["reset"]
        if k < p["restart"]:
            return Op("restart", mode=r.choice(["forget", "forget", "keep old instances"]))
        if len(self.tools) < 4 and r.random() < .15:
            self.new_tool()
        born, tool, kw, mode, number = r.choice(self.tools)
        name = r.choice(self.names)
        op = Op("call", name=name, tool=tool, mode=mode, strategies=kw, instance=number, born=born)
        if r.random() < p["fail"]:
            op.fails = r.choice(["data", "name", "loader"])
            if op.fails == "name":
                op.name = r.choice(["", "a b", "class", "1a", "../x", "A.B", "a\nb", "²"])
                op.data = small(r)
            elif op.fails == "data":
                op.data = "generator that raises"
            else:
                op.kind, op.text = "yaml", "a: 1  # c\n"
            return op
        if r.random() < p["yaml"]:
            for _ in range(10):
                text = r.choice(["a: 1  # comment\nb: {c: [1]}\n", "a: 1  # other\nb: {c: [1]}  # comment\n", "- x: 1 # c\n- x: 2\n  y: 3 # d\n", "k: v # c\n"]) if r.random() < .5 else yamlgen.Builder(r).document(1)
                try:
                    yaml.safe_load(text)
                except yaml.YAMLError:
                    continue
                op.kind, op.text, op.comments = "yaml", text, r.choice(["side", "above", ("side", "above"), None])
                if op.name in self.stored and r.random() < p["repeat"] and self.stored[op.name].text:
                    op.text = self.stored[op.name].text
                return op
        prev = self.stored.get(name)
        if prev is not None and prev.kind == "call" and r.random() < p["repeat"]:
            op.data = prev.data
            c = r.random()
            if c < .25:
                op.data = gen.revalue(prev.data, r)
            elif c < .5:
                op.data = documented(prev.data, r)
            elif c < .7 and isinstance(prev.data, (dict, list)):
                op.data = gen.nearby(prev.data, r) if r.random() < .5 else gen.similar(prev.data, r)
        else:
            op.data = small(r)
        return op

    def do(self, op):
        """Run the operation; the model follows its outcome."""
        w = self.w
        self.log.append(op)
        self.counts["operations"] += 1
        self.counts["op_" + op.kind] += 1
        if op.kind == "reset":
            try:
                if op.mode == "class" or not self.tools:
                    w.reset()
                else:
                    self.r.choice(self.tools)[1].reset()
            except Exception as e:  # noqa: BLE001
                raise Violation(f"reset fails: {type(e).__name__}: {e}", history=self.log) from None
            self.expected.clear()
            self.stored.clear()
            return op
        if op.kind == "restart":
            if op.mode == "forget":
                self.tools = []
            w.restart()
            self.new_tool()
            return op
        fails = getattr(op, "fails", None)
        if op.kind == "yaml":
            path = self.cx.scratch.tmp / f"hist_{os.getpid()}.yaml"
            path.write_bytes(op.text.encode())
            args = {"comments_are": op.comments} if hasattr(op, "comments") else {}

            def loader(p):
                if fails == "loader":
                    raise ValueError("the loader fails")
                return load_yaml(p)

            def run():
                return op.tool.from_yaml_file(loader, path, class_name=op.name, **args)

            data = load_yaml(path)
        else:
            data = op.data

            def run():
                return op.tool.from_data(boom() if fails == "data" else op.data, op.name)

        if not fails:
            try:
                op.want = definitions_of(data, op.strategies, op.name)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation(f"generation fails: {type(e).__name__}: {e}", data=data, strategies=op.strategies) from None
        try:
            run()
        except Exception as e:  # noqa: BLE001
            op.error = e
        known = op.name in self.expected
        if op.error is None:
            if fails and fails != "name":
                raise Violation("a call whose data cannot be read ends without an error", history=self.log)
            self.expected[op.name] = op.want
            self.stored[op.name] = op
            self.counts["ok_again" if known else "ok_new"] += 1
        elif not fails and not (known and op.mode == "validate"):
            raise Violation(f"a call fails: {type(op.error).__name__}: {op.error}", history=self.log)
        else:
            self.counts["failed" if fails else "rejected"] += 1
        op.known = known
        return op
