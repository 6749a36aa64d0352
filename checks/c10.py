"""C10: min_height_to_define_type_alias changes layout, never meaning."""
import ast
import warnings

from checks import c02, c11
from vlib import api, gen, model, ref
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C10"
LEVEL = "exploration"
RULE = ("each case: random data generated under heights 0,1,2,3,5 and more; the expanded hints are compared with each other and a reference, the number of definitions has to fall, and every definition "
        "and every inlined container is checked against its own height. Non-trivial: the number of definitions differs between heights; distinct by hint.")
HEIGHTS = [0, 1, 2, 3, 4, 6, 50]  # and one at random
GENERIC = {"List", "Sequence", "Set", "FrozenSet", "Tuple", "Dict", "Mapping", "MappingProxyType", "Iterator", "pd.Series"}


def cases(tier):
    return 16000 if tier == "quick" else 80000


class Layout:
    """Heights of the definitions and of the containers written inside other definitions."""

    def __init__(self, mod, text):
        self.mod = mod
        self.nodes = dict(mod.definitions())
        self.text = text
        self.cache = {}
        self.inline = []  # (height, source) of containers without a name
        self.kinds = {}

    def height_of(self, name):
        if name not in self.cache:
            self.cache[name] = 1
            n = self.nodes[name]
            if isinstance(n, ast.ClassDef):
                self.kinds[name] = "class"
                hs = [self.of(x.annotation, False) for x in n.body if isinstance(x, ast.AnnAssign)]
                if not any(isinstance(b, ast.Name) and b.id == "TypedDict" for b in n.bases):
                    self.kinds[name] = "other"
                    hs = []
                    if any(ast.unparse(b) == "pd.DataFrame" for b in n.bases):
                        self.kinds[name] = "class"
                        hs = [self.of(x.returns, False) for x in n.body if isinstance(x, ast.FunctionDef) and "Literal[" in ast.unparse(x.args.args[1].annotation)[:8] and any(ast.unparse(d) == "overload" for d in x.decorator_list)]
                self.cache[name] = 1 + max(hs, default=0) if self.kinds[name] == "class" else 0
            elif isinstance(n, ast.Assign):
                self.kinds[name] = "class"
                d = n.value.args[1]
                self.cache[name] = 1 + max((self.of(v, False) for v in d.values), default=0)
            else:
                self.kinds[name] = "frame" if ast.unparse(n.value) == "pd.DataFrame" else "alias"
                self.cache[name] = self.of(n.value, True)
        return self.cache[name]

    def of(self, node, top):
        if isinstance(node, ast.Name):
            return self.height_of(node.id) if node.id in self.nodes else 0
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.of(ast.parse(node.value, mode="eval").body, top)
            except SyntaxError:
                return 0
        if isinstance(node, ast.Attribute):
            return ast.unparse(node) == "pd.DataFrame"
        if isinstance(node, ast.Subscript):
            base = node.value.id if isinstance(node.value, ast.Name) else ast.unparse(node.value)
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            h = max((self.of(a, False) for a in args), default=0)
            if base in GENERIC:
                if not top:
                    self.inline.append((h + 1, ast.unparse(node)))
                return h + 1
            return h
        return 0


def run_case(i, r, cx):
    kw = gen.strategies(r, check_max_n_elements_within_container=None)
    g = gen.Gen(r, gen.Features(dup=.4, weird_keys=.3, callables=.02))
    data = g.container()
    if i % 9 == 4:
        data = c11.wrap(c11.group(r, 1), r)
        data = g.bury(data, 4) if r.random() < .3 else data
    elif i % 40 == 7:
        data = g.bury(data, 45)
    framed = i % 7 == 6
    if framed:
        warnings.simplefilter("ignore")
        data = c02.with_frames(r, g, data)
    name = gen.class_name(r)
    first = None
    prev = None
    counts = {"inline": 0, "aliases": 0}
    numbers = []
    want = ref.hint(data, kw)
    heights = sorted({*HEIGHTS, r.randint(5, 40)})
    for h in heights:
        k = dict(kw, min_height_to_define_type_alias=h)
        text = api.text_of(data, k, name)
        mod = model.Module(text, name)
        m = mod.root()
        info = dict(data=data, strategies=api.diff_strategies(k), class_name=name, text=text)
        e = ref.explain(m, want)
        if e:
            raise Violation(f"min_height={h}: the hint is not that of the data: {e}", **info)
        if first is not None and m != first:
            raise Violation(f"min_height={h} changes the meaning: {ref.explain(m, first)}", **info)
        first = m
        lay = Layout(mod, text)
        for n in lay.nodes:
            lay.height_of(n)
        numbers.append(len(lay.nodes))
        if prev is not None and len(lay.nodes) > prev:
            raise Violation(f"min_height={h}: {len(lay.nodes)} definitions, more than the {prev} with a lower height", **info)
        prev = len(lay.nodes)
        for n, kind in lay.kinds.items():
            if kind == "alias" and n != name:
                counts["aliases"] += 1
                if lay.cache[n] <= h and lay.cache[n] > 0:
                    raise Violation(f"min_height={h}: alias {n} of height {lay.cache[n]}", **info)
        for hh, src in lay.inline:
            counts["inline"] += 1
            if hh > h:
                raise Violation(f"min_height={h}: {src} of height {hh} has no alias", **info)
    counts["with_frames"] = framed and "pd." in text
    counts["fewer_definitions"] = numbers[0] > numbers[-1]
    return CaseInfo(first, numbers[0] > numbers[-1], counts, sample=dict(data=safe_repr(data), definitions=dict(zip(heights, numbers)), text=text), evals=len(heights))


def required(tier):
    return {"inline": 3000, "aliases": 3000, "fewer_definitions": 1000, "with_frames": 1200}
