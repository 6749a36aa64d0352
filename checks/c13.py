"""C13: documentation text becomes the docstring intact and never affects types."""
import ast
import re
from pathlib import Path

import yaml

from vlib import api, gen, live, model
from vlib.runner import CaseInfo, Violation

PROP = "C13"
LEVEL = "exploration"
RULE = ("each case: nested structures of dictionaries with hostile documentation texts under key_used_as_doc (any key); the module is executed and every TypedDict's docstring compared, word by word and "
        "paragraph by paragraph, with the texts of the dictionaries it describes, and the module without docstrings with the one generated without the option. Non-trivial: some text of 2+ words; "
        "distinct by texts and strategies.")

SNIPPETS = ['"""', "'''", '"', "'", "\\", "\\n", "\\x", "\\u12", "\\N{DASH}", "{x}", "{}", "%s", "# c", "=", " = ", "class A:", "é", "名前", "\U0001f600", "\x00", "\x7f", "\u2028", "\x0c", "\x85", "\ufeff", "\udc80", "a.b", "...", ".", "!",
            "::", "`x`", "-", "*", "List[int]", "from x import y", "x: int", ": str", "TypedDict", "\\\\", '\\"', '""', '""""', "\\'", "$1", "NUL\0", "\t", "\xa0", "\u3000", "\x1c", "\r\n", "pass", "...", "@overload", "def f():", "\\\n"]
WORDS = ["this", "documents", "the", "value", "of", "a", "user", "Name", "with", "several", "words", "iPhone", "URL.", "e.g.", "x", "averyveryverylongwordthatisneverbrokenbecauseitisoneword" * 2, "ßeta", "éa", "ǆ", "1st", "'quoted'", '"quoted"', "end."]


def doc_text(r):
    k = r.random()
    if k < .06:
        return r.choice(["", " ", "\n", ".", "x", '"', "\\", "'", '"""', "\\.", 'a"', 'say "hi".', '"quoted"', 'ends with "', "ends with \\", "a.\n", "\n\na", "a\n\n", "a\n\n\n\nb", "x" * 86, "x" * 90, "y " * 60])
    out = []
    for p in range(r.choice([1, 1, 1, 2, 3])):
        if p:
            out.append(r.choice(["\n\n", "\n\n", "\n", "\n \n", "\n\n\n", "\n\t\n", "\r\n\r\n"]))
        n = r.choice([1, 2, 4, 8, 20, 40])
        for j in range(n):
            out.append(r.choice(SNIPPETS) if r.random() < .2 else r.choice(WORDS))
            if j < n - 1:
                out.append(r.choice([" ", " ", " ", " ", "  ", "\n", "\n    ", ""]))
    if r.random() < .2:
        out.append(r.choice([".", " ", "\n", "..", ". ", ".\n\n", "\\", '"', "'"]))
    return "".join(out)


def paragraphs(text, cr=True):
    text = text.replace("\r\n", "\n")
    if cr:
        text = text.replace("\r", "\n")
    return [w for w in (p.split() for p in re.split(r"\n[^\S\n]*(?=\n)", text)) if w]


def forms(text):
    """The ways in which a text can appear: as it is, capitalised and/or closed by a full stop."""
    ps = paragraphs(text)
    outs = [ps]
    if ps:
        last = ps[-1]
        outs.append([*ps[:-1], [*last[:-1], last[-1] + "."]])
        outs.append([*ps[:-1], [*last, "."]])
        outs.append([*ps, ["."]])
    else:
        outs.append([["."]])
    res = []
    for o in outs:
        res.append(o)
        if o and o[0]:
            w = o[0][0]
            res.append([[w[0].upper() + w[1:], *o[0][1:]], *o[1:]])
    return res


def carries(doc, text):
    text = text.encode("utf-8", "backslashreplace").decode("utf-8")  # no docstring can hold lone surrogates
    if "\r" in text.replace("\r\n", ""):  # where lines end is then a matter of taste
        flat = [[w for p in f for w in p] for f in forms(text)]
        return [w for p in paragraphs(doc) for w in p] in flat
    return paragraphs(doc) in forms(text)


class Build:
    def __init__(self, r, key):
        self.r, self.key, self.n = r, key, 0
        self.dicts = []
        self.hostile = r.random() < .25

    def family(self, depth):
        """Dictionaries of the same or similar keys, all with one type per key."""
        r = self.r
        f = self.n
        self.n += 1
        names = [f"{w}_{f}" for w in r.sample(["name", "age", "item", "val", "opt"], r.randint(2, 4))]
        if self.hostile and r.random() < .4:
            names[0] = r.choice(["a-b", "class", "1", "a b", "x=y", '"q"', "__m"]) + f" {f}"
        kinds = {k: r.choice(["int", "str", "list", "none"]) for k in names}
        kinds_sub = self.family(depth - 1) if depth and r.random() < .5 else None
        documented = r.random()
        bad = r.random() < .12

        def make(copy=0):
            d = {}
            ks = list(names)
            if copy and r.random() < .3:
                r.shuffle(ks)
            if copy and len(ks) > 2 and r.random() < .25:
                ks.remove(r.choice(ks))
            for k in ks:
                d[k] = {"int": r.randint(0, 9), "str": r.choice(["", "text", doc_text(r)]), "list": [r.choice([1, 2])], "none": None}[kinds[k]]
            if kinds_sub:
                d[f"sub_{f}"] = r.choice([lambda: kinds_sub(1), lambda: [kinds_sub(0), kinds_sub(1)], lambda: (kinds_sub(1),)])() if not copy else kinds_sub(1)
            if r.random() < documented:
                v = doc_text(r) if not bad else r.choice([5, None, 2.5, True, b"bytes text", 7])
                if r.random() < .3:
                    d = {self.key: v, **d}
                else:
                    d[self.key] = v
            self.dicts.append(d)
            return d

        return make

    def build(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            fam = self.family(r.choice([0, 1, 2]))
            out.append(fam())
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                out.append(fam(1))
        k = r.random()
        if len(out) == 1 and k < .6:
            return out[0]
        if k < .4:
            return out
        if k < .6:
            return tuple(out)
        return {f"k{j}": x for j, x in enumerate(out)}


def described(m):
    """[(keys with annotations, docstring or None)] of the TypedDicts of a module."""
    out = []
    body = m.tree.body
    for j, n in enumerate(body):
        if isinstance(n, ast.ClassDef) and any(ast.unparse(b) == "TypedDict" for b in n.bases):
            out.append((n.name, m.ns[n.name], m.ns[n.name].__doc__ if ast.get_docstring(n, clean=False) is not None else None))
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == "TypedDict":
            nx = body[j + 1] if j + 1 < len(body) else None
            doc = nx.value.value if isinstance(nx, ast.Expr) and isinstance(nx.value, ast.Constant) and isinstance(nx.value.value, str) else None
            name = n.targets[0].id
            out.append((name, m.ns[name], doc))
    return out


def examine(data, dicts, key, kw, name):
    text = api.text_of(data, {**kw, "key_used_as_doc": key}, name)
    plain = api.text_of(data, {**kw, "key_used_as_doc": ""}, name)
    info = dict(data=data, key_used_as_doc=key, strategies=api.diff_strategies(kw), text=text)
    if live.definitions(text) != live.definitions(plain):
        raise Violation("documentation changes the definitions", without=plain, **info)
    m = model.Module(text, name)
    tds = described(m)
    # every docstring in the module belongs to a TypedDict
    strings = sum(isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) for n in ast.walk(m.tree))
    if strings != sum(d is not None for _, _, d in tds):
        raise Violation("there are docstrings which are not those of a TypedDict", **info)
    return carried(m, tds, dicts, key, info)


def carried(m, tds, dicts, key, info):
    checked = absent = chosen = 0
    for n, t, doc in tds:
        td = dict((k, model_) for k, _, _, model_ in m._typed_dict(t)[1])
        expected = key and key in td and td[key] == ("cls", "str")
        if not expected:
            absent += 1
            if doc is not None:
                raise Violation(f"{n} has a docstring although none of its dictionaries has a text under {key!r}", **info)
            continue
        texts = [d[key] for d in dicts if set(d) <= set(td) and isinstance(d.get(key), str)]
        if doc is None:
            raise Violation(f"{n} has no docstring, although its dictionaries have {texts!r:.500}", **info)
        if not any(carries(doc, x) for x in texts):
            raise Violation(f"the docstring of {n} is {doc!r:.1500}, but the text is {texts!r:.1500}", **info)
        checked += 1
        chosen += len(set(texts)) > 1
    return dict(docstrings=checked, without_text=absent, chosen_among_several=chosen, typed_dicts=len(tds))



def every_dict(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from every_dict(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from every_dict(v)


def scalar_of(r, text, col):
    """The text as a value that is written in several lines, some of which look like keys with comments."""
    pad = " " * (col + 2)
    words = text.split() or ["x"]
    lines = [" ".join(words[j:j + 3]) for j in range(0, len(words), 3)]
    for _ in range(r.choice([1, 1, 2])):
        lines.insert(r.randint(0, len(lines)), r.choice(["note: x  # look", "- item: 1 # look", "key:  # look", "run: |", "# heading", "a: b", "deep: 1 # what: 2", "path: C:/x  # y"]))
    style = r.choice(["|", "|-", ">", "|+", ">-", '"', "'"])
    if style in "'\"":
        lines = [ln for ln in lines if not ln.startswith("#")]
        return style + ("\n" + pad).join(lines) + style
    return style + "\n" + "\n".join(pad + ln for ln in lines)


PLAIN = [w for w in WORDS if w.isalpha()]


def yaml_document(r, key):
    """A document whose dictionaries have documentation texts under a key."""
    def mapping(col, depth):
        out = []
        names = r.sample(["name", "age", "item", "val", "opt", "list", "more"], r.randint(1, 4))
        if r.random() < .85:
            names.insert(r.randint(0, len(names)), key)
        for k in names:
            pad = " " * col
            if k != key and r.random() < .3:
                out.append(pad + "# " + r.choice(["above it", "more words", "x"]))
            if k == key or r.random() < .2:
                v = scalar_of(r, " ".join(r.choice(PLAIN) for _ in range(r.randint(1, 12))), col) if r.random() < .7 else r.choice(PLAIN) + r.choice(["", "  # side", " # x"])
                out.append(f"{pad}{k}: {v}")
            elif depth and r.random() < .5:
                out.append(f"{pad}{k}:" + r.choice(["", "  # side"]))
                if r.random() < .5:
                    out += mapping(col + 2, depth - 1)
                else:
                    for _ in range(r.choice([1, 1, 2])):
                        first, *rest = mapping(col + 2, depth - 1)
                        while first.lstrip().startswith("#"):
                            out.append(first)
                            first, *rest = rest
                        out += [pad + "- " + first[col + 2:], *rest]
            else:
                out.append(f"{pad}{k}: {r.choice(['1', 'text', '[1, 2]', 'null'])}" + r.choice(["", "  # side", " # the: end"]))
        return out

    return "\n".join(mapping(0, r.choice([1, 2, 3]))) + "\n"


def from_yaml(i, r, cx):
    from lazy_type_hint import LazyTypeHint

    key = r.choice(["doc", "description", "k-doc"])
    text = yaml_document(r, key)
    path = cx.scratch.tmp / f"c13_{i}.yaml"
    path.write_text(text, "utf-8")
    kw = gen.strategies(r, check_max_n_elements_within_container=500, dict_strategy="TypedDict", key_used_as_doc=key)
    kw["merge_different_typed_dicts_if_similarity_above"] = r.choice([50, 51, 75, 100])
    pos = r.choice([None, "side", "above", "below", ("side",), ["above", "side"]])
    try:
        data = yaml.safe_load(text)
    except yaml.YAMLError:
        path.unlink()
        return CaseInfo(i, False, dict(not_loadable=1))
    tree = LazyTypeHint(api.make_strategies(kw)).from_yaml_file(lambda p: yaml.safe_load(Path(p).read_text("utf-8")), path, class_name="Example", comments_are=pos)
    out = tree.to_string()
    path.unlink()
    info = dict(document=text, comments_are=pos, key_used_as_doc=key, strategies=api.diff_strategies(kw), text=out)
    m = model.Module(out, "Example")
    counts = carried(m, described(m), list(every_dict(data)), key, info)
    return CaseInfo((text, str(pos)), counts["docstrings"] > 0, dict(yaml_docstrings=counts["docstrings"], yaml_documents=1), sample=dict(document=text, text=out))


def cases(tier):
    return 24000 if tier == "quick" else 400000


def run_case(i, r, cx):
    if i % 8 == 3:
        return from_yaml(i, r, cx)
    key = r.choice(["doc", "doc", "doc", "name", "_doc", "class", "doc-key", "a b", '"', "Documentação", "", "{key}"])
    b = Build(r, key or "doc")
    data = b.build()
    kw = gen.strategies(r, check_max_n_elements_within_container=500)
    kw.pop("key_used_as_doc", None)
    if r.random() < .8:
        kw["dict_strategy"] = "TypedDict"
    kw["merge_different_typed_dicts_if_similarity_above"] = r.choice([50, 51, 60, 75, 100])
    counts = examine(data, b.dicts, key, kw, gen.class_name(r))
    texts = [d[key] for d in b.dicts if isinstance(d.get(key), str)]
    return CaseInfo((repr(texts), repr(kw)), any(len(t.split()) > 1 for t in texts) and counts["docstrings"] > 0, counts, sample=dict(data=data, key=key))


def directed(cx):
    import itertools

    base = dict(gen.DEFAULTS)
    base.pop("key_used_as_doc")
    for s in [*SNIPPETS, *WORDS]:
        def fn(s=s):
            c = 0
            for pre, post in itertools.product(["", "word ", "x" * 80 + " ", "a\n\n"], ["", " word", ".", " " + "y" * 85]):
                t = pre + s + post
                for d in ({"doc": t, "a": 1}, {"doc": t, "a-b": 1}):
                    c += examine(d, [d], "doc", base, "Example")["docstrings"]
            return CaseInfo(s, True, dict(snippet_positions=c))

        yield f"snippet {s!r}"[:60], fn

    def lengths():
        c = 0
        for n in range(0, 200):
            for t in ("x" * n, "a " * (n // 2), "a " * (n // 2) + "b" * (n % 7), "a" * 7 + " " + "b" * n + " c"):
                for d in ({"doc": t, "a": 1}, {"doc": t, "a-b": 1}):
                    c += examine(d, [d], "doc", base, "Example")["docstrings"]
        return CaseInfo("lengths", True, dict(lengths=c))

    yield "lengths", lengths


def required(tier):
    return {"docstrings": 10000, "chosen_among_several": 1000, "without_text": 5000, "snippet_positions": 1500, "lengths": 1500, "yaml_documents": 1500, "yaml_docstrings": 1500}
