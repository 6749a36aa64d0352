"""C27: TypedDict keys are exactly the data's keys, whatever their spelling."""
import keyword
import sys
import unicodedata

from vlib import api, gen, model
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C27"
LEVEL = "exploration"
RULE = ("each case: nested dictionaries with 1-12 hostile string keys each (catalogue, random unicode, mutations of one key, builtin/keyword/import names); the module is executed and the keys and "
        "value types of every TypedDict compared with the data. Non-trivial: 2+ keys, one of them no plain identifier or similar to another; distinct by key tuple and class name.")

ALPHABETS = ["ab_1 -", "aA_", "_a", "\"'\\n\t\r\n", "{}%$#:=,()[]", "éñüßİıſ", "名前日本語", "²½Ⅷﬁ①ª", "\u200b\u200d\u2028\u2029\x00\x7f\x85\x0b\x0c\x1c\xa0\ufeff", "\U0001f600\U0001d400\u0301\u093e", "classdefNoneTrue"]
NAMES = keyword.kwlist + keyword.softkwlist + ["int", "str", "list", "dict", "type", "object", "Any", "List", "Dict", "Union", "Optional", "TypedDict", "NotRequired", "ReadOnly", "TypeAlias", "total", "cls",
                                               "self", "fields", "typename", "Example", "ExampleA", "__doc__", "__annotations__", "__class__", "__init__", "__module__", "__slots__", "__total__",
                                               "__required_keys__", "keys", "items", "mro", "_", "__", "___", "__a", "__a__", "_Example__a", "__dict__"]


def mutate(k, r):
    return r.choice([k.upper(), k.lower(), k + "_", "_" + k, k + " ", " " + k, k + "1", "1" + k, k + "-", k.replace("_", "-"), k.replace("_", " "), k.title(), k + k, unicodedata.normalize("NFD", k),
                     unicodedata.normalize("NFKC", k), k + "\n", k + "\\", k[:-1], k.capitalize(), '"' + k + '"', "'" + k, k + "\x00", "__" + k])


def key(r, have):
    p = r.random()
    if have and p < .35:
        return mutate(r.choice(have), r)
    if p < .55:
        return r.choice(gen.WEIRD_KEYS)
    if p < .7:
        return r.choice(NAMES)
    if p < .8:
        return r.choice(gen.WORDS)
    if p < .93:
        return "".join(r.choice(r.choice(ALPHABETS)) for _ in range(r.randint(0, 8)))
    out = []
    for _ in range(r.randint(1, 5)):
        c = r.randrange(0x110000)
        out.append(chr(c) if not 0xD800 <= c < 0xE000 else "s")
    return "".join(out)


def leaf(r):
    return r.choice([1, "s", 2.5, None, True, b"b", [1], ["s"], [None], (1, "a"), [[1.5]], {1: 2}, {1: "x"}])


def build(r, depth):
    out = {}
    have = []
    for _ in range(r.choice([1, 2, 3, 4, 5, 8, 12])):
        k = key(r, have)
        have.append(k)
        p = r.random()
        out[k] = build(r, depth - 1) if depth and p < .25 else [build(r, depth - 1)] if depth and p < .32 else leaf(r)
    return out


def expect(v, ro=False):
    t = type(v)
    if v is None:
        return model.OPTOBJ
    if t is dict:
        if all(isinstance(k, str) for k in v):
            return ("td", tuple(sorted(((k, True, ro, expect(x, ro)) for k, x in v.items()), key=lambda x: x[0])))
        (k, x), = v.items()
        return ("dict", expect(k), expect(x))
    if t is list:
        return ("list", expect(v[0], ro))
    if t is tuple:
        return ("tuple", tuple(expect(x, ro) for x in v))
    return ("cls", t.__name__)


def examine(data, kw, name):
    text = api.text_of(data, kw, name)
    m = model.Module(text, name)
    got = m.root()
    want = expect(data, kw["typed_dict_read_only_values"])
    if got != want:
        raise Violation("keys or value types differ: " + differ(got, want), data=data, strategies=api.diff_strategies(kw), class_name=name, text=text)
    return text


def differ(got, want, path="data"):
    if got[0] == want[0] == "td":
        g, w = {x[0]: x for x in got[1]}, {x[0]: x for x in want[1]}
        if len(g) != len(got[1]) or g.keys() != w.keys():
            return f"{path}: missing {sorted(w.keys() - g.keys())!r}, unexpected {sorted(g.keys() - w.keys())!r}"
        for k in g:
            if g[k] != w[k]:
                return differ(g[k][3], w[k][3], f"{path}[{k!r}]") if g[k][:3] == w[k][:3] else f"{path}[{k!r}] {g[k][:3]} / {w[k][:3]}"
    if got[0] == want[0] == "list":
        return differ(got[1], want[1], path + "[0]")
    return f"{path}: {model.show(got)[:300]} instead of {model.show(want)[:300]}"


def cases(tier):
    return 20000 if tier == "quick" else 250000


def merging(i, r):
    """Similar dictionaries in a list: the hint has the keys of all of them."""
    n = r.choice([2, 2, 3, 4])
    common = key(r, [])
    values = {common: leaf(r)}
    dicts = []
    for _ in range(n):
        have = list(values)
        d = {common: values[common]}
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.choice(have) if r.random() < .3 else key(r, have) if r.random() < .6 else r.choice(gen.WORDS)
            d[k] = values.setdefault(k, leaf(r))
        items = list(d.items())
        r.shuffle(items)
        dicts.append(dict(items))
    for d in dicts:
        for k in d:
            d[k] = values[k]
    every = {k for d in dicts for k in d}
    if len(every) > 90:
        return None
    kw = dict(gen.DEFAULTS, min_height_to_define_type_alias=r.choice([0, 1, 1, 5]), merge_different_typed_dicts_if_similarity_above=1)
    text = api.text_of(dicts, kw, "Example")
    got = model.Module(text, "Example").root()
    want = ("list", ("td", tuple(sorted(((k, all(k in d for d in dicts), False, expect(values[k])) for k in every), key=lambda x: x[0]))))
    if got != want:
        raise Violation("keys or value types of merged dictionaries differ: " + differ(got, want), data=dicts, strategies=api.diff_strategies(kw), text=text)
    first = all(k.isidentifier() for k in dicts[0])
    return CaseInfo((tuple(sorted(every)), n), any(not k.isidentifier() for k in every), {"merged": 1, "merged_odd_key_only_later": first and any(not k.isidentifier() for k in every)}, sample=dict(data=safe_repr(dicts), text=text))


def run_case(i, r, cx):
    if i % 4 == 3:
        return merging(i, r)
    kw = dict(gen.DEFAULTS, min_height_to_define_type_alias=r.choice([0, 1, 1, 2, 5]), typed_dict_read_only_values=r.random() < .25)
    name = gen.class_name(r)
    data = build(r, r.choice([0, 1, 1, 2, 3]))
    text = examine(data, kw, name)
    ks = list(data)
    odd = [k for k in ks if not (k.isascii() and k.isidentifier() and not keyword.iskeyword(k))]
    return CaseInfo((tuple(ks), name), len(ks) > 1 and bool(odd), {"keys": len(ks), "odd_keys": len(odd), "functional": "TypedDict(" in text.replace("(TypedDict)", "").replace("(TypedDict,", ""),
                                                                    "class_syntax": "(TypedDict" in text, "keywords": sum(keyword.iskeyword(k) for k in ks), "non_ascii": sum(not k.isascii() for k in ks)},
                    sample=dict(keys=repr(ks), text=text))


def directed(cx):
    """Every string of one catalogue alone and next to a neighbour; every code point below 0x3000 as a key."""
    def alone(chunk):
        def fn():
            for k in chunk:
                for other in ("a", "x y"):
                    for h in (0, 1):
                        examine({k: [1], other: {k: "s", "z": {k: 1.5}}} if k != other else {k: [1]}, dict(gen.DEFAULTS, min_height_to_define_type_alias=h), "Example")
            return CaseInfo("x", counts={"catalogue_keys": len(chunk)})
        return fn

    cat = sorted(set(gen.WEIRD_KEYS + NAMES + gen.WORDS))
    for s in range(0, len(cat), 40):
        yield f"catalogue-{s}", alone(cat[s:s + 40])

    def points(lo, hi):
        def fn():
            n = 0
            for c in range(lo, hi, 64):
                chars = [chr(x) for x in range(c, min(c + 64, hi)) if not 0xD800 <= x < 0xE000]
                examine({k: (1 if j % 2 else "s") for j, k in enumerate(chars)}, dict(gen.DEFAULTS), "Example")
                examine({"a" + k: (1 if j % 2 else "s") for j, k in enumerate(chars)}, dict(gen.DEFAULTS), "Example")
                n += len(chars)
            # one at a time where the syntax could be chosen key by key
            for x in range(lo, min(hi, 0x250)):
                for k in (chr(x), "a" + chr(x), chr(x) + "a"):
                    examine({k: 1}, dict(gen.DEFAULTS), "Example")
            return CaseInfo("x", counts={"code_points": n})
        return fn

    def late(size):
        def fn():
            n = 0
            for pos in sorted({0, 1, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, 499, 500, 511, 512, 999, 1000, size - 1}):
                if pos < size:
                    for odd in ("a b", "class", "1"):
                        data = {(odd if j == pos else f"key{j}"): (1 if j % 2 else "s") for j in range(size)}
                        examine({"x": data} if n % 2 else data, dict(gen.DEFAULTS), "Example")
                        n += 1
            return CaseInfo("x", counts={"late_odd_keys": n})
        return fn

    for size in (2, 11, 65, 101, 129, 257, 501, 513, 1001):
        yield f"late-{size}", late(size)
    for lo in range(0, 0x3000, 0x400):
        yield f"points-{lo:x}", points(lo, lo + 0x400)
    if cx.tier == "thorough":
        for lo in range(0x3000, sys.maxunicode + 1, 0x4000):
            yield f"points-{lo:x}", points(lo, min(lo + 0x4000, sys.maxunicode + 1))


def required(tier):
    return {"odd_keys": 5000, "functional": 2000, "class_syntax": 1000, "keywords": 200, "non_ascii": 1000, "code_points": 10000, "late_odd_keys": 150, "merged": 2500, "merged_odd_key_only_later": 200}
