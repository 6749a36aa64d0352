"""C14: YAML comments never change the types."""
import warnings
from pathlib import Path
from types import MappingProxyType

import yaml

from vlib import api, gen, live, yamlgen
from vlib.runner import CaseInfo, Violation

PROP = "C14"
LEVEL = "exploration"
RULE = ("each case: a YAML document (random structure and layout, or pieces with multi-line scalars, flow style, anchors, odd keys), with comments put into it at random places; the module of from_yaml_file is compared, "
        "docstrings aside, with that of from_data on what the loader returns. Non-trivial: the document loads and has a comment; distinct by document text and positions.")
ASSUMPTIONS = ["comment positions that the tool documents as incompatible (above and below together) are not asked for", "the loader is yaml.safe_load or a deterministic wrapper of it"]


def strip_doc(text):
    return live.definitions(text)


class Wrapped:
    pass


def everywhere(fn):
    def walk(x):
        if isinstance(x, dict):
            return fn({k: walk(v) for k, v in x.items()})
        if isinstance(x, (list, tuple)):
            return type(x)(walk(v) for v in x)
        return x
    return walk


def flat(x, prefix=""):
    if not isinstance(x, dict):
        return {prefix: x}
    out = {}
    for k, v in x.items():
        out.update(flat(v, f"{prefix}.{k}" if prefix else str(k)))
    return out


RESHAPED = {"pairs": everywhere(lambda d: list(d.items())), "pairs in a tuple": everywhere(lambda d: tuple(d.items())), "keys": everywhere(list), "values": everywhere(lambda d: list(d.values())),
            "single unwrapped": everywhere(lambda d: d if len(d) != 1 else next(iter(d.values()))), "sorted": everywhere(lambda d: dict(sorted(d.items(), key=repr))), "reversed": everywhere(lambda d: dict(reversed(d.items()))),
            "upper case": everywhere(lambda d: {str(k).upper(): v for k, v in d.items()}), "numbered": everywhere(lambda d: dict(enumerate(d.values()))), "frozen": everywhere(MappingProxyType), "flat": flat,
            "counted": everywhere(lambda d: {**d, "count": len(d)} if len(d) < 4 else tuple(d.values())), "set of keys": everywhere(lambda d: set(map(str, d))), "frozen keys": lambda d: frozenset(map(str, d)) if isinstance(d, dict) else d,
            "first": everywhere(lambda d: next(iter(d.values()), None)), "last": everywhere(lambda d: [*d.values(), None][-2] if d else None), "strings": everywhere(lambda d: {str(k): v if isinstance(v, (dict, list)) else str(v) for k, v in d.items()}),
            "object": everywhere(lambda d: Wrapped() if len(d) > 2 else d), "iterators": everywhere(lambda d: {k: iter(v) if isinstance(v, list) else v for k, v in d.items()})}


def make_loader(r, calls, latin=False):
    kind = "latin" if latin else r.choice(["safe"] * 12 + ["full", "text", "tuple", "name"] * 3 + list(RESHAPED))

    def loader(path):
        calls.append(path)
        p = Path(path)
        if kind == "text":
            return yaml.safe_load(p.read_text("utf-8-sig"))
        if kind == "latin":
            return yaml.safe_load(p.read_text("latin-1"))
        with open(path, "rb") as f:
            d = (yaml.full_load if kind == "full" else yaml.safe_load)(f)
        if kind == "tuple":
            return (d, len(calls))
        if kind == "name":
            return {"file": p.name, "content": d}
        return RESHAPED.get(kind, lambda x: x)(d)

    return loader, kind


def cases(tier):
    return 30000 if tier == "quick" else 200000


def text_for(cx, r, text, kw, pos, form, name, calls=None):
    from lazy_type_hint import LazyTypeHint

    path = cx.scratch.tmp / f"c14_{name}{r.choice(['.yaml', '.yml'])}"
    latin = r.random() < .05 and all(c < "\u0100" for c in text)
    if latin and r.random() < .7:
        text = text.replace("word", "größe").replace(" a", " \xe0").replace("# ", "# \xe9", 1) + ("# \xfc\xff\n" if text.endswith("\n") else "")
    path.write_bytes(text.encode("latin-1" if latin else "utf-8"))
    arg = str(path) if form == "str" else path
    calls = []
    loader, kind = make_loader(r, calls, latin)
    try:
        data = loader(arg)
        want = LazyTypeHint(api.make_strategies(kw)).from_data(data, class_name="Example").to_string()
    except RecursionError:
        path.unlink()
        return None
    except Exception:  # noqa: BLE001  not a document that loads (and can be hinted)
        path.unlink()
        return None
    info = dict(document=text, comments_are=pos, strategies=api.diff_strategies(kw), loader=kind, want=want)
    try:
        args = {} if pos == "default" else {"comments_are": pos}
        got = LazyTypeHint(api.make_strategies(kw)).from_yaml_file(loader, arg, class_name="Example", **args).to_string()
    except Exception as e:  # noqa: BLE001
        raise Violation(f"generation from the file fails, though it works from its data: {type(e).__name__}: {e}", **info) from None
    finally:
        path.unlink()
    if strip_doc(got) != strip_doc(want):
        raise Violation("with its comments, the file gets other definitions than its data alone", got=got, **info)
    return got, want, data, latin and not text.isascii()


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    text = yamlgen.hostile(r)
    kw = gen.strategies(r)
    if r.random() < .25:
        kw["key_used_as_doc"] = r.choice(["name1", "k2", "a", "key", "text"])
    if r.random() < .3:
        kw["check_max_n_elements_within_container"] = r.randint(1, 4)
    pos = r.choice([*yamlgen.POSITIONS, "default"])
    x = text_for(cx, r, text, kw, pos, r.choice(["str", "path"]), i)
    if x is None:
        return CaseInfo(i, False, dict(not_loadable=1))
    got, want, data, latin = x
    return CaseInfo((text, str(pos)), "#" in text, dict(loadable=1, documented=got != want, latin=latin, containers=isinstance(data, (list, dict))), sample=dict(document=text, comments_are=pos))


def directed(cx):
    import random

    docs = {f"fragment {j}": f for j, f in enumerate(yamlgen.FRAGMENTS) if f}
    docs.update({f"two {j}": f + "\n" + "other: 1 # z\nlast: 2\n# end\n" for j, f in enumerate(yamlgen.FRAGMENTS) if f and not f.startswith("-")})
    docs["empty"] = ""
    docs["only comment"] = "# nothing\n"
    docs["scalar"] = "5 # c\n"
    for n, d in docs.items():
        def fn(d=d, n=n):
            c = 0
            for pos in yamlgen.POSITIONS:
                for kw in ({}, {"dict_strategy": "dict"}, {"dict_strategy": "Mapping", "check_max_n_elements_within_container": 1}):
                    r = random.Random(n)
                    x = text_for(cx, r, d, {**gen.DEFAULTS, **kw}, pos, "path", "directed")
                    c += x is not None
            return CaseInfo(n, True, dict(directed_documents=c))

        yield n, fn


def required(tier):
    return {"loadable": 4000, "documented": 400, "latin": 60, "containers": 3500, "directed_documents": 1000}
