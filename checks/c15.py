"""C15: each YAML comment documents its own key, with its words intact."""
import warnings
from pathlib import Path

import yaml

from vlib import api, gen, yamlgen
from vlib.runner import CaseInfo, Violation

PROP = "C15"
LEVEL = "exploration"
RULE = ("each case: a block-style YAML document whose keys have names of their own, with comments at the side, above and below, aligned or not, each with a unique word; what documents a key is computed from the geometry "
        "of the text and compared with the docstring of that key in the hint. Non-trivial: at least 2 keys are documented; distinct by document and positions.")
ASSUMPTIONS = ["words are compared without the case of their first letter and final dots, which the tool may change",
               "documents are indented with spaces, comments contain no triple quotes"]


def cases(tier):
    return 30000 if tier == "quick" else 150000


def loaded(text):
    """PyYAML takes no tab before a comment; loaders that follow the specification do."""
    return yaml.safe_load(text.replace("\t#", " #"))


def load(path):
    return loaded(Path(path).read_bytes().decode("utf-8-sig"))


def run_case(i, r, cx):
    from lazy_type_hint import LazyTypeHint

    warnings.simplefilter("ignore")
    b = yamlgen.Builder(r)
    text = b.document()
    try:
        data = loaded(text)
    except yaml.YAMLError:
        return CaseInfo(i, False, dict(not_loadable=1))
    if not isinstance(data, (dict, list)):
        return CaseInfo(i, False, dict(not_loadable=1))
    kw = gen.strategies(r, dict_strategy="TypedDict")
    pos = r.choice([*yamlgen.POSITIONS, "default", "side", "above", "below", ("above", "side")])
    path = cx.scratch.tmp / f"c15_{i}.yaml"
    newline = "\n" if r.random() < .8 else r.choice(["\r\n", "\r", "\x85"])
    bom = r.random() < .1
    path.write_bytes(("\ufeff" * bom + text.replace("\n", newline)).encode())
    info = dict(document=text, newline=newline, byte_order_mark=bom, comments_are=pos, strategies=api.diff_strategies(kw))
    try:
        args = {} if pos == "default" else {"comments_are": pos}
        got = LazyTypeHint(api.make_strategies(kw)).from_yaml_file(load, str(path) if r.random() < .5 else path, class_name="Example", **args).to_string()
    except Exception as e:  # noqa: BLE001
        raise Violation(f"generation from the file fails: {type(e).__name__}: {e}", **info) from None
    finally:
        path.unlink()
    info["text"] = got
    truth = yamlgen.ground_truth(b, yamlgen.positions("side" if pos == "default" else pos))
    docs, func = yamlgen.docstrings(got)
    n = silent = shared = 0
    for key, have in docs.items():
        if key not in truth:  # from a flow style value
            if any(have):
                raise Violation(f"key {key!r} has no comment of its own but the docstring {have}", **info)
            continue
        want = truth[key]
        for h in have:
            if h and h not in want:
                raise Violation(f"the docstring of key {key!r} has the words {' '.join(h)!r} instead of {[' '.join(w) for w in want]}", **info)
            n += bool(h)
            silent += not h
        if any(want) and not any(have) and key not in func and (all(want) or len(have) == 1):
            raise Violation(f"key {key!r} has no docstring, although it has the comments {[' '.join(w) for w in want if w]}", **info)
        shared += len(want) > 1 and any(have)
    return CaseInfo((text, str(pos)), n >= 2, dict(documented=n, silent=silent, shared=shared, functional=len(func), nothing_requested=not yamlgen.positions(pos), byte_order_marks=bom, other_line_ends=newline != "\n"),
                    sample=dict(document=text, comments_are=pos, text=got))


def required(tier):
    return {"documented": 8000, "silent": 8000, "shared": 800, "nothing_requested": 500, "byte_order_marks": 800, "other_line_ends": 1500}
