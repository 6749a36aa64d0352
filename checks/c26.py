"""C26: strategies are validated on construction and immutable."""
import copy
import dataclasses
import itertools
from collections import UserString
from pathlib import PurePath

from vlib import api, gen, model
from vlib.runner import CaseInfo, Violation

PROP = "C26"
LEVEL = "exploration"
RULE = ("all integers around the bounds and catalogues of right and wrong choices for each option alone (directed), the whole product of the listed choices with several numbers (directed), and "
        "random combinations of values for all options; accepted objects are read back, attacked and used. Non-trivial: at least 3 options given; distinct by arguments.")

CHOICES = {"list_strategy": ["Sequence", "list"], "tuple_size_strategy": ["fixed", "any size"], "dict_strategy": ["TypedDict", "Mapping", "dict"],
           "pandas_strategies": ["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"]}
OTHERS = ["", " ", "list ", "List", "LIST", "sequence", "SEQUENCE", "Fixed", "any", "any  size", "anysize", "typeddict", "TypedDic", "TypedDicts", "mapping", "Dict", "full type hint", "Full type hint.",
          "Full", "Type hint only for autocompletion", "Do not type hint", None, 0, 1, True, False, (), b"list", 3.5, PurePath("list"), PurePath("Sequence"), PurePath("TypedDict"), PurePath("Full type hint"), PurePath("fixed"), UserString("any size x")]
N = "merge_different_typed_dicts_if_similarity_above"
H = "min_height_to_define_type_alias"
C = "check_max_n_elements_within_container"
INTS = {H: lambda v: v >= 0, N: lambda v: 1 <= v <= 100, C: lambda v: v is None or v >= 1}
BIG = [-10 ** 18, -1000, -101, -100, 101, 150, 200, 1000, 2 ** 31, 10 ** 18]


def valid(name, v):
    if name in CHOICES:
        return any(type(v) is str and v == c for c in CHOICES[name])
    if name in INTS:
        return INTS[name](v)
    return True


def attempt(kw):
    """Constructs; returns the object or None, checking that acceptance is right."""
    from lazy_type_hint.strategies import ParsingStrategies

    wrong = [k for k, v in kw.items() if not valid(k, v)]
    try:
        o = ParsingStrategies(**kw)
    except ValueError as e:
        if not wrong:
            raise Violation(f"documented values refused: {e}", arguments=kw) from None
        if not any(w in str(e) for w in wrong):
            raise Violation(f"the error does not name a wrong option: {e}", arguments=kw, wrong=wrong) from None
        return None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{type(e).__name__} instead of {'ValueError' if wrong else 'acceptance'}: {e}", arguments=kw) from None
    if wrong:
        raise Violation(f"accepted although {wrong} is outside the documented values", arguments=kw)
    want = {**gen.DEFAULTS, **kw}
    for k, v in want.items():
        got = getattr(o, k)
        if got != v or type(got) is not type(v):
            raise Violation(f"{k} reports {got!r} instead of {v!r}", arguments=kw)
    return o


def attack(o, kw):
    want = {**gen.DEFAULTS, **kw}
    for k in [*want, "new_attribute"]:
        for act in (lambda: setattr(o, k, want.get(k, 1)), lambda: setattr(o, k, "zzz"), lambda: delattr(o, k)):
            try:
                act()
            except (AttributeError, TypeError):
                continue
            raise Violation(f"{k} of an accepted object can be set or deleted", arguments=kw)
    for k, v in want.items():
        if getattr(o, k) != v:
            raise Violation(f"{k} changed to {getattr(o, k)!r}", arguments=kw)
    from lazy_type_hint.strategies import ParsingStrategies

    if o != ParsingStrategies(**kw) or copy.copy(o) != o:
        raise Violation("equal strategies are not equal", arguments=kw)


SAMPLE = {"a": [{"x": 1, "y": (1, "a")}, {"x": 2}], "b": {1: {"p": None}, 2: {"p": [1.5, "s"]}}, "c d": {"class": ((), [[]])}, "e": [{"k": i} for i in range(4)], "s": {1, "x"}, "doc": "A text."}


def use(kw):
    m = model.Module(api.text_of(SAMPLE, {**gen.DEFAULTS, **kw}), "Example")
    t = m.root()
    if {**gen.DEFAULTS, **kw}[C] in (None, 500) and not model.fits(SAMPLE, t, False):
        raise Violation("the hint generated with these strategies does not fit", arguments=kw, text=m.text)


def cases(tier):
    return 12000 if tier == "quick" else 200000


def run_case(i, r, cx):
    kw = {}
    wrongness = r.choice([0, 0, .1, .4])
    for k, cs in CHOICES.items():
        if r.random() < .5:
            kw[k] = r.choice(OTHERS + ["".join(r.sample(cs[0], len(cs[0])))]) if r.random() < wrongness else r.choice(cs)
    for k in INTS:
        if r.random() < .6:
            v = r.choice([r.randint(-130, 130), r.choice(BIG)]) if r.random() < wrongness else {H: r.randint(0, 60), N: r.randint(1, 100), C: r.choice([None, 1, 2, r.randint(1, 2000)])}[k]
            kw[k] = v
    if r.random() < .3:
        kw["key_used_as_doc"] = r.choice(["", "doc", "a", "x y"])
    if r.random() < .3:
        kw["typed_dict_read_only_values"] = r.random() < .5
    o = attempt(kw)
    used = 0
    if o is not None:
        attack(o, kw)
        if i % 4 == 0:
            use(kw)
            used = 1
    return CaseInfo(repr(kw), len(kw) >= 3, {"accepted": o is not None, "refused": o is None, "used": used}, sample=dict(arguments=kw, accepted=o is not None))


def directed(cx):
    def single():
        n = 0
        for k, cs in CHOICES.items():
            for v in OTHERS + [x for y in CHOICES.values() for x in y] + [c.swapcase() for c in cs] + [c + "x" for c in cs] + [c[:-1] for c in cs]:
                attempt({k: v})
                n += 1
        for k in INTS:
            for v in [*range(-250, 2101), *BIG]:
                if attempt({k: v}) is not None and v % 50 < 3:
                    attack(attempt({k: v}), {k: v})
                n += 1
        attempt({C: None})
        attempt({})
        return CaseInfo("x", counts={"single_values": n})

    def product():
        n = 0
        for cs in itertools.product(*CHOICES.values()):
            for h, s, c, ro in itertools.product((0, 1, 3), (1, 50, 100), (None, 1, 500), (False, True)):
                kw = dict(zip(CHOICES, cs), **{H: h, N: s, C: c, "typed_dict_read_only_values": ro})
                o = attempt(kw)
                attack(o, kw)
                use(kw)
                n += 1
        return CaseInfo("x", counts={"product": n})

    def other():
        from lazy_type_hint.strategies import ParsingStrategies

        a = attempt({})
        b = dataclasses.replace(a, list_strategy="Sequence") if dataclasses.is_dataclass(a) else None
        if b is not None and (a.list_strategy != "list" or b.list_strategy != "Sequence"):
            raise Violation("replacing a value in a copy changes the original")
        try:
            ParsingStrategies(no_such_option=1)
        except TypeError:
            return CaseInfo("x")
        raise Violation("an unknown option is accepted")

    yield "single", single
    yield "product", product
    yield "other", other


def required(tier):
    return {"accepted": 3000, "refused": 1000, "used": 500, "single_values": 5000, "product": 1900}
