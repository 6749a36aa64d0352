"""C12: inspection is bounded by check_max_n_elements_within_container."""
import copy
import itertools
from types import MappingProxyType

import pandas as pd

from vlib import api, gen, model, ref, samples as S
from vlib.runner import CaseInfo, Violation, safe_repr

PROP = "C12"
LEVEL = "exploration"
RULE = ("each case: a template of nested lists, tuples, sets, dictionaries, proxies, series, frames and iterators (custom, generator, map, zip, file-like, infinite) is realised in full and cut to n; "
        "texts must be equal, counting iterators must not be asked for more than n, and the hint must equal the reference model. Non-trivial: something was cut; distinct by text and n.")


class Counting:
    """An iterator that counts what is taken out of it; may be infinite."""

    def __init__(self, items, infinite=False):
        self.it = itertools.cycle(items) if infinite else iter(items)
        self.taken = 0

    def __iter__(self):
        return self

    def __next__(self):
        v = next(self.it)
        self.taken += 1
        return v


class It:
    """Template of an iterator."""

    def __init__(self, kind, items):
        self.kind, self.items = kind, items

    def __repr__(self):
        return f"<{self.kind} over {self.items!r}>"


class Ser:
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return f"<series of {self.items!r}>"


class Frame:
    def __init__(self, cols):
        self.cols = cols

    def __repr__(self):
        return f"<frame of {self.cols!r}>"


def make_iterator(kind, items, counters, n):
    if kind == "infinite":
        # cut: one whole round more than n never matters
        c = Counting(items, True)
        counters.append(c)
        return c if n is None else Counting(list(itertools.islice(itertools.cycle(items), n)))
    items = items if n is None else items[:n]
    c = Counting(items)
    counters.append(c)
    if kind == "custom":
        return c
    if kind == "generator":
        return (x for x in c)
    if kind == "map":
        return map(lambda x: x, c)
    if kind == "chain":
        return itertools.chain(c)
    if kind == "list_iterator":
        counters.pop()
        return iter(items)
    raise AssertionError(kind)


def realise(t, n, kw, counters):
    """The data of a template, with every container that is subject to the limit cut to n (None: in full)."""
    def cut(items):
        items = list(items)
        return items if n is None else items[:n]

    if isinstance(t, It):
        limit = len(t.items) if n is None else (n if t.kind == "infinite" else min(n, len(t.items)))
        if t.kind == "infinite":
            items = [realise(x, n, kw, counters) for x in t.items]
        else:
            items = [realise(x, n, kw, counters) for x in t.items[:limit]]
        return make_iterator(t.kind, items, counters, n)
    if isinstance(t, Ser):
        return pd.Series([realise(x, n, kw, counters) for x in cut(t.items)], dtype=object)
    if isinstance(t, Frame):
        cols = {c: cut(v) for c, v in t.cols.items()}
        return pd.DataFrame(cols, dtype=object)
    if isinstance(t, MappingProxyType):
        return MappingProxyType({k: realise(v, n, kw, counters) for k, v in cut(t.items())})
    if isinstance(t, dict):
        items = t.items() if kw["dict_strategy"] == "TypedDict" else cut(t.items())
        new = copy.copy(t)
        new.clear()
        new.update({k: realise(v, n, kw, counters) for k, v in items})
        return new
    if isinstance(t, list):
        return type(t)(realise(x, n, kw, counters) for x in cut(t))
    if isinstance(t, tuple):
        return tuple.__new__(type(t), [realise(x, n, kw, counters) for x in cut(t)])
    if isinstance(t, (set, frozenset)):
        return t if n is None else type(t)(cut(t))
    return t


def template(r, g, d):
    p = r.random()
    if d <= 0 or p < .2:
        return g.leaf()
    size = r.choice([0, 1, 2, 3, 4, 6, 10])
    kinds = r.random()
    proto = template(r, g, d - 1)

    def element():
        q = r.random()
        if q < kinds * .8 and not isinstance(proto, (It, Ser, Frame)):
            return gen.similar(proto, r, g) if not deep_special(proto) else g.leaf()
        return template(r, g, d - 1)

    if p < .4:
        return [element() for _ in range(size)]
    if p < .55:
        return tuple(element() for _ in range(size))
    if p < .68:
        return {g.key_str(): element() for _ in range(size)}
    if p < .75:
        return {g.key_any(): element() for _ in range(size)}
    if p < .8:
        return {r.choice([r.randint(0, 5), "s", 1.5, None, True, b"x", S.Colour.RED]) for _ in range(size)}
    if p < .86:
        return MappingProxyType({g.key_str() if r.random() < .5 else g.key_any(): element() for _ in range(size)})
    if p < .96:
        kind = r.choice(["custom", "generator", "map", "chain", "list_iterator", "infinite"])
        if kind == "infinite":  # the same elements come up again and again: no iterators among them
            items = [element() for _ in range(max(size, 1))]
            return It(kind, [x for x in items if not special(x, It)] or [1, "s"])
        return It(kind, [element() for _ in range(size)])
    if p < .98:
        return Ser([r.choice([1, "s", 2.5, None]) for _ in range(size)])
    return Frame({c: [r.choice([1, "s", 2.5, None]) for _ in range(size)] for c in r.sample(["a", "b", "c", "d", "e", "f"], r.randint(1, 6))})


def deep_special(t):
    if isinstance(t, (It, Ser, Frame, MappingProxyType)):
        return True
    if isinstance(t, dict):
        return any(map(deep_special, t.values()))
    if isinstance(t, (list, tuple, set, frozenset)):
        return any(map(deep_special, t))
    return False


def special(t, kinds):
    if isinstance(t, kinds):
        return True
    if isinstance(t, It):
        return any(special(x, kinds) for x in t.items)
    if isinstance(t, (dict, MappingProxyType)):
        return any(special(x, kinds) for x in t.values())
    if isinstance(t, (list, tuple)):
        return any(special(x, kinds) for x in t)
    return False


def longest(t, kw):
    kids = []
    n = 0
    if isinstance(t, It):
        n = 10 ** 9 if t.kind == "infinite" else len(t.items)
        kids = t.items
    elif isinstance(t, Ser):
        n = len(t.items)
    elif isinstance(t, Frame):
        n = max((len(v) for v in t.cols.values()), default=0)
    elif isinstance(t, (dict, MappingProxyType)):
        n = len(t) if not (isinstance(t, dict) and kw["dict_strategy"] == "TypedDict") else 0
        kids = t.values()
    elif isinstance(t, (list, tuple, set, frozenset)):
        n = len(t)
        kids = t
    return max([n, *(longest(x, kw) for x in kids)])


def cases(tier):
    return 12000 if tier == "quick" else 250000


def run_case(i, r, cx):
    g = gen.Gen(r, gen.Features(sets=False, proxies=False, tuples=True, dup=.5))
    t = template(r, g, r.choice([1, 2, 2, 3]))
    t = g.bury(t, 9) if r.random() < .12 else t
    kw = gen.strategies(r)
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 12])
    name = gen.class_name(r)
    counters, cut_counters = [], []
    full = realise(t, None, kw, counters)
    small = realise(t, n, kw, cut_counters)
    size = longest(t, kw)
    none_ok = not special(t, It) or size < 10 ** 9
    info = dict(template=t, n=n, strategies=api.diff_strategies(kw), class_name=name)
    text = api.text_of(full, dict(kw, check_max_n_elements_within_container=n), name)
    for c in counters:
        if c.taken > n:
            raise Violation(f"{c.taken} elements were taken out of an iterator with a limit of {n}", **info)
    want = api.text_of(small, dict(kw, check_max_n_elements_within_container=None), name)
    if text != want:
        raise Violation(f"the text is not that of the data cut to {n} elements", text=text, cut=want, **info)
    plain = not special(t, (It, Ser, Frame))
    if plain:
        e = ref.explain(model.Module(text, name).root(), ref.hint(full, dict(kw, check_max_n_elements_within_container=n)))
        if e:
            raise Violation(f"limit {n}: the hint is not that of the first elements: {e}", text=text, **info)
    if none_ok:
        # with at least as many elements allowed as there are, the setting has no effect
        texts = {}
        for m in (None, size or 1, size + 1, size + 500):
            texts[m] = api.text_of(realise(t, None, kw, []), dict(kw, check_max_n_elements_within_container=m), name)
        if len(set(texts.values())) > 1:
            raise Violation(f"limits {list(texts)} give different texts although no container is longer than {size}", texts=texts, **info)
        if plain:
            e = ref.explain(model.Module(texts[None], name).root(), ref.hint(full, dict(kw, check_max_n_elements_within_container=None)))
            if e:
                raise Violation(f"no limit: the hint is not that of all elements: {e}", text=texts[None], **info)
    return CaseInfo((text, n), size > n, {"cut": size > n, "iterators": len(counters), "taken": sum(c.taken for c in counters), "infinite": special(t, It) and not none_ok,
                                          "series": special(t, Ser), "frames": special(t, Frame), "proxies": special(t, MappingProxyType), "exactly_n": sum(c.taken == n for c in counters)},
                    sample=dict(template=safe_repr(t), n=n, text=text))


def directed(cx):
    """Containers around the default limit, with a surprise just before and just behind it."""
    makers = {
        "list": lambda x: x, "tuple": tuple, "set": lambda x: MappingProxyType(dict(enumerate(x))), "int_dict": lambda x: dict(enumerate(x)), "str_dict": lambda x: {f"k{j}": v for j, v in enumerate(x)},
        "proxy": lambda x: MappingProxyType({f"k{j}": v for j, v in enumerate(x)}), "iter": lambda x: iter(x), "series": lambda x: pd.Series(x, dtype=object), "nested": lambda x: [[x]], "in_dict": lambda x: {"a": x},
        "keys": lambda x: {v if v != 1 else j: 1 for j, v in enumerate(x)}, "proxy_keys": lambda x: MappingProxyType({v if v != 1 else j: None for j, v in enumerate(x)}),
        "frame": lambda x: pd.DataFrame({"a": pd.Series(x, dtype=object)}),
    }

    def around(kind, fn):
        def case():
            n = 0
            for limit in (1, 2, 10, 499, 500, 501, 900, None):
                for pos in (0, 1, 2, 9, 10, 11, 498, 499, 500, 501, 899, 900):
                    for ds in ("TypedDict", "dict", "Mapping"):
                        if kind == "str_dict" and ds == "TypedDict" and limit not in (2, 500):
                            continue
                        if limit is None and pos > 501 and ds != "dict":
                            continue
                        size = max(pos + 1, 3)
                        items = [1] * size
                        items[pos] = "surprise"
                        kw = dict(gen.DEFAULTS, dict_strategy=ds, tuple_size_strategy="any size", check_max_n_elements_within_container=limit)
                        text = api.text_of(fn(items), kw, "Example")
                        whole = kind in ("int_dict", "str_dict", "keys") and ds == "TypedDict"
                        seen = whole or limit is None or pos < limit
                        if ("str" in (text if kind.endswith("keys") else text.replace("Dict[str", "").replace("Mapping[str", "").replace("MappingProxyType[str", "").split("def __getitem__(\n")[0].replace("np.str_", ""))) != seen:
                            raise Violation(f"{kind} ({ds}), limit {limit}: the only string is at position {pos} and {'is not' if seen else 'is'} seen", text=text[:2000])
                        n += 1
            return CaseInfo("x", counts={"around_limit": n})
        return case

    for kind, fn in makers.items():
        yield f"around-{kind}", around(kind, fn)


def required(tier):
    return {"cut": 4000, "iterators": 1500, "taken": 2000, "infinite": 300, "series": 100, "frames": 50, "proxies": 500, "exactly_n": 300, "around_limit": 1000}
