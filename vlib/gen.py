"""Seeded generators of data structures and strategies."""
from __future__ import annotations

import bz2
import collections
import datetime
import decimal
import fractions
import gzip
import io
import json
import math
import pathlib
import uuid
import zipfile
from types import MappingProxyType

import numpy as np

from vlib import samples as S

WORDS = ["name", "age", "id", "items", "value", "kind", "tags", "meta", "x", "y", "data", "parent", "child", "count",
         "a", "b", "c", "d", "e", "config", "opts", "url", "host", "port", "is_ok", "n1", "n2", "Key", "camelCase", "UPPER",
         "snake_case_key", "_private", "trailing_", "very_long_descriptive_key_name_for_import_lines"]
WEIRD_KEYS = ["a-b", "a b", "a.b", "a/b", "1", "1a", "12", "", " ", "-", "class", "def", "None", "import", "é", "ñandú", "名前",
              "a\nb", 'a"b', "a'b", "a\\b", "a\\n", "{x}", "{", "}", "%s", "$", "#c", "a:b", "a=b", "[0]", "*", "a,b", "tab\tkey",
              "__a", "__dunder__", "_", "__", "a__b", "A", "a", "B", "b-", "-b", "b_", "type", "match", "self", "print", "list",
              "List", "Any", "int", "x²", "²", "½", "Ⅷ", "ﬁ", "\u200b", "\x00", "\x7f", "\U0001f600", "key.with.dots", "a1", "a_1",
              "a 1", "1_a", "\r", "trailing ", " leading", '"""', "'''", "\\", "a\\", "=", "x = y", "class X:", "import os"]

CUSTOM = [lambda r: S.Alpha(), lambda r: S.Beta(), lambda r: S.GammaSub(), lambda r: r.choice(list(S.Colour)),
          lambda r: r.choice(list(S.Level)), lambda r: S.Pixel(r.randint(0, 9), 1), lambda r: S.Box([1]), lambda r: S.StrSub("q"),
          lambda r: S.Slotted(3), lambda r: S.lowercase(), lambda r: datetime.date(2020, 1, r.randint(1, 28)),
          lambda r: datetime.datetime(2020, 1, 1), lambda r: datetime.timedelta(r.randint(0, 5)), lambda r: decimal.Decimal("1.5"),
          lambda r: fractions.Fraction(1, 3), lambda r: pathlib.PurePosixPath("/x"), lambda r: uuid.UUID(int=r.randint(0, 9)),
          lambda r: collections.deque([1]), lambda r: np.float64(1.5), lambda r: np.int64(3), lambda r: {}.keys(),
          lambda r: r.choice(S.RESPONSES)(), lambda r: r.choice(S.NAMED_LIKE_BUILTINS)(), lambda r: r.choice(S.NAMED_LIKE_BUILTINS)()]
TYPES = [int, str, float, list, dict, S.Alpha, S.Beta, S.Colour, datetime.date, type(None), type, bool, S.lowercase, S.RESPONSES[0], *S.NAMED_LIKE_BUILTINS[:4]]
IOS = [lambda: io.StringIO("a\nb"), lambda: io.BytesIO(b"a\nb"), lambda: io.TextIOWrapper(io.BytesIO(b"a\nb")), lambda: io.BufferedReader(io.BytesIO(b"a\nb")), lambda: S.Log("a\nb"), lambda: gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(b"a\nb"))), lambda: bz2.BZ2File(io.BytesIO(bz2.compress(b"a\nb"))),
       lambda: io.BufferedWriter(io.BytesIO()), lambda: io.BufferedRandom(io.BytesIO(b"a\nb")), lambda: io.BufferedRWPair(io.BytesIO(b"a\nb"), io.BytesIO()), lambda: zipped().open("member")]


def zipped():
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("member", "a\nb")
    return zipfile.ZipFile(f)


DTYPES = ["float64", "int64", "float32", "int32", "int8", "uint8", "complex128", "bool", "<U3", "S4", "object", "datetime64[D]", "timedelta64[s]", "M8[ns]", "float16", "longdouble", "uint64", "complex64", "V3", "longlong"]


def build_array(dt, n):
    if dt == "object":
        return np.array([None] * n, dtype=object)
    return np.zeros(n, dtype=dt)


def np_array(r):
    a = build_array(r.choice(DTYPES), r.randint(0, 4))
    if r.random() < .85:
        return a
    return r.choice([lambda: a.reshape(1, -1), lambda: np.ma.array(a), lambda: np.matrix(a), lambda: np.zeros((), a.dtype), lambda: np.zeros(2, [("f", "i4"), ("g", "U2")]), lambda: np.rec.array([(1, 2.5)]),
                     lambda: np.array(["a", "b"]), lambda: np.char.array(["a"]), lambda: np.broadcast_to(a[:1], (3, len(a[:1]))), lambda: a[::-1]])()


def scalar(r):
    k = r.random()
    if k < .3:
        return r.choice([0, 1, -5, 10 ** 20, r.randint(-100, 100)])
    if k < .5:
        return r.choice([0.0, 1.5, float("inf"), float("nan"), -2.25])
    if k < .75:
        return r.choice(["", "s", "text", "a=b", 'q"q', "multi\nline", "x" * r.randint(1, 200)])
    if k < .9:
        return r.random() < .5
    return None


class Features:
    def __init__(self, **kw):
        self.custom = 0.08
        self.types = 0.03
        self.arrays = 0.03
        self.builtin_odd = 0.05
        self.callables = 0.0
        self.none = True
        self.sets = True
        self.weird_keys = 0.25
        self.nonstr_keys = 0.2
        self.str_sub_keys = 0.06
        self.subclasses = 0.04
        self.proxies = True
        self.tuples = True
        self.max_depth = 4
        self.max_width = 6
        self.io = 0.0
        self.modules = 0.01
        self.wide = 0.02
        self.huge = 0.002
        self.groups = 0.1
        self.deep = 0.03
        self.buried = 0.03
        self.named_like_builtins = True
        self.dup = 0.35
        self.shared = 0.05
        self.__dict__.update(kw)


class Gen:
    """Generates one data structure from a Random and features."""

    def __init__(self, r, f=None):
        self.r = r
        self.f = f or Features()
        self.pool = []
        self.budget = r.choice([8, 25, 60, 150])
        self.max_depth = self.f.max_depth if r.random() >= self.f.deep else r.randint(5, 12)
        # every structure has its own bias, so that homogeneous and mixed ones both occur
        self.homog = r.random()
        self.depth_bias = r.uniform(.25, .75)
        self.keypool = r.sample(WORDS, r.randint(2, 8))
        self.weirdpool = r.sample(WEIRD_KEYS, r.randint(3, 14))
        self.weird_here = r.random() < self.f.weird_keys * 2
        self.str_keys_here = r.random() < self.f.str_sub_keys
        self.leafpool = [self._leaf_kind() for _ in range(r.randint(1, 4))]

    def _leaf_kind(self):
        r, f = self.r, self.f
        k = r.random()
        for p, name in ((f.custom, "custom"), (f.types, "types"), (f.arrays, "arrays"), (f.builtin_odd, "odd"),
                        (f.callables, "callable"), (f.io, "io"), (f.modules, "module")):
            if k < p:
                return name
            k -= p
        return "scalar"

    def leaf(self, hashable=False):
        r = self.r
        kind = r.choice(self.leafpool) if r.random() < .7 else self._leaf_kind()
        if kind == "scalar" or hashable and kind in ("arrays", "io"):
            v = scalar(r)
            if v is None and not self.f.none:
                return 1
            return v
        if kind == "custom":
            v = r.choice(CUSTOM if self.f.named_like_builtins else CUSTOM[:-2])(r)
            if hashable:
                try:
                    hash(v)
                except TypeError:
                    return 3
            return v
        if kind == "types":
            return r.choice(TYPES if self.f.named_like_builtins else TYPES[:-4])
        if kind == "arrays":
            return np_array(r)
        if kind == "odd":
            opts = [b"x", complex(1, 2), range(3), Ellipsis, NotImplemented]
            if not hashable:
                opts += [slice(1, 2), bytearray(b"q")]
            return r.choice(opts)
        if kind == "io":
            return r.choice(IOS)()
        if kind == "module":
            return r.choice([math, json])
        if kind == "callable":
            from vlib.funcs import FUNCS
            return r.choice(FUNCS)
        raise AssertionError(kind)

    def key_str(self):
        r = self.r
        if self.str_keys_here and r.random() < .4:
            return r.choice(list(S.Word)) if r.random() < .7 else S.ShownStr(r.choice(self.keypool))
        if self.weird_here and r.random() < .5:
            return r.choice(self.weirdpool)
        return r.choice(self.keypool) if r.random() < .8 else r.choice(WORDS)

    def key_any(self):
        r = self.r
        k = r.random()
        if k < .3:
            return self.key_str()
        if k < .55:
            return r.randint(-3, 12)
        if k < .65:
            return r.choice([0.5, 2.5, -1.25])
        if k < .7:
            return r.random() < .5
        if k < .75:
            return None
        if k < .82:
            return (r.randint(0, 3), "t")
        if k < .86:
            return frozenset({r.randint(0, 3)})
        if k < .9:
            return r.choice([b"k1", b"k2"])
        if k < .93:
            return r.choice(list(S.Colour))
        if k < .935 and self.f.named_like_builtins:
            return S.NAMED_LIKE_BUILTINS[r.randrange(4)]()
        if k < .96:
            return datetime.date(2021, 2, r.randint(1, 28))
        return S.Pixel(r.randint(0, 3), 0)

    def hashable(self, d):
        r = self.r
        if d <= 0 or r.random() < .7:
            return self.leaf(hashable=True)
        if r.random() < .5 and self.f.tuples:
            return tuple(self.hashable(d - 1) for _ in range(r.randint(0, 3)))
        if not self.f.sets:
            return self.leaf(hashable=True)
        return frozenset(self.hashable(d - 1) for _ in range(r.randint(0, 3)))

    def width(self):
        r = self.r
        p = r.random()
        if p < self.f.wide:
            return r.randint(12, 40)
        if p > 1 - self.f.huge:
            return r.choice([64, 65, 100, 129, 257, 300, 450])
        return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, self.f.max_width])

    def str_dict(self, d):
        out = {}
        n = self.width()
        late = self.r.randrange(n) if n >= 50 and self.r.random() < .5 else None  # the only key that may be weird
        for j in range(n):
            if late is not None:
                key = self.key_str() if j == late else f"k{j}"
            else:
                key = self.key_str() if n < 50 or j < 30 else f"{self.key_str()}{j}"
            out[key] = self.value(d - 1)
        return out

    def any_dict(self, d):
        out = {}
        n = max(1, self.width())
        for _ in range(n):
            out[self.key_any()] = self.value(d - 1)
        if all(isinstance(k, str) for k in out):
            out[7] = self.value(d - 1)
        return out

    def elements(self, d):
        r = self.r
        n = self.width()
        out = []
        proto = None
        if r.random() < self.f.groups:
            return self.dict_group(d)
        for _ in range(n):
            if out and r.random() < self.f.dup * (0.3 + self.homog):
                out.append(similar(r.choice(out), r, self))
            elif proto is not None and r.random() < .5 * self.homog:
                out.append(similar(proto, r, self))
            else:
                v = self.value(d - 1)
                proto = v if proto is None else proto
                out.append(v)
        return out

    def dict_group(self, d):
        """Dictionaries with overlapping keys of any proportions, whose values mostly agree."""
        r = self.r
        keys = list(dict.fromkeys(self.key_str() if r.random() < .5 else f"g{j}" for j in range(r.choice([1, 2, 3, 4, 6, 10]))))
        common = keys[:r.randint(0, len(keys))] if r.random() < .7 else keys[:1]
        protos = {k: self.value(d - 2) if r.random() < .3 else self.leaf() for k in keys}
        same = r.random() < .8
        out = []
        for _ in range(r.choice([2, 2, 2, 3, 4, 6])):
            p = r.random()
            have = [k for k in keys if k in common or r.random() < p]
            if r.random() < .4:
                r.shuffle(have)
            out.append({k: revalue(protos[k], r) if same or r.random() < .9 else self.leaf() for k in have})
        if r.random() < .3:
            out.insert(r.randint(0, len(out)), self.value(d - 1))
        return out

    def value(self, d=None):
        r, f = self.r, self.f
        if d is None:
            d = r.randint(1, self.max_depth)
        self.budget -= 1
        if d <= 0 or self.budget <= 0 or r.random() > self.depth_bias + (.3 if d >= self.max_depth - 1 else 0):
            return self.leaf()
        if self.pool and r.random() < f.shared:
            return r.choice(self.pool)
        k = r.random()
        if k < .33:
            v = self.str_dict(d)
        elif k < .33 + f.nonstr_keys * .6:
            v = self.any_dict(d)
        elif k < .7:
            v = self.elements(d)
        elif k < .82 and f.tuples:
            v = tuple(self.elements(d))
        elif k < .90 and f.sets:
            items = [self.hashable(d - 1) for _ in range(self.width())]
            v = set(items) if r.random() < .5 else frozenset(items)
        elif k < .95 and f.proxies:
            v = MappingProxyType(self.str_dict(d) if r.random() < .6 else self.any_dict(d))
        else:
            v = self.str_dict(d)
        if r.random() < f.subclasses:
            if type(v) is list:
                v = (S.ListSub if r.random() < .7 else S.RowsOf)(v)
            elif type(v) is dict:
                v = r.choice([collections.OrderedDict, S.DictSub, S.MissingSub, S.RecordOf, lambda x: collections.defaultdict(int, x)])(v)
            elif type(v) is tuple:
                v = S.Pair(*v) if len(v) == 2 and r.random() < .6 else S.TupleSub(v)
            elif type(v) in (set, frozenset):
                v = (S.SetSub if type(v) is set else S.FrozenSub)(v)
        if isinstance(v, (list, dict, tuple)):
            self.pool.append(v)
        return v

    def container(self):
        """A value which is not a leaf."""
        for _ in range(20):
            v = self.value(max(1, self.r.randint(1, self.max_depth)))
            if isinstance(v, (list, tuple, dict, set, frozenset, MappingProxyType)):
                break
        else:
            v = self.str_dict(2)
        return self.bury(v) if self.r.random() < self.f.buried else v

    def bury(self, v, most=16):
        """The value at the end of a chain of containers."""
        r = self.r
        kinds = ["list", "str", "str"] + ["tuple"] * self.f.tuples + ["int"] * (self.f.nonstr_keys > 0) + ["proxy"] * bool(self.f.proxies)
        if r.random() < .3:
            kinds = [r.choice(kinds)]
        for _ in range(r.randint(3, most)):
            k = r.choice(kinds)
            aside = [self.leaf() for _ in range(r.choice([0, 0, 0, 1, 2]))]
            if k in ("list", "tuple"):
                v = [*aside, v]
                r.shuffle(v)
                v = v if k == "list" else tuple(v)
            else:
                v = {key: x for key, x in zip(dict.fromkeys([self.key_str(), "k1", "k2", "k3"]) if k != "int" else range(9), [v, *aside])}
                v = MappingProxyType(v) if k == "proxy" else v
        return v


def similar(v, r, g=None):
    """A variation of v: same structure with other leaves, or with a small structural change."""
    k = r.random()
    if k < .55 or g is None:
        return revalue(v, r)
    if k < .63:
        return nearby(v, r)
    if isinstance(v, dict) and type(v) is dict:
        out = {k: (similar(x, r, g) if r.random() < .5 else x) for k, x in v.items()}
        act = r.random()
        if act < .35 and out:
            out.pop(r.choice(list(out)))
        elif act < .7:
            out[g.key_str()] = g.leaf()
        elif act < .8 and out:
            out[r.choice(list(out))] = g.leaf()
        elif act < .9 and out:
            # the same value under another key
            key = r.choice(list(out))
            out[g.key_str()] = out.pop(key)
        else:
            items = list(out.items())
            r.shuffle(items)
            out = dict(items)
        return out
    if type(v) in (list, tuple):
        seq = list(v)
        act = r.random()
        if act < .4 and seq:
            seq.pop(r.randrange(len(seq)))
        elif act < .8:
            seq.append(g.leaf())
        else:
            r.shuffle(seq)
        return type(v)(seq)
    return revalue(v, r)


def nearby(v, r, depth=0):
    """A copy of v in which one value, anywhere, has another type that is close to its own."""
    t = type(v)
    if t in (list, tuple, dict, MappingProxyType) and len(v) and r.random() < (.75 if depth == 0 else .6):
        if t in (list, tuple):
            i = r.randrange(len(v))
            return t([*v[:i], nearby(v[i], r, depth + 1), *v[i + 1:]])
        key = r.choice(list(v))
        if r.random() < .08 and len(v) < 9:  # another type of key
            new = {int: "1", str: 1.5, bool: None, float: "f", type(None): True, tuple: frozenset()}.get(type(key), "k")
            return t({(new if k is key else k): x for k, x in v.items()})
        return t({k: nearby(x, r, depth + 1) if k is key else x for k, x in v.items()})
    if t in (set, frozenset) and len(v) and r.random() < .5:
        return t([*list(v)[1:], r.choice([1, "s", 2.5, None, b"x", frozenset([1]), (1,)])])
    swap = {bool: [1, None, "True"], int: [True, 1.0, "1", None, int, [1]], float: [1, "1.0", 1j, None], str: [b"x", 1, None, ["x"], str, S.StrSub("x")], bytes: [bytearray(b"x"), "x"],
            type(None): [0, "", False, type(None)], complex: [1.0]}
    if t in swap:
        return r.choice(swap[t])
    if t in (list, tuple):
        other = tuple if t is list else list
        return r.choice([other(v), other(v), (S.ListSub if t is list else S.TupleSub)(v), [*v, None] if t is list else (*v, v[-1] if v else 1), {"a": t(v)}, t([v])])
    if t in (set, frozenset):
        return r.choice([frozenset(v) if t is set else set(v), (S.SetSub if t is set else S.FrozenSub)(v), list(v)])
    if t is dict:
        return r.choice([MappingProxyType(dict(v)), S.DictSub(v), [v], {**v, "another key": 1}, dict(list(v.items())[1:])])
    if t is MappingProxyType:
        return r.choice([dict(v), [v]])
    if t is np.ndarray:
        return r.choice([build_array(r.choice(DTYPES), 2), [1]])
    if t is type:
        return r.choice([int, str, S.Beta, "name"])
    return r.choice([1, "s", S.Beta(), S.Beta, [v]])


def revalue(v, r):
    """Same structure and types, other leaf values (hash-compatible containers keep their size)."""
    t = type(v)
    if t is bool:
        return r.random() < .5
    if t is int:
        return r.randint(-1000, 1000)
    if t is float:
        return r.random() * 10
    if t is str:
        return "w" * r.randint(0, 5)
    if t is dict:
        return {k: revalue(x, r) for k, x in v.items()}
    if t in (list, tuple):
        return t(revalue(x, r) for x in v)
    if t is MappingProxyType:
        return MappingProxyType({k: revalue(x, r) for k, x in v.items()})
    return v


DEFAULTS = dict(list_strategy="list", tuple_size_strategy="fixed", dict_strategy="TypedDict", pandas_strategies="Full type hint",
                min_height_to_define_type_alias=1, key_used_as_doc="", merge_different_typed_dicts_if_similarity_above=50,
                typed_dict_read_only_values=False, check_max_n_elements_within_container=500)


def strategies(r, **fixed):
    kw = dict(
        list_strategy=r.choice(["list", "Sequence"]),
        tuple_size_strategy=r.choice(["fixed", "any size"]),
        dict_strategy=r.choice(["TypedDict", "TypedDict", "TypedDict", "Mapping", "dict"]),
        pandas_strategies=r.choice(["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"]),
        min_height_to_define_type_alias=r.choice([0, 0, 1, 1, 2, 3, 5, 50]),
        merge_different_typed_dicts_if_similarity_above=r.choice([1, 10, 30, 50, 50, 67, 80, 100]),
        typed_dict_read_only_values=r.random() < .3,
        check_max_n_elements_within_container=r.choice([500, 500, None, 1000]),
    )
    if r.random() < .25:
        kw = dict(DEFAULTS)
    kw.update(fixed)
    return kw


CLASS_NAMES = ["Example", "MyClass", "my_class", "X", "x", "_x", "A1", "camelCase", "Very_Long_Class_Name_For_The_Generated_Alias",
               "data", "Ünïcode", "名前", "__dunder", "T", "a_b_c", "Class2"]


def class_name(r):
    return "Example" if r.random() < .5 else r.choice(CLASS_NAMES)
