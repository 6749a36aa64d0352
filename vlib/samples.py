"""User-defined types and functions that the workloads put into the data."""
from __future__ import annotations

import enum
import io
from collections import namedtuple
from dataclasses import dataclass


class Alpha:
    pass


class Beta:
    def method(self, a, b=1):
        return a

    @staticmethod
    def smethod(a: int) -> str:
        return ""

    @classmethod
    def cmethod(cls, a: int, *, k: bool = True) -> int:
        return 1


class GammaSub(Alpha):
    pass


class Colour(enum.Enum):
    RED = 1
    BLUE = 2


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


@dataclass(frozen=True)
class Pixel:
    x: int
    y: int


@dataclass
class Box:
    items: list


class Log(io.StringIO):
    """A file of the user's own."""


class StrSub(str):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class SetSub(set):
    pass


class FrozenSub(frozenset):
    pass


class TupleSub(tuple):
    pass


class MissingSub(dict):
    def __missing__(self, key):
        return 0


class Slotted:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class lowercase:  # noqa: N801
    pass


# classes that share their name with something builtin, or are named by whole expressions
NAMED_LIKE_BUILTINS = [type(n, (), {}) for n in ("list", "input", "id", "Warning", "int", "print", "type", "Response[Annotated[int, Gt(gt=0)]]")]


class Word(str, enum.Enum):
    """Keys that are equal to plain strings, but are formatted in another way."""

    NAME = "name"
    AGE = "age"
    X = "x"
    URL = "url"
    DASHED = "a-b"
    RESERVED = "class"
    NUMBER = "12"
    EMPTY = ""


class ShownStr(str):
    def __str__(self):
        return "not an identifier!"

    __repr__ = __str__

    def __format__(self, spec):
        return "formatted in another way"


class Code(enum.IntEnum):
    OK = 200
    MINUS = -1


# classes whose names are not identifiers, as those of parametrized generics in some libraries
RESPONSES = [type(n, (), {}) for n in ("Response[int]", "Response[str]")]
RowsOf = type("Rows[int]", (list,), {})
RecordOf = type("Record[str]", (dict,), {})


Pair = namedtuple("Pair", "first second")


class Sentinel:
    """Any attempt to use the object's own protocol beyond its type is recorded."""

    touched: list = []

    def __len__(self):
        Sentinel.touched.append("len")
        return 0

    def __bool__(self):
        Sentinel.touched.append("bool")
        return False

    def __iter__(self):
        Sentinel.touched.append("iter")
        return iter(())

    def __call__(self):
        Sentinel.touched.append("call")

    def __getattr__(self, name):
        if not name.startswith("__"):
            Sentinel.touched.append("getattr " + name)
        raise AttributeError(name)

    def __setattr__(self, name, value):
        Sentinel.touched.append("setattr " + name)

    def __repr__(self):
        Sentinel.touched.append("repr")
        return "Sentinel()"

    __str__ = __repr__


def _spy(name, result):
    def method(self, *a, **k):
        Sentinel.touched.append(name)
        return result() if callable(result) else result
    method.__name__ = name
    return method


for _n, _r in {"__eq__": False, "__ne__": True, "__lt__": False, "__hash__": 7, "__contains__": False, "__getitem__": 1, "__index__": 1, "__float__": 1.0, "__int__": 1,
               "__format__": "", "__sizeof__": 64, "__dir__": list, "__fspath__": "x", "__copy__": None, "__deepcopy__": None, "__reduce_ex__": "x", "__array__": None,
               "__delattr__": None, "__enter__": None, "__exit__": None, "__bytes__": b"", "__add__": None, "__instancecheck__": False, "keys": list, "items": list,
               "read": "", "close": None, "copy": None}.items():
    setattr(Sentinel, _n, _spy(_n, _r))
