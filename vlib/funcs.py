"""Callables for the workloads (their source is on disk, so that it can be inspected).

FUNCS: (name, callable, kind, expectation); see vlib/signatures.py for how expectations are derived."""
import functools
import math
import operator
import types
from collections import OrderedDict
from typing import Any, Callable, Dict, Generator, Iterable, List, Optional, Sequence, Tuple, Union


def f_none():
    pass


def f_ret(a, b):
    return a


def f_one(a):
    print(a)


def f_defaults(a, b=1, c="x", d=None, e=1.5, f=True):
    return a


def f_default_objects(a, b=[], c={}, d=(1, 2), e=math, g=len):  # noqa: B006
    return b


def f_default_neg(a=-1, b="it's", c='say "hi"', d=b"x", e=1 + 2j, g="a\nb"):
    return a


def f_default_empty(a="", b=0, c=False, d=()):
    return a


def f_default_weird(a=float("inf"), b=float("nan"), c=Ellipsis, d=frozenset({1}), e=object(), g=int):
    return a


def f_annot(a: int, b: str, c: float = 1.0) -> bool:
    return True


def f_annot_none(a: int) -> None:
    return None


def f_annot_typing(a: List[int], b: Dict[str, int], c: Optional[str] = None, d: Union[int, str] = 1, e: Tuple[int, ...] = ()) -> Sequence[str]:
    return []


def f_annot_callable(a: Callable[[int, str], bool], b: Callable[..., Any]) -> Callable[[], None]:
    return a


def f_annot_pep604(a: int | None, b: list[int] | dict[str, tuple[int, ...]]) -> list[str]:
    return []


def f_annot_str(a: "int", b: "List[str]") -> "bool":
    return True


def f_annot_iter(a: Iterable[int]) -> Generator[int, None, None]:
    yield 1


def f_star(*args, **kwargs):
    return args


def f_star_annot(*args: int, **kwargs: str) -> None:
    ...


def f_kwonly(a, *, b, c=1):
    return a


def f_posonly(a, b, /, c, d=1):
    return a


def f_all(a, /, b, *args, c, d=2, **kw):
    return a


def f_all_annot(a: int, /, b: str = "x", *args: float, c: bool, d: Optional[int] = 2, **kw: Any) -> Dict[str, Any]:
    return {}


def f_generator(n):
    for i in range(n):
        yield i


def f_generator_from(n):
    yield from range(n)


async def f_async(a):
    return a


async def f_async_none(a):
    pass


def f_early(a):
    if a:
        return
    print(a)


def f_return_in_string(a):
    """This does return something, says the text."""
    x = "return 3"
    print(x)


def f_nested(a):
    def inner():
        return 3

    inner()


def f_long(parameter_number_one: int, parameter_number_two: str, parameter_number_three: float, parameter_number_four: bool = False) -> None:
    pass


def f_custom(a: "OrderedDict[str, int]", b: "Undefined") -> "Missing":  # noqa: F821
    return a


def f_annot_class(a: OrderedDict, b: type, c: Callable) -> OrderedDict:
    return a


def f_same_1(a, b):
    return a


def f_same_2(a, b):
    return b


def f_same_other_default(a, b=2):
    return b


def f_a(x: int):
    return x


def f_b(x: str):
    return x


def f_c(x: int) -> int:
    return x


def f_d(y: int):
    return y


def f_e(*, x: int):
    return x


class K:
    def method(self, a, b=1):
        return a

    def method_none(self):
        pass

    def method_annot(self, a: int, *args: str) -> List[int]:
        return []

    @staticmethod
    def smethod(a: int) -> str:
        return ""

    @staticmethod
    def smethod_none(a, *, k=1):
        pass

    @classmethod
    def cmethod(cls, a: int, *, k: bool = True) -> int:
        return 1

    @classmethod
    def cmethod_none(cls):
        pass

    def __call__(self, x: int) -> str:
        return ""


def deco(fn):
    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        return fn(*args, **kwargs)

    return wrapper


@deco
def f_wrapped(a: int, b: str = "x") -> bool:
    return True


l0 = lambda: 1  # noqa: E731
l1 = lambda x: x  # noqa: E731
l2 = lambda x, y=1: x  # noqa: E731
l3 = lambda a, b, c: a  # noqa: E731
l_star = lambda *a: a  # noqa: E731
l_kw = lambda a, **k: a  # noqa: E731
l_kwonly = lambda a, *, b=1: a  # noqa: E731
l_pos = lambda a, /, b: a  # noqa: E731

# callables that share module, qualified name or code but differ in what matters
def t_twin(a, b=1):
    return a


twin_1 = t_twin


def t_twin(a, b=1):  # noqa: F811
    print(a)


twin_2 = t_twin


def t_twin(a, b="x"):  # noqa: F811
    return a


twin_3 = t_twin


def t_twin(a: int, b: str) -> bool:  # noqa: F811
    return True


twin_4 = t_twin


def t_make(d, ann, k):
    def made(a: ann, b=d, *, c=k):
        return a

    return made


def t_make_lambda(d):
    return lambda a, b=d: a


def t_make_void(n):
    def made(a):
        if n:
            print(a)

    return made


def t_make_local(value):
    def made(a):
        if value:
            return a

    return made


TWINS = [twin_1, twin_2, twin_3, twin_4, t_make(1, int, None), t_make("x", str, 2), t_make(None, List[int], "k"), t_make_lambda(1), t_make_lambda("z"), t_make_void(1),
         t_make_void(0), t_make_local(1)]
TWINS_RETURN = [True, False, True, True, True, True, True, None, None, False, False, True]  # None: lambdas
class Caller:
    """Instances have neither a name nor a source."""

    def __call__(self, a, b: int, *, c=1):
        return a


k = K()
PY = [f for n, f in sorted(globals().items()) if n.startswith("f_")]
LAMBDAS = [l0, l1, l2, l3, l_star, l_kw, l_kwonly, l_pos]
METHODS = [k.method, k.method_none, k.method_annot, K.smethod, K.smethod_none, K.cmethod, K.cmethod_none, K.method, K.method_annot,
           k.cmethod, k.smethod, types.MethodType(Caller(), 3)]
WRAPPED = [K.__dict__["smethod"], K.__dict__["cmethod"], K.__dict__["smethod_none"], K.__dict__["cmethod_none"], staticmethod(Caller())]
BUILTINS = [len, print, max, isinstance, dict.get, "x".join, [].append, operator.add, math.sqrt, str.upper, dict.fromkeys, sorted]
FUNCS = PY + TWINS + LAMBDAS + METHODS + WRAPPED + BUILTINS
