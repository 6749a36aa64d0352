"""C08: class_name is accepted exactly when it is a usable Python identifier."""
import ast
import keyword
import tempfile
import unicodedata

import yaml

from vlib import gen, live, model
from vlib.runner import CaseInfo, Violation

PROP = "C08"
LEVEL = "exploration"
RULE = ("each case: one string as class_name to both tools by from_data and from_yaml_file; acceptance is compared with str.isidentifier and the keyword list, accepted names must be defined (and registered, for the live "
        "tool) under that spelling, rejected ones leave all directories as they were. Non-trivial: all; distinct by name.")
ASSUMPTIONS = ["names whose file name the file system cannot hold (over 255 bytes) are not tried",
               "the registry's spelling is only checked for names that Python does not normalise (NFKC)"]

POOL = ["", " ", "a b", "a.b", "a-b", "a/b", "../a", "/a", "a\\b", "1", "1a", "a1", "_", "__", "_a", "²", "a²", "x₁", "Ⅷ", "ª", "ﬁ", "ǆ", "ſ", "K", "é", "e\u0301", "\u0301", "名前", "ñandú", "a\u200b", "\u200ba", "a\n", "\na", "a ", " a", "a\t", "a\x00", "\x00", "a;b", "a,b", "a:int", "a=1", "A(",
        "A[int]", "(a)", "'a'", '"a"', "a#", "@a", "*a", "**a", "$a", "a$", "a!", "ａ", "ｃｌａｓｓ", "Ｎｏｎｅ", "𝐜𝐥𝐚𝐬𝐬", "𝔸", "٣", "a٣", "a·b", "·a", "℘", "℮", "゛", "a゛", "\U0001f600", "a\U0001f600", "\ud800", "a\udc80", "None ", "class ", " class", "Class", "CLASS", "none", "true", "print", "exec",
        "async_", "await_", "nonlocal_", "__debug__", "__ｄebug__", "__name__", "__class__", "import os", "x import y", "self", "cls", "mro", "int", "List", "Dict", "Any", "Union", "TypedDict", "TypeAlias", "Literal", "overload", "Path", "ast", "os", "from_data", "from_yaml_file", "classes_created", "LazyTypeHintLive", "reset",
        "build", "tmp", "con", "nul", "__init__", "__pycache__", "__main__", "py", "a" * 100, "名" * 60, "_" * 50, *keyword.kwlist, *keyword.softkwlist]
ALPHABETS = ["ab_1", "aZ_0 .-", "clasdefNonTrue", "é²ﬁ名Ⅷª", "\u0301\u200b\u200d·٣", "a\n\r\t\x0b\x0c\x1c\x85\u2028\xa0", "'\"\\#{}[]()=:;,@!$%^&*/|<>?~`+"]
STUB_NAMES = None


def usable(name):
    return name.isidentifier() and not keyword.iskeyword(name) and unicodedata.normalize("NFKC", name) != "__debug__"


def any_name(r):
    k = r.random()
    if k < .3:
        return r.choice(POOL)
    if k < .5:
        b = r.choice(POOL)
        m = r.choice([lambda: b + r.choice("_ 1a.é²"), lambda: r.choice("_ 1a.é²") + b, lambda: b.upper(), lambda: b.capitalize(), lambda: b[1:], lambda: b[:-1], lambda: b + b, lambda: unicodedata.normalize("NFD", b), lambda: unicodedata.normalize("NFKC", b), lambda: b.swapcase()])
        return m()[:60]
    if k < .75:
        return "".join(r.choice(r.choice(ALPHABETS)) for _ in range(r.randint(0, 7)))
    if k < .9:
        return "".join(r.choice("abcXYZ_019") for _ in range(r.randint(1, 12)))
    return "".join(chr(r.choice([r.randrange(32, 0x500), r.randrange(0x110000)])) for _ in range(r.randint(1, 3)))


DATA = [lambda r: {"a": 1, "b": "x"}, lambda r: [1, 2], lambda r: 5, lambda r: None, lambda r: {"k": {"x": [1]}}, lambda r: (1, "a"), lambda r: {1: 2}, lambda r: [{"a": 1}, {"b": 2, "c": 3}], lambda r: {"a-b": 1}]


def examine(cx, w, name, data, kw):
    from lazy_type_hint import LazyTypeHint, LazyTypeHintLive

    ok = usable(name)
    tmp = cx.scratch.tmp / f"c08_{live.os.getpid()}"
    tmp.mkdir(exist_ok=True)
    path = tmp / "file.yaml"
    path.write_text("a: 1  # comment\nb: [1, 2]\n")
    live.os.environ["TMPDIR"] = str(tmp)
    tempfile.tempdir = None
    before_tmp = live.tree_listing(tmp)
    normal = unicodedata.normalize("NFKC", name) == name
    accepted = rejected = 0
    tools = [("LazyTypeHint.from_data", lambda: LazyTypeHint(strat()).from_data(data, class_name=name), data),
             ("LazyTypeHint.from_yaml_file", lambda: LazyTypeHint(strat()).from_yaml_file(load, path, class_name=name), {"a": 1, "b": [1, 2]}),
             ("LazyTypeHintLive.from_data", lambda: LazyTypeHintLive(strat()).from_data(data, class_name=name), data),
             ("LazyTypeHintLive.from_yaml_file", lambda: LazyTypeHintLive(strat()).from_yaml_file(load, path, class_name=name), {"a": 1, "b": [1, 2]}),
             ("validating LazyTypeHintLive.from_data", lambda: LazyTypeHintLive(strat(), if_type_hint_exists="validate").from_data(data, class_name=name), data)]

    def load(p):
        return yaml.safe_load(open(p))

    def strat():
        from lazy_type_hint import ParsingStrategies

        return ParsingStrategies(**kw)

    for label, call, d in tools:
        if label == "validating LazyTypeHintLive.from_data" and ok:
            w.wipe()
        before = live.tree_listing(w.root)
        info = dict(class_name=name, tool=label, data=d, strategies=kw)
        try:
            res = call()
        except Exception as e:  # noqa: BLE001
            if ok:
                raise Violation(f"{label} refuses {name!r}: {type(e).__name__}: {e}", **info) from None
            own = "LazyTypeHintLiveError" if "Live" in label else "LazyTypeHintError"
            if own not in [c.__name__ for c in type(e).__mro__]:
                raise Violation(f"{label} refuses {name!r} with {type(e).__name__}: {e}", **info) from None
            if live.tree_listing(w.root) != before or live.tree_listing(tmp) != before_tmp:
                raise Violation(f"{label} refuses {name!r} but leaves files created or changed", **info) from None
            rejected += 1
            continue
        if not ok:
            raise Violation(f"{label} accepts {name!r}", **info)
        accepted += 1
        if "Live" not in label:
            text = res.to_string()
            check_defined(text, name, info)
        elif normal:
            reg = w.registry()
            if not reg or name not in reg:
                raise Violation(f"{label} accepts {name!r} but the stub has {sorted(reg or ())}", **info)
            e = reg[name]
            if e["imports"] != 1 or e["known"] != 1 or e["overloads"] != {"from_data": [name], "from_yaml_file": [name]}:
                raise Violation(f"{label} accepts {name!r} but the stub has {e}", stub=w.stub.read_text("utf-8"), **info)
            if e["module"] is None:
                raise Violation(f"{label} accepts {name!r} but its module does not exist", **info)
            check_defined(e["module"], name, info)
    if live.tree_listing(tmp) != before_tmp:
        raise Violation("files are left in the temporary directory", class_name=name)
    return dict(accepted=accepted, rejected=rejected, not_normal=not normal)


def check_defined(text, name, info):
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise Violation(f"the module generated for {name!r} is not valid Python: {e}", text=text, **info) from None
    nfkc = unicodedata.normalize("NFKC", name)
    names = []
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            names.append(n.name)
        elif isinstance(n, ast.AnnAssign):
            names.append(n.target.id)
        elif isinstance(n, ast.Assign):
            names += [t.id for t in n.targets]
    if names.count(nfkc) != 1 or name not in text:
        raise Violation(f"the module generated for {name!r} defines {names}", text=text, **info)


NAMES = list(dict.fromkeys(POOL))


def cases(tier):
    return len(NAMES) * len(DATA) + (3000 if tier == "quick" else 80000)


def run_case(i, r, cx):
    w = live.world(cx) if not hasattr(run_case, "w") else run_case.w
    run_case.w = w
    w.wipe()
    pool = i < len(NAMES) * len(DATA)
    name = NAMES[i // len(DATA)] if pool else any_name(r)
    kw = {} if r.random() < .7 else dict(dict_strategy=r.choice(["dict", "Mapping"]), min_height_to_define_type_alias=r.choice([0, 2]))
    c = examine(cx, w, name, (DATA[i % len(DATA)] if pool else r.choice(DATA))(r), kw)
    if pool:
        c["pool_names_x_data"] = 1
    return CaseInfo(name.encode("utf-8", "backslashreplace").decode(), True, c, sample=dict(name=name))


def required(tier):
    return {"accepted": 4000, "rejected": 4000, "pool_names_x_data": 1000, "not_normal": 50}
