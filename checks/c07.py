"""C07: to_file writes exactly the rendered text, and only where told."""
import json
import os
import random
import subprocess
import sys
from pathlib import Path

from vlib import api, gen, watch
from vlib.runner import VERIF, CaseInfo, Inconclusive, Violation

PROP = "C07"
LEVEL = "exploration"
RULE = ("each case: a random tree is written to a path of random form (str/Path, relative/absolute, existing or missing parents, old content, symlink) in its own directory; file bytes, "
        "directory listing and audit events are checked; every 40th case repeats a batch in a new process with an ASCII locale. Non-trivial: a file was written or refused; distinct by (text, form).")


def cases(tier):
    return 4000 if tier == "quick" else 60000


def listing(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), root)] = "dir"
        for n in files:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else ("file", Path(p).read_bytes())
    return out


def subject(r, sets=True):
    kw = gen.strategies(r)
    doc = None
    g = gen.Gen(r, gen.Features(weird_keys=.5, callables=.04, sets=sets))
    data = g.container() if r.random() < .85 else g.leaf()
    if r.random() < .3:
        kw["key_used_as_doc"] = "doc"
        doc = r.choice(["Größe in µm", "日本語の説明", "emoji \U0001f600", "plain text", "tab\there"])
        data = {"doc": doc, "ключ": 1, "value": data}
    return data, kw, gen.class_name(r)


def expect_text(data, kw, name):
    return api.text_of(data, kw, name).encode("utf-8")


def run_case(i, r, cx):
    if i % 40 == 3:
        return locale_batch(i, cx)
    data, kw, name = subject(r)
    tree = api.tree_of(data, kw, name)
    want = expect_text(data, kw, name)
    root = cx.scratch.tmp / f"c07_{i}"
    root.mkdir()
    (root / "existing").mkdir()
    (root / "existing" / "other.py").write_bytes(b"untouched")
    (root / "neighbour.txt").write_bytes(b"untouched")
    old = r.choice([None, None, b"", b"x = 1\n", want + b"\n# longer old content\n" * 50, b"\xff\xfe binary",
                    want[:-1], want + b"\n", want.replace(b"e", b"f"), b"#" * len(want), want[::-1], want.replace(b"\n", b"\r\n"), want[len(want) // 2:], want.swapcase(), want])
    parent = r.choice(["", "existing", "new", "new/deeper/still", "existing/sub", "existing/sub/sub2"])
    missing = parent not in ("", "existing")
    target = root / parent / r.choice(["out.py", "out.pyi", "noext", "with space.py", "ünï.py"])
    create = r.random() < .5
    via_link = False
    if old is not None and not missing:
        target.write_bytes(old)
        if r.random() < .2:
            link = target.parent / "link.py"
            link.symlink_to(target.name)
            via_link = True
    shown = link if via_link else target
    form = r.choice(["str", "path", "relative", "relative_path", "dotted"])
    cwd = os.getcwd()
    arg = shown
    try:
        if form in ("relative", "relative_path"):
            os.chdir(root)
            arg = shown.relative_to(root)
        if form == "dotted":
            arg = root / "existing" / ".." / shown.relative_to(root)
        if form in ("str", "relative"):
            arg = str(arg)
        before = listing(root)
        err = None
        with watch.recording() as events:
            try:
                kwargs = {"create_non_existing_dir": True} if create else r.choice([{}, {"create_non_existing_dir": False}])
                tree.to_file(arg, **kwargs)
            except Exception as e:  # noqa: BLE001
                err = e
    finally:
        os.chdir(cwd)
    after = listing(root)
    info = dict(data=data, strategies=api.diff_strategies(kw), class_name=name, path=str(arg), create=create, parent=parent, form=form)
    if missing and not create:
        if not isinstance(err, ValueError):
            raise Violation(f"missing directory: raised {err!r} instead of ValueError", **info)
        if before != after:
            raise Violation("something was created although the call was refused", new=sorted(set(after) - set(before)), **info)
    else:
        if err is not None:
            raise Violation(f"to_file fails: {type(err).__name__}: {err}", **info)
        rel = str(target.relative_to(root))
        expected = dict(before)
        expected[rel] = ("file", want)
        p = Path(rel).parent
        while str(p) != ".":
            expected[str(p)] = "dir"
            p = p.parent
        if after != expected:
            if after.get(rel) != ("file", want):
                raise Violation("the file does not hold the rendered text", file=after.get(rel), want=want, **info)
            diff = sorted(k for k in set(after) | set(expected) if after.get(k) != expected.get(k))
            raise Violation(f"other files differ: {diff}", **info)
        writes = [e for e in events if e[0] == "open-write"]
        bad = [e for e in events if e[0] != "os.mkdir" and not os.path.realpath(os.path.join(root, e[1])).startswith(str(root))]
        if bad:
            raise Violation(f"touches other places: {bad}", **info)
        if not writes:
            raise Inconclusive("no write was observed")
        # a second write over the first gives the same file
        tree.to_file(root / "again.py")
        if (root / "again.py").read_bytes() != want:
            raise Violation("the second to_file of a tree writes something else", **info)
    import shutil
    shutil.rmtree(root)
    return CaseInfo((want, parent, form, create, old is not None), True,
                    {"refused": missing and not create, "written": not (missing and not create), "replaced": old is not None and not missing, "created_dirs": missing and create,
                     "non_ascii": any(b > 127 for b in want), "via_link": via_link, "shrinks": bool(old and len(old) > len(want)) and not missing},
                    sample=dict(path=str(arg), form=form, text=want.decode()))


def locale_batch(i, cx):
    """The same trees in a process whose locale is not UTF-8."""
    out = cx.scratch.tmp / f"c07_locale_{i}"
    out.mkdir()
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C", PYTHONHASHSEED="0")
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "checks.c07", "child", str(cx.seed), str(i), str(out), str(cx.scratch.src)], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise Inconclusive("child process timed out") from None
    res = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    if not res:
        raise Inconclusive(f"child gave no result: {p.stderr[-500:]}")
    res = json.loads(res[0][6:])
    n = 0
    for j, err in enumerate(res["errors"]):
        data, kw, name = subject(random.Random(f"{cx.seed}:{PROP}:{i}:{j}"), sets=False)
        want = expect_text(data, kw, name)
        info = dict(data=data, strategies=api.diff_strategies(kw), class_name=name, encoding=res["encoding"])
        if err:
            raise Violation(f"to_file fails with locale encoding {res['encoding']}: {err}", **info)
        got = (out / f"{j}.py").read_bytes()
        if got != want:
            raise Violation(f"to_file depends on the locale ({res['encoding']})", got=got, want=want, **info)
        n += any(b > 127 for b in want)
    import shutil
    shutil.rmtree(out)
    return CaseInfo(("locale", i), n > 0, {"locale_files": len(res["errors"]), "locale_non_ascii": n, "locale_is_ascii": res["encoding"].upper() in ("ANSI_X3.4-1968", "US-ASCII", "ASCII")}, evals=len(res["errors"]))


def child():
    seed, i, out = int(sys.argv[2]), int(sys.argv[3]), Path(sys.argv[4])
    sys.path.insert(0, sys.argv[5])
    import locale

    errors = []
    for j in range(40):
        data, kw, name = subject(random.Random(f"{seed}:{PROP}:{i}:{j}"), sets=False)
        try:
            api.tree_of(data, kw, name).to_file(out / f"{j}.py")
            errors.append(None)
        except Exception as e:  # noqa: BLE001
            errors.append(ascii(f"{type(e).__name__}: {e}"))
    print("RESULT" + json.dumps({"errors": errors, "encoding": locale.getpreferredencoding(False)}))


def required(tier):
    return {"refused": 300, "written": 1000, "replaced": 300, "created_dirs": 300, "non_ascii": 100, "locale_non_ascii": 30, "locale_is_ascii": 5, "shrinks": 50}


if __name__ == "__main__" and len(sys.argv) > 1 and sys.argv[1] == "child":
    child()
