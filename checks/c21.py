"""C21: a live call interrupted at any write leaves the tool recoverable."""
import collections
import errno
import os
import pickle
import resource
import signal
import sys
import tempfile
import traceback
import warnings

from vlib import gen, history, live
from vlib.runner import CaseInfo, Inconclusive, Violation

PROP = "C21"
LEVEL = "fault_enumeration"
RULE = ("each case: a history of live calls on a private installation and one more operation (call for a new or known class, from data or YAML, or reset). The operation runs in a child process once undisturbed, to count its file-system "
        "operations, and then once per operation and kind of fault: process death before it, an error or interrupt raised by it, and death or error when a write exceeds a number of bytes. After each, the stub, the modules and later "
        "calls are checked. Non-trivial: at least 5 faults hit; distinct by history and operation.")
ASSUMPTIONS = ["faults hit one operation at a time", "what a finished write or rename did is not undone by the crash (no power loss)"]
FS = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.utime", "os.listdir", "os.scandir", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp", "shutil.copyfile", "shutil.move"}


def restore(w, files):
    now = live.tree_listing(w.root)
    for rel in sorted(set(now) - set(files), reverse=True):
        p = w.root / rel
        p.rmdir() if p.is_dir() and not p.is_symlink() else p.unlink()
    for rel, content in sorted(files.items()):
        p = w.root / rel
        if content is None:
            p.mkdir(exist_ok=True)
        elif now.get(rel) != content:
            p.write_bytes(content)


class Spec:
    """One operation, which can be run by any instance at any time."""

    def __init__(self, kind, name=None, data=None, text=None, kw=None, mode=None):
        self.kind, self.name, self.data, self.text, self.kw, self.mode = kind, name, data, text, kw or {}, mode

    def __repr__(self):
        return f"{self.kind}({self.name}, {self.data if self.text is None else self.text!r}, {self.mode}, {self.kw})"

    def run(self, w, path, tool=None):
        if self.kind == "reset":
            (tool or w).reset()
            return
        tool = tool or w.tool(self.kw, self.mode)
        if self.kind == "yaml":
            path.write_bytes(self.text.encode())
            tool.from_yaml_file(history.load_yaml, path, class_name=self.name)
        else:
            tool.from_data(self.data, self.name)

    def want(self, path):
        data = self.data
        if self.kind == "yaml":
            path.write_bytes(self.text.encode())
            data = history.load_yaml(path)
        return history.definitions_of(data, self.kw, self.name)


def child(fn):
    """Run fn in a forked child; (what it returned or None if it died, exit status)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("raised", type(e).__name__, str(e), traceback.format_exc(limit=-3))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(wr, data):]
            os._exit(0)
        finally:
            os._exit(77)
    os.close(wr)
    chunks = []
    while True:
        b = os.read(rd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        raise Inconclusive("a child process does not end")
    return (pickle.loads(b"".join(chunks)) if chunks else None), status  # noqa: S301


class Hook:
    """Sees the file-system operations of this (child) process below some directories; acts at the n-th."""

    def __init__(self, roots, at=None, act=None):
        self.roots = tuple(map(str, roots))
        self.at, self.act, self.events, self.active = at, act, [], False
        sys.addaudithook(self)

    def __call__(self, event, args):
        if not self.active or event not in FS:
            return
        a = args[0] if args else ""
        if isinstance(a, int):
            return
        s = os.fspath(a) if a is not None else ""
        s = s.decode("utf-8", "replace") if isinstance(s, bytes) else str(s)
        if os.path.isabs(s) and not s.startswith(self.roots) or s.endswith(".pyc") or "__pycache__" in s:
            return
        n = len(self.events)
        kind = event
        if event == "open":
            mode, flags = args[1], args[2]
            writing = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            kind = "open for writing" if writing else "open for reading"
        self.events.append((kind, os.path.basename(s)))
        if n == self.at:
            self.active = False
            self.act()


def die():
    os._exit(9)


def error(e):
    def act():
        raise e

    return act


FAULTS = {"death": lambda: die, "no space": lambda: error(OSError(errno.ENOSPC, "No space left on device")), "denied": lambda: error(PermissionError(errno.EACCES, "Permission denied")), "interrupt": lambda: error(KeyboardInterrupt())}


def scenario(r, quick=True):
    names = r.sample(live.NAMES, r.choice([1, 2, 3]))
    n = r.choice([0, 1, 1, 2, 3])
    specs = []
    for k in range(n + 1):
        kw = {} if r.random() < .6 else gen.strategies(r)
        mode = r.choice(["overwrite", "overwrite", "validate"])
        name = r.choice(names)
        if any(s.name == name for s in specs) and mode == "validate":
            prev = [s for s in specs if s.name == name][-1]
            s = Spec(prev.kind, name, prev.data, prev.text, prev.kw, mode)
        elif r.random() < .2:
            s = Spec("yaml", name, text=r.choice(["a: 1  # comment\nb: {c: [1]}\n", "- x: 1 # c\n- x: 2\n  y: 3 # d\n"]), kw=kw, mode=mode)
        else:
            s = Spec("call", name, history.small(r), kw=kw, mode=mode)
        specs.append(s)
    if r.random() < .2:
        specs[-1] = Spec("reset")
    return specs[:-1], specs[-1], [x for x in live.NAMES if x not in names]


def check_after(w, earlier, op, wants, info, done):
    """The state right after the fault. earlier: {class: definitions}; wants: of the operation."""
    reg = w.registry()
    if reg is None:
        if earlier and op.kind != "reset":
            raise Violation("after the fault the stub is gone, and with it the earlier classes", **info)
        reg = {}
    allowed = set(earlier) | ({op.name} if op.name else set())
    if set(reg) - allowed:
        raise Violation(f"after the fault the stub describes {sorted(set(reg) - allowed)}", stub=w.stub.read_text("utf-8"), **info)
    if op.kind != "reset" and set(earlier) - set(reg):
        raise Violation(f"after the fault the stub lacks the earlier classes {sorted(set(earlier) - set(reg))}", **info)
    if done and op.name and op.name not in reg:
        raise Violation("the call ends as if nothing had happened, but its class is not registered", **info)
    for c, e in reg.items():
        if e["imports"] != 1 or e["known"] != 1 or e["overloads"] != {"from_data": [c], "from_yaml_file": [c]}:
            raise Violation(f"after the fault class {c} is described by {e}", stub=w.stub.read_text("utf-8"), **info)
        if e["module"] is None:
            raise Violation(f"after the fault the stub describes {c}, whose module does not exist", **info)
        d = live.definitions(e["module"])
        ok = {earlier.get(c)} | ({wants} if c == op.name else set())
        if d not in ok or done and c == op.name and d != wants:
            raise Violation(f"after the fault the module of {c} holds neither its earlier definitions nor those of the call", module=e["module"], **info)


def one_fault(w, path, before, earlier, op, want_files, wants, fault, others, r, info, same_instance):
    """fault: (kind, at) or ('death/error beyond', bytes). Returns whether it was hit."""
    kind, at = fault
    restore(w, before)

    def faulty():
        hook = Hook([w.root, w.tmp], at if kind in FAULTS else None, FAULTS[kind]() if kind in FAULTS else None)
        tool = None if op.kind == "reset" else w.tool(op.kw, op.mode)
        if kind not in FAULTS:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if kind == "death beyond":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            if op.kind == "yaml":
                path.write_bytes(op.text.encode())
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
        hook.active = True
        err = None
        try:
            op.run(w, path, tool)
        except BaseException as e:  # noqa: BLE001
            err = f"{type(e).__name__}: {e}"
        hook.active = False
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        listing = None
        again = None
        if same_instance and err is not None:
            # the state is looked at by the parent only after this
            listing = live.tree_listing(w.root)
            try:
                op.run(w, path, tool)
                again = "ok"
            except BaseException as e:  # noqa: BLE001
                again = f"{type(e).__name__}: {e}"
        return err, hook.events, listing, again

    res, status = child(faulty)
    info = dict(info, fault=fault)
    died = res is None
    if died and status not in (9 << 8, 0) and not os.WIFSIGNALED(status):
        raise Violation(f"the process ends with status {status}", **info)
    err, events, listing, again = (None, [], None, None)
    if not died:
        if res[0] != "ok":
            raise Inconclusive(f"harness fault in the child: {res}")
        err, events, listing, again = res[1]
    hit = died or err is not None or kind in FAULTS and len(events) > at
    info["outcome"] = "death" if died else err or "no error"
    if listing is not None:
        if again != "ok":
            raise Violation(f"repeating the call with the same instance after the fault fails: {again}", **info)
        if live.tree_listing(w.root) != want_files:
            raise Violation("repeating the call with the same instance after the fault gives other files than an undisturbed call", got=diff(live.tree_listing(w.root), want_files), **info)
        restore(w, listing)
    for p in w.tmp.iterdir():
        if p != path:
            live.shutil.rmtree(p) if p.is_dir() else p.unlink()
    after = live.tree_listing(w.root)
    check_after(w, earlier, op, wants, info, not died and err is None)

    def recover(*specs):
        def go():
            for s in specs:
                s.run(w, path)
            return live.tree_listing(w.root)

        out, _ = child(go)
        if out is None or out[0] != "ok":
            raise Violation(f"after the fault, a later call fails: {out and out[1:]}", later=[repr(s) for s in specs], **info)
        return out[1]

    files = recover(op)
    if files != want_files:
        raise Violation("repeating the call after the fault gives other files than an undisturbed call", got=diff(files, want_files), **info)
    if r.random() < .35:
        # calls for other classes, the new and the earlier ones, before the repetition
        restore(w, after)
        known = {k: v for k, v in earlier.items()} if op.kind != "reset" else {k: v for k, v in earlier.items() if k in (w.registry() or {})}
        other = Spec("call", r.choice(others), {"other": 1}, mode=r.choice(["overwrite", "validate"]))
        later = [other]
        if earlier:
            c = r.choice(sorted(earlier))
            later.append(Spec("call", c, {"later": [c]}, mode="overwrite"))
        r.shuffle(later)
        recover(*later)
        exp = dict(known)
        reg = w.registry()
        if op.name in reg and op.name not in exp:
            exp[op.name] = wants
        if op.name in exp and not any(s.name == op.name for s in later):
            exp[op.name] = None
        for s in later:
            exp[s.name] = s.want(path)
        w.check_registry(exp, **info)
        if op.kind != "reset":
            mode_ok = op.mode != "validate" or not any(s.name == op.name for s in later)
            if mode_ok:
                recover(op)
                exp[op.name] = wants
                w.check_registry(exp, **info)
    if r.random() < .15:
        restore(w, after)
        recover(Spec("reset"))
        if w.new_files():
            raise Violation(f"a reset after the fault leaves {sorted(w.new_files())}", **info)
    return hit


def diff(a, b):
    return {k: (a.get(k, "-"), b.get(k, "-")) for k in sorted({*a, *b}) if a.get(k, "-") != b.get(k, "-")}


def cases(tier):
    return 240 if tier == "quick" else 2500


def run_case(i, r, cx):
    warnings.simplefilter("ignore")
    w = live.world(cx)
    w.tmp = cx.scratch.tmp / f"c21_{os.getpid()}"
    w.tmp.mkdir(exist_ok=True)
    os.environ["TMPDIR"] = str(w.tmp)
    tempfile.tempdir = None
    path = w.tmp / "file.yaml"
    prior, op, others = scenario(r)
    earlier = {}
    counts = collections.Counter()
    try:
        for s in prior:
            s.run(w, path)
            earlier[s.name] = s.want(path)
        wants = op.want(path) if op.kind != "reset" else None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"a call fails: {type(e).__name__}: {e}", prior=prior) from None
    info = dict(prior=prior, operation=op)
    before = live.tree_listing(w.root)

    def count():
        hook = Hook([w.root, w.tmp])
        tool = None if op.kind == "reset" else w.tool(op.kw, op.mode)
        hook.active = True
        op.run(w, path, tool)
        hook.active = False
        return hook.events, live.tree_listing(w.root)

    out, _ = child(count)
    if out is None or out[0] != "ok":
        raise Violation(f"the undisturbed call fails: {out}", **info)
    events, want_files = out[1]
    counts["file_system_operations"] = len(events)
    faults = []
    for at, (kind, name) in enumerate(events):
        for f in FAULTS:
            if f == "death" and kind in ("open for reading", "os.listdir", "os.scandir") and at and events[at - 1][0] == kind:
                continue  # the same state as before the operation before
            if f == "denied" and r.random() < .6 and cx.tier == "quick":
                continue
            faults.append((f, at))
    sizes = {len(v) for k, v in want_files.items() if isinstance(v, bytes) and before.get(k) != v}
    limits = {0, 1}
    for s in sizes:
        limits |= {s // 2, s - 1, max(0, s - 30), r.randrange(max(1, s)), r.randrange(max(1, s))}
    faults += [(k, n) for n in sorted(limits) for k in ("death beyond", "error beyond")] if sizes else []
    for f in faults:
        hit = one_fault(w, path, before, earlier, op, want_files, wants, f, others, r, info, r.random() < .5)
        counts["faults_injected"] += 1
        counts["faults_hit_" + f[0].replace(" ", "_")] += hit
    counts["scenarios_" + op.kind] += 1
    for k, n in events:
        counts["fault_points_" + k.replace(" ", "_")] += 1
    return CaseInfo(repr((prior, op)), sum(v for k, v in counts.items() if k.startswith("faults_hit")) >= 5, dict(counts), sample=dict(prior=prior, operation=op, events=events), evals=len(faults))


def required(tier):
    return {"faults_injected": 1500, "faults_hit_death": 200, "faults_hit_no_space": 200, "faults_hit_death_beyond": 200, "faults_hit_error_beyond": 200, "scenarios_call": 30, "scenarios_reset": 8, "scenarios_yaml": 8}
