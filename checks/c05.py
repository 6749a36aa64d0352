"""C05: same data and strategies, same text: in any process, under any hash seed, whatever was generated before."""
import hashlib
import json
import os
import random
import subprocess
import sys

from vlib import api, funcs, gen
from vlib.runner import VERIF, CaseInfo, Inconclusive, Violation

PROP = "C05"
LEVEL = "exploration"
RULE = ("each case is a batch of 80 random set-free structures, generated in this process, again in another order after other work, with all leaves replaced by others of the "
        "same type, and in 3 new processes with other hash seeds and orders; texts are compared. Non-trivial: some text has a union; distinct by batch.")
BATCH = 80


def cases(tier):
    return 24 if tier == "quick" else 400


def build(seed, prop, i, j):
    r = random.Random(f"{seed}:{prop}:{i}:{j}")
    kw = gen.strategies(r)
    if r.random() < .3:
        kw["key_used_as_doc"] = r.choice(["name", "a"])
    f = gen.Features(sets=False, callables=.04, dup=.5, weird_keys=.3)
    if j % 8 == 3:  # (callables are easily mistaken for others)
        data = {k: r.choice([r.choice(funcs.TWINS), r.choice(funcs.FUNCS), [r.choice(funcs.TWINS)]]) for k in r.sample(gen.WORDS, r.randint(1, 4))}
    else:
        data = gen.Gen(r, f).container()
    return data, kw, gen.class_name(r), r


def text(seed, i, j):
    data, kw, name, r = build(seed, PROP, i, j)
    return api.text_of(data, kw, name)


def digest(s):
    return hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:24]


def child():
    """Run in a new process: digests of a batch, in the given order."""
    seed, i, order = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    sys.path.insert(0, sys.argv[5])
    js = list(range(BATCH))
    if order == "rev":
        js.reverse()
    elif order != "fwd":
        random.Random(order).shuffle(js)
    out = {}
    for j in js:
        out[j] = digest(text(seed, i, j))
    print("RESULT" + json.dumps(out))


def run_case(i, r, cx):
    first = {j: text(cx.seed, i, j) for j in range(BATCH)}
    js = list(range(BATCH))
    r.shuffle(js)
    unions = 0
    for j in js:
        data, kw, name, rr = build(cx.seed, PROP, i, j)
        t = api.text_of(data, kw, name)
        if t != first[j]:
            raise Violation("another text for equal data in the same process", data=data, strategies=api.diff_strategies(kw), class_name=name, first=first[j], second=t)
        if not kw.get("key_used_as_doc"):
            other = gen.revalue(data, rr)
            t = api.text_of(other, kw, name)
            if t != first[j]:
                raise Violation("the text depends on the values of leaves", data=data, other=other, strategies=api.diff_strategies(kw), class_name=name, first=first[j], second=t)
        unions += "Union[" in t
    want = {str(j): digest(s) for j, s in first.items()}
    procs = 0
    for hs, order in ((str(1 + (i * 3) % 1000), "rev"), (str(2 + i * 7), f"s{i}"), ("random", "fwd")):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        try:
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "checks.c05", "child", str(cx.seed), str(i), order, str(cx.scratch.src)], cwd=VERIF, env=env,
                               capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            raise Inconclusive("child process timed out") from None
        line = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        if not line:
            if "Violation" in p.stderr:
                raise Violation(f"generation fails in another process (hash seed {hs}): {p.stderr[-600:]}")
            raise Inconclusive(f"child gave no result: {p.stderr[-300:]}")
        got = json.loads(line[0][6:])
        procs += 1
        for j in range(BATCH):
            if got[str(j)] != want[str(j)]:
                data, kw, name, _ = build(cx.seed, PROP, i, j)
                raise Violation(f"another text in a process with hash seed {hs}", data=data, strategies=api.diff_strategies(kw), class_name=name, here=first[j])
    return CaseInfo(json.dumps(want), unions > 0, {"texts_compared": BATCH * 6, "processes": procs, "with_union": unions}, sample=dict(texts=[first[0]]), evals=BATCH * 6)


def required(tier):
    return {"processes": 24, "with_union": 200}


if __name__ == "__main__" and len(sys.argv) > 1 and sys.argv[1] == "child":
    child()
