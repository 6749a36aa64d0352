"""C25: independent generations do not influence each other."""
import random
import sys
import threading
import time
import warnings

from checks.c21 import child
from vlib import api, gen
from vlib.runner import CaseInfo, Inconclusive, Violation

PROP = "C25"
LEVEL = "exploration"
RULE = ("each case: 2-6 data structures, hinted and rendered (a) interleaved in one thread, in random order, (b) by threads under a scheduler that hands over at random lines of the package, (c) by free-running threads with a "
        "switch interval of 1 us; tools and strategies shared or separate. Every text is compared with the one generated alone in a pristine process. Non-trivial: 2+ different texts; distinct by data and schedule.")
ASSUMPTIONS = ["one tree is rendered by one thread at a time", "CPython threads under the GIL"]


class Baton:
    """Lets one of several threads run at a time; at every line of the package it may be handed over (seeded)."""

    def __init__(self, seed, n, p):
        self.r = random.Random(seed)
        self.n, self.p = n, p
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.trace_of = []
        self.lines = 0

    def start(self):
        self.locks[self.r.randrange(self.n)].release()

    def switch(self, me):
        others = sorted(self.alive - {me})
        if not others:
            return
        to = self.r.choice(others)
        self.trace_of.append(to)
        self.locks[to].release()
        self.locks[me].acquire(timeout=1)  # (not for ever: the other one may wait for a lock)

    def tracer(self, me):
        def trace(frame, event, arg):
            if "lazy_type_hint" not in frame.f_code.co_filename:
                return None
            if event in ("call", "line"):
                self.lines += 1
                if self.r.random() < self.p:
                    self.switch(me)
            return trace

        return trace

    def run(self, me, fn):
        self.locks[me].acquire(timeout=1)  # (not for ever: the other one may wait for a lock)
        sys.settrace(self.tracer(me))
        try:
            fn()
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            rest = sorted(self.alive)
            if rest:
                self.locks[self.r.choice(rest)].release()


def jobs_of(r):
    n = r.choice([2, 2, 3, 4, 6])
    base = gen.strategies(r)
    f = gen.Features(sets=False, callables=.06, max_depth=3, max_width=5, io=0)
    out = []
    for j in range(n):
        if out and r.random() < .3:
            data = r.choice([gen.similar, gen.nearby])(r.choice(out)[0], r)
        elif out and r.random() < .15:
            data = out[0][0]
        else:
            data = gen.Gen(r, f).container()
        kw = base if r.random() < .5 else gen.strategies(r)
        if r.random() < .2:
            kw = dict(kw, key_used_as_doc=r.choice(["name", "a"]))
        name = "Example" if r.random() < .6 else gen.class_name(r)
        out.append((data, kw, name))
    return out


def run_case(i, r, cx):
    from lazy_type_hint import LazyTypeHint

    warnings.simplefilter("ignore")
    jobs = jobs_of(r)
    n = len(jobs)
    how = ["interleaved", "scheduled", "free"][(i // 8) % 3]
    sharing = r.choice(["all", "strategies", "none"])
    info = dict(jobs=jobs, how=how, sharing=sharing)

    def alone(j):
        def fn():
            data, kw, name = jobs[j]
            t = api.tree_of(data, kw, name)
            return t.to_string(), t.to_string(include_imports=False)

        return fn

    want = []
    for j in range(n):
        res, _ = child(alone(j))
        if res is None or res[0] != "ok":
            if res and res[1] == "Violation":
                raise Violation(f"alone: {res[2]}", **info)
            raise Inconclusive(f"child: {res}")
        want.append(res[1])

    seed = r.random()

    def together():
        rr = random.Random(seed)
        strat = {}

        def strategies(kw):
            key = repr(kw)
            if sharing == "none" or key not in strat:
                strat[key] = api.make_strategies(kw)
            return strat[key]

        tools = {}

        def tool(kw):
            if sharing == "all":
                return tools.setdefault(repr(kw), LazyTypeHint(strategies(kw)))
            return LazyTypeHint(strategies(kw))

        bad = []
        events = 0
        if how == "interleaved":
            trees = [[] for _ in range(n)]
            for _ in range(rr.randint(3 * n, 6 * n)):
                j = rr.randrange(n)
                data, kw, name = jobs[j]
                events += 1
                if not trees[j] or rr.random() < .4:
                    trees[j].append(tool(kw).from_data(data, class_name=name))
                else:
                    t = rr.choice(trees[j])
                    imp = rr.random() < .6
                    text = t.to_string(include_imports=imp)
                    if text != want[j][0 if imp else 1]:
                        bad.append((j, text))
            for j in range(n):
                for t in trees[j]:
                    events += 1
                    text = t.to_string()
                    if text != want[j][0]:
                        bad.append((j, text))
            return bad, events, ()
        rounds = 1 if how == "scheduled" else 3
        made = [None] * n

        def work(j):
            data, kw, name = jobs[j]
            for _ in range(rounds):
                try:
                    t = tool(kw).from_data(data, class_name=name)
                    a, b = t.to_string(), t.to_string(include_imports=False)
                    made[j] = t
                    if (a, b) != want[j]:
                        bad.append((j, a if a != want[j][0] else b))
                except BaseException as e:  # noqa: BLE001
                    bad.append((j, f"{type(e).__name__}: {e}"))

        if how == "scheduled":
            b = Baton(seed, n, rr.choice([.002, .01, .05, .3]))
            ts = [threading.Thread(target=b.run, args=(j, lambda j=j: work(j)), daemon=True) for j in range(n)]
            for t in ts:
                t.start()
            b.start()
            for t in ts:
                t.join(50)
            if any(t.is_alive() for t in ts):
                raise RuntimeError("the scheduled threads do not end")
            order = tuple(b.trace_of[:400])
            events = len(b.trace_of)
        else:
            sys.setswitchinterval(1e-6)
            gate = threading.Barrier(n)

            def free(j):
                gate.wait()
                work(j)

            ts = [threading.Thread(target=free, args=(j,), daemon=True) for j in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(50)
            if any(t.is_alive() for t in ts):
                raise RuntimeError("the threads do not end")
            order = ()
            events = rounds * n
        # a tree that one thread made can be rendered by another one later
        for j in range(n):
            if made[j] is not None and made[j].to_string() != want[j][0]:
                bad.append((j, made[j].to_string()))
        return bad, events, order

    res, status = child(together)
    if res is None:
        raise Violation(f"the process dies (status {status})", **info)
    if res[0] != "ok":
        if how == "interleaved":
            raise Violation(f"interleaved, a call fails although it works alone: {res[1]}: {res[2]}", trace=res[3], **info)
        raise Inconclusive(f"child: {res}")
    bad, events, order = res[1]
    if bad:
        j, text = bad[0]
        raise Violation(f"{how}: a text differs from the one generated alone", alone=want[j], got=text, job=jobs[j], **info)
    return CaseInfo((repr(jobs), how, order), len({w[0] for w in want}) > 1, {"runs_" + how: 1, "events_" + how: events, "trees": n, "distinct_schedules": bool(order)}, sample=dict(how=how, schedule=order[:40], jobs=len(jobs)))


def cases(tier):
    return 2400 if tier == "quick" else 60000


def required(tier):
    return {"runs_interleaved": 300, "runs_scheduled": 300, "runs_free": 300, "events_scheduled": 10000, "events_interleaved": 4000, "distinct_schedules": 250}


assert time
