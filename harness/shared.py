"""Renderings sharing one compiled template (C16).

Each rendering alone (freshly compiled) is validated against the
specification.  Then the template is compiled once and its renderings run one
after the other and interleaved at engine-call granularity; every one must
behave exactly as it did alone, and the compiled form must not change.
"""
import itertools
import math
import pickle
import random
import threading

import case as C
import impl
import profiles
from gen import Gen
from gen import Policy
from serial import serialize

P = profiles.P
ENTRIES = [
    P(dict(profiles.MACROS, attributes=.3, replace=.15, struct=.6), dict(p_markup=.7), dict(limit=6)),
    P(dict(profiles.MACROS, docs=3, extmacro=.6, usemacro=.4, define=.05, condition=.05, content=.05, replace=.03, attributes=.03, size=14),
      dict(p_mdefault=.03), dict(limit=8), w=2),
    P(dict(profiles.MACROS, onerror=.2, repeat=.25), dict(p_raise=.06), dict(limit=6)),
    P(dict(repeat=.4, attributes=.6, replace=.3, struct=.8, p_attr=.8), dict(p_markup=.8)),
    P(dict(profiles.I18N, onerror=.15, repeat=.2), dict(p_msg=.1, p_raise=.04)),
    P(dict(profiles.MACROS, **dict(profiles.I18N, size=12)), dict(p_msg=.1), dict(limit=6)),
    P(dict(size=4, repeat=.3, attributes=.4, replace=.2, struct=.7), dict(p_markup=.8), w=2),
]


class System:
    """Some documents and K ways of rendering them."""

    def __init__(self, rng):
        e = profiles.pick(rng, ENTRIES)
        self.html = rng.random() < .5
        self.g = Gen(rng, self.html, **e["prof"])
        self.docs, self.srcs = [], []
        for i in range(self.g.p["docs"]):
            toks = self.g.document()
            self.srcs.append(serialize(toks, self.html, rng, 0))
            self.docs.append({"file": "f%d.pt" % (i + 1), "toks": toks})
        self.runs = []
        for _ in range(rng.choice([2, 2, 3])):
            o = dict(C.OPTS)
            o.update(e["opts"])
            if rng.random() < .3:
                o["strict"] = False
            if rng.random() < .15:
                o["showtal"] = True
                o["tal"] = rng.random() < .3 and not e["pol"].get("p_raise")
            if rng.random() < .15 and o["tal"]:
                o["metal"] = False
            self.runs.append((o, rng.random(), e["pol"]))
        self.rng = rng

    def compile(self):
        return [impl.compile_doc(s, self.html, d["file"])[0] for d, s in zip(self.docs, self.srcs)]

    def policy(self, codes, run):
        # the same answers every time, whatever else is going on
        macros = [(i + 1, n) for i, c in enumerate(codes) for n in sorted(c[1])]
        return Policy(random.Random(run[1]), self.g, macros, **run[2])

    def render(self, codes, run, hook=None):
        n0 = self.g.n
        try:
            return impl.render(codes, run[0], self.policy(codes, run), hook)
        finally:
            self.g.n = n0


class Baton:
    """Runs K renderings in threads, one step at a time, in a given order."""

    def __init__(self, system, codes, schedule):
        self.system, self.codes, self.schedule = system, codes, schedule
        self.k = len(system.runs)
        self.go = [threading.Semaphore(0) for _ in range(self.k)]
        self.back = threading.Semaphore(0)
        self.done = [False] * self.k
        self.result = [None] * self.k

    def body(self, i):
        self.go[i].acquire()
        try:
            self.result[i] = self.system.render(self.codes, self.system.runs[i], lambda eng: self.pause(i))
        except BaseException as e:  # noqa
            self.result[i] = {"out": "", "exc": "harness:" + repr(e), "log": [], "bal": True}
        self.done[i] = True
        self.back.release()

    def pause(self, i):
        self.back.release()
        self.go[i].acquire()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.k)]
        for t in ts:
            t.start()
        for i in itertools.chain(self.schedule, itertools.cycle(range(self.k))):
            if all(self.done):
                break
            if self.done[i]:
                continue
            self.go[i].release()
            if not self.back.acquire(timeout=30):
                return ["stuck"] * self.k
        return self.result


def frozen(codes):
    try:
        return pickle.dumps(codes, 2)
    except Exception:  # noqa
        return None


def schedules(rng, lens, most):
    """every interleaving if there are few, else some"""
    n = math.factorial(sum(lens))
    for x in lens:
        n //= math.factorial(x)
    if n <= most:
        base = [i for i, x in enumerate(lens) for _ in range(x)]
        return sorted(set(perms(base))), True
    out = []
    for _ in range(most):
        s = [i for i, x in enumerate(lens) for _ in range(x)]
        if rng.random() < .5:
            rng.shuffle(s)
        else:
            # long runs of one rendering
            s, left = [], list(lens)
            while any(left):
                i = rng.choice([j for j, x in enumerate(left) if x])
                m = min(left[i], rng.randint(1, 6))
                s += [i] * m
                left[i] -= m
        out.append(tuple(s))
    return out, False


def perms(items):
    """distinct permutations of a multiset"""
    if not items:
        yield ()
        return
    for x in sorted(set(items)):
        rest = list(items)
        rest.remove(x)
        for p in perms(rest):
            yield (x,) + p


def run(ck):
    import props
    cases, jobs = [], []
    for i in range(ck.q(500, 5000)):
        s = System(ck.rng("sys", i))
        codes = s.compile()
        if not all(codes):
            continue
        alone = []
        for r in s.runs:
            fresh = s.compile()
            ob = s.render(fresh, r)
            c = {"html": s.html, "files": True, "opts": r[0], "docs": s.docs, "srcs": s.srcs, "comp": [{"ok": True}] * len(s.docs)}
            c.update(ob)
            alone.append(ob)
            cases.append(c)
            props.count(ck, c)
        jobs.append((s, codes, alone))
    bad = []
    for b in range(0, len(cases), 500):
        bad += props.judge(ck, cases[b:b + 500], None, workers=8)
    if bad:
        props.report(ck, bad)
    ck.samples.append(props.sample(max(cases[:20], key=lambda c: len(c["log"]))))
    for s, codes, alone in jobs:
        before = frozen(codes)
        # one after the other, twice over
        order = list(range(len(s.runs))) * 2
        s.rng.shuffle(order)
        for i in order:
            ck.add("sequential_renderings")
            same(ck, s, codes, before, s.render(codes, s.runs[i]), alone[i], i, "sequence %r" % order)
        # a pause before every question and one step to start
        lens = [len(a["log"]) + 1 for a in alone]
        some, full = schedules(s.rng, lens, ck.q(14, 60))
        if full:
            ck.add("systems_with_every_interleaving")
        for sch in some:
            ck.add("interleavings")
            got = Baton(s, codes, sch).run()
            for i, g in enumerate(got):
                same(ck, s, codes, before, g, alone[i], i, "schedule %r" % (sch,))
    ck.samples.append({"schedule": some[0], "renderings": len(s.runs), "template": s.srcs[0][:300]})


def same(ck, s, codes, before, got, want, i, how):
    now = frozen(codes)
    what = None
    if got != want:
        what = "rendering %d behaves differently when the compiled template is shared (%s)" % (i, how[:200])
    elif now != before:
        what = "rendering %d changed the compiled template" % i
    if what:
        ck.fail("shared", {"srcs": s.srcs, "opts": [r[0] for r in s.runs], "how": how, "rendering": i, "alone": want, "shared": got,
                           "compiled_form_changed": now != before}, what + ": %r" % s.srcs[0][:200])
