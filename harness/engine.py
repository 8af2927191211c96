"""Histories of the bundled expression engine (C21)."""
import json
import os
import re
import subprocess
import tempfile

import case as C
import impl  # noqa: F401  (import path)

from zope.tal.dummyengine import Default  # noqa: E402
from zope.tal.dummyengine import DummyEngine  # noqa: E402
from zope.tal.dummyengine import MultipleDomainsDummyEngine  # noqa: E402
from zope.i18nmessageid import Message  # noqa: E402

SEQS = {"s0": [], "s1": ["i1"], "s2": ["i1", "i2"], "s3": ["i1", "i2", "i3"], "sn": [None, "", "i2", None]}
COMPILED = {}


class Driver:
    def __init__(self, dicts=False, cls=DummyEngine):
        self.e = cls()
        for n, q in SEQS.items():
            self.e.setGlobal(n, q)
        self.e.setGlobal("seven", 7)
        self.e.useEngineAttrDicts = dicts
        self.its = []

    def show(self, v):
        if v is None:
            return "(None)"
        if v is Default:
            return "(Default)"
        if v is True or v is False:
            return "(%s)" % v
        if v == 7:
            return "(7)"
        for n, q in SEQS.items():
            if v is q:
                return "(%s)" % n
        return v if isinstance(v, str) else "odd %r" % (v,)

    def val(self, x, how="evaluate"):
        c = COMPILED.get(x)
        if c is None:
            c = COMPILED[x] = self.e.compile(x)
        try:
            return self.show(getattr(self.e, how)(c))
        except impl.TALError:
            return "?"
        except Exception as e:  # noqa
            return "raised %s" % type(e).__name__

    def do(self, o, n, v, k=0, **kw):
        """-> result as in the specification"""
        e = self.e
        if o == "begin":
            e.beginScope()
        elif o == "end":
            try:
                e.endScope()
            except AssertionError:
                return "refused"
        elif o == "local":
            e.setLocal(n, v)
        elif o == "code":
            e.evaluateCode("text/server-python", "%s = %r" % (n, v))
        elif o == "global":
            e.setGlobal(n, v)
        elif o == "repeat":
            self.its.append(e.setRepeat(n, e.compile(v)))
        elif o == "next":
            if not self.its or k > len(self.its):
                return "no loop"
            return str(int(bool(self.its[k - 1 if k else -1].__next__())))
        elif o == "eval":
            return self.val(n, v or "evaluate")
        elif o == "text":
            return self.val(n, "evaluateText")
        elif o == "gcode":
            e.evaluateCode("text/server-python", "  global %s\n  %s = %r" % (n, n, v))
        elif o == "print":
            return e.evaluateCode("text/server-python", "<!--\n\n  print(%r)\n-->" % v)
        elif o == "file":
            e.setSourceFile(n)
        elif o == "pos":
            e.setPosition((int(n), int(v)))
        return ""

    def seen(self, o, n, v, **kw):
        try:
            r = self.do(o, n, v, **kw)
        except Exception as e:  # noqa
            r = "raised %s" % type(e).__name__
        s = [r] + [self.val(x) for x in "xyz"]
        for x, y in zip("xyz", s[1:]):
            # getValue and exists agree with evaluate
            g = self.e.getValue(x, "?")
            if self.show(g) != y or (self.val("exists:" + x) == "(True)") != (y != "?"):
                s.append("%s: getValue %r exists %s" % (x, g, self.val("exists:" + x)))
        return s


def replay(h):
    d = Driver()
    return [d.seen(*op.split(":")) for op in h]


def enum(ck):
    depth = ck.q(5, 6)
    rc, out = C.tlc("TalEngine", "TalEngineEnum.cfg", env={"DEPTH": str(depth), "TRACE": os.devnull}, workers=8, timeout=850)
    if rc != 0:
        raise C.MachineryError(out[-4000:])
    gen, dist = C.states(out)
    ck.states += dist
    ck.transitions += gen
    n = 0
    for line in out.splitlines():
        if not line.startswith('"{'):
            continue
        row = json.loads(json.loads(line))
        n += 1
        got = replay(row["h"])
        if got != row["s"]:
            i = next(i for i in range(len(got)) if got[i] != row["s"][i])
            ck.fail("history", {"history": row["h"], "expected": row["s"], "observed": got, "step": i + 1},
                    "engine history %r: after step %d expected %r, observed %r" % (row["h"], i + 1, row["s"][i], got[i]))
    if not n:
        raise C.MachineryError("no histories\n" + out[-3000:])
    ck.traces += n
    ck.cov["exhaustive_histories"] = {"length": depth, "histories": n}
    ck.samples.append({"history": row["h"], "seen": row["s"]})


EXPRS = ["x", "y", " z ", "string:x y", "str:", "path:x", "var: y", "not:x", "not:nothing", "not:q", "exists:x", "exists:q", "nothing", "default", "s1", "q",
         "local:x", "global:x", "bogus:x", "string:a:b", "not:s0", "not:s2", "z", "exists:nothing", "not:sn", "not:y", "not:string:", "python:x", "python:q", "python:nothing", "seven", "not:seven", "position:", "not:not:x", "exists:s0", "not:default"]
WORDS = ["hello", "World", "$x", "${y}", "${two-w}", "$", "${", "$ x", "a.b", "1", "${Y}", "don't", "${other}", "$other."]


def translation(rng):
    sep = rng.choice(["", " ", "."])
    msg = sep.join(rng.choice([w for w in WORDS if sep or w not in ("$x", "$", "${")]) for _ in range(rng.randint(1, 5)))
    if rng.random() < .1:
        msg = "don't translate me"
    return {"msg": msg, "dom": rng.choice(["default", "lower", "foo", "upper", "swapcase"]), "def": rng.choice(["dflt $x", "${y}!", "D"] + [msg]),
            "map": mapping(rng), "m": [{"dom": rng.choice(["default", "lower", "foo", "swapcase", "upper"]), "map": mapping(rng),
                                        "def": rng.choice(["(none)", "own $x", "${y}?"])}] if rng.random() < .4 else []}


def mapping(rng):
    m = {rng.choice(["x", "X"]): rng.choice(["X v", "${y}", ""]), "y": rng.choice(["<b>", "why"]), rng.choice(["two-w", "Two-W"]): "2"}
    r = rng.random()
    if r < .15:
        del m[rng.choice(sorted(m))]
    return {} if r > .93 else m


def message(t):
    if not t["m"]:
        return t["msg"]
    m = t["m"][0]
    return Message(t["msg"], m["dom"], None if m["def"] == "(none)" else m["def"], m["map"] or None)


def history(rng):
    d = Driver(rng.random() < .3, rng.choice([DummyEngine, DummyEngine, MultipleDomainsDummyEngine]))
    ops = []
    for _ in range(rng.choice([10, 30, 60])):
        o = rng.choices(["begin", "end", "local", "global", "code", "repeat", "next", "eval", "translate", "text", "gcode", "print", "file", "pos"],
                        [4, 4 if rng.random() < .9 else 9, 5, 3, 1, 2, 5, 4, 1, 1, 1, .5, .5, .5])[0]
        n = rng.choice("xyz")
        v = rng.choice(["v1", "v2", "v3", ""])
        op = {"o": o, "n": n, "v": v, "k": 0}
        if o == "repeat":
            op["v"] = rng.choice(list(SEQS))
        elif o == "next":
            op["n"] = "k"
            op["k"] = rng.randint(1, max(1, len(d.its)))
        elif o == "eval":
            op["n"] = rng.choice(EXPRS)
            op["v"] = rng.choice(["evaluate", "evaluateValue", "evaluateBoolean", "evaluateStructure"])
        elif o == "text":
            op["n"] = rng.choice(EXPRS)
        elif o == "file":
            op["n"] = rng.choice(["a.pt", "dir/b.pt"])
        elif o == "pos":
            op["n"], op["v"] = str(rng.randint(1, 99)), str(rng.randint(0, 9))
        if o == "translate":
            t = translation(rng)
            op.update(t)
            try:
                op["seen"] = [str(d.e.translate(message(t), t["dom"], t["map"] or None, t["def"]))]
            except Exception as e:  # noqa
                op["seen"] = ["raised %r" % e]
        else:
            op["seen"] = d.seen(**op)
        ops.append(op)
    return {"ops": ops}


def trace(ck):
    n = ck.q(2500, 25000)
    rows = [history(ck.rng("h", i)) for i in range(n)]
    d = tempfile.mkdtemp(prefix="taleng")
    try:
        p = os.path.join(d, "t")
        with open(p, "w") as f:
            for r in rows:
                f.write(json.dumps(r) + "\n")
        rc, out = C.tlc("TalEngine", "TalEngineTrace.cfg", env={"DEPTH": "0", "TRACE": p}, workers=8, timeout=850)
    finally:
        subprocess.run(["rm", "-rf", d])
    flat = re.sub(r"\s+", " ", out)
    v = {int(a): (int(b), C.names(c)) for a, b, c in re.findall(r'<< ?"VERDICT", (\d+), (\d+), \{([^}]*)\}', flat)}
    if rc != 0 or len(v) != n:
        raise C.MachineryError("TLC rc=%d, %d of %d verdicts\n%s" % (rc, len(v), n, out[-4000:]))
    gen, dist = C.states(out)
    ck.states += dist
    ck.transitions += gen
    ck.traces += n
    ck.add("operations_validated", sum(len(r["ops"]) for r in rows))
    bad = [(rows[k - 1]["ops"][:i + 1], i) for k, (i, cl) in v.items() if cl]
    ck.samples.append(rows[0]["ops"][:4])
    if bad:
        ops, i = min(bad, key=lambda b: b[1])
        m = re.search(r'<< ?"VERDICT", \d+, %d, \{"SEEN"\}, (<<.*?>>)' % i, flat)
        ck.fail("trace", {"ops": ops, "step": i + 1, "expected": m and m.group(1), "violating": len(bad)},
                "engine operation %r after %d others: observed %r, expected %s" % ({k: x for k, x in ops[-1].items() if k != "seen"}, i, ops[-1]["seen"], m and m.group(1)))


def run(ck):
    enum(ck)
    trace(ck)
