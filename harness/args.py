"""Observing what the implementation makes of statement arguments (C05)."""
import html as H
import io
import itertools
import json
import multiprocessing
import os
import re
import subprocess
import tempfile

import case as C
import impl
from impl import HTMLTALParser
from impl import TALGenerator
from impl import TALParser

NS = ('xmlns:tal="http://xml.zope.org/namespaces/tal" xmlns:i18n="http://xml.zope.org/namespaces/i18n" ')


class Compiler:
    def getCompilerError(self):
        return impl.BadExpr

    def compile(self, expr):
        return "=" + expr


class Engine(impl.RecEngine):
    """Notes what is asked for and what is assigned."""

    def __init__(self):
        impl.RecEngine.__init__(self, None)
        self.notes = []

    def note(self, op, e):
        assert e[0] == "="
        self.notes.append([op, e[1:]])

    def evaluateText(self, e):
        self.note("text", e)
        if e == "=!raise":
            raise impl.expr_error("X")
        return "v%d" % len(self.notes)

    def evaluateStructure(self, e):
        self.note("structure", e)
        return "v%d" % len(self.notes)

    def evaluateValue(self, e):
        self.note("value", e)
        return len(self.notes)

    def setLocal(self, name, value):
        if isinstance(value, int):
            self.notes.append(["local", name])

    def setGlobal(self, name, value):
        self.notes.append(["global", name])

    def setRepeat(self, name, e):
        self.note("repeat", e)
        self.notes.append(["loop", name])
        return impl.RecIterator(self, name, "it")

    def ask(self, op, e, **kw):
        return {"t": "end"}

    def createErrorInfo(self, exc, position):
        return impl.Err("x")

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.notes.append(["tr", str(msgid)])
        return "v%d" % len(self.notes)


TEMPLATES = {
    "define": '<p %stal:define="%s"></p>',
    "attributes": '<p %stal:attributes="%s"></p>',
    "content": '<p %stal:content="%s"></p>',
    "replace": '<p %stal:replace="%s"></p>',
    "on-error": '<p %stal:on-error="%s" tal:content="!raise"></p>',
    "repeat": '<p %stal:repeat="%s"></p>',
    "iattributes": '<p %sa="sa" b="sb" m="sm" i18n:attributes="%s"></p>',
}


def observe(job):
    kind, s, html = job
    o = {"kind": kind, "s": s, "html": html, "ok": False, "c": "", "q": [], "trim": False}
    src = TEMPLATES[kind] % ("" if html else NS, H.escape(s))
    gen = TALGenerator(Compiler(), xml=0 if html else 1)
    p = (HTMLTALParser if html else TALParser)(gen)
    try:
        p.parseString(src)
        prog, macros = p.getCode()
    except Exception as e:  # noqa
        o["c"] = impl.exc_name(e)
        return o
    eng = Engine()
    out = io.StringIO()
    try:
        impl.make_interp(prog, macros, eng, out, C.OPTS)()
    except Exception as e:  # noqa
        o["c"] = "render:" + impl.exc_name(e)
        return o
    o["ok"] = True
    N = eng.notes
    if kind == "define":
        o["q"] = [[N[i + 1][0], N[i + 1][1], N[i][1]] for i in range(0, len(N) - 1, 2)]
        if len(N) % 2 or [n[0] for n in N[::2]] != ["value"] * (len(N) // 2):
            o["q"] = [["?", "", json.dumps(N)]]
    elif kind == "attributes":
        q = [["", m[0], N[int(m[1]) - 1][1]] for m in re.findall(r'(\S+)="v(\d+)"', out.getvalue())]
        o["q"] = q if len(q) == len(N) else [["?", "", json.dumps(N)]]
    elif kind == "iattributes":
        q = []
        told = 0
        for n, v in re.findall(r'(\S+)="([^"]*)"', out.getvalue()):
            if re.match(r"v\d+$", v):
                told += 1
                m = N[int(v[1:]) - 1][1]
                q.append(["", n, "" if m == "s" + n else m])
            elif v == n:
                # neither value nor message id: nothing to translate
                q.append(["", n, ""])
        o["q"] = q if told == len(N) else [["?", "", json.dumps(N)]]
    elif kind == "repeat":
        o["q"] = [["", N[1][1], N[0][1]]] if [n[0] for n in N] == ["repeat", "loop"] else [["?", "", json.dumps(N)]]
    else:
        if kind == "on-error":
            N = N[1:]
        o["q"] = [[n[0], "", n[1]] for n in N]
    return o


ALPHABETS = {
    "define": ["a", "global", "local", " ", ";", "-x", "\n"],
    "attributes": ["a", "B", " ", ";", "\n", "x:y"],
    "content": ["text", "structure", "a", " ", "\n", ";"],
    "replace": ["text", "structure", "a", " "],
    "on-error": ["text", "structure", "a", " "],
    "repeat": ["a", " ", "\n", ";", "1", "-"],
    "iattributes": ["a", "b", " ", ";"],
}
EXTRA = ["a", "b", "Zz", "_q", "x-1", "1", "global", "local", "text", "structure", "globals", "textual", "Global", " ", " ", "  ", "\t", "\n", ";", ";", ";;", ";;;",
         "python:x['a;b']", "string:${x/y} $$", "a/b|nothing", "not:x", "&", "<b>", '"', "'", "é", "=", "\0"[:0], ":", "x:y", "."]


def jobs(ck):
    """-> (jobs, plan) : everything up to a length, and random longer strings"""
    plan, js = [], []
    for kind, al in ALPHABETS.items():
        for html in (True, False):
            n = ck.q(5, 6) - (0 if html else 1)
            a = [x for x in al if html or x != "\n"]
            plan.append({"kind": kind, "html": html, "alphabet": a, "len": n})
            for k in range(n + 1):
                for t in itertools.product(a, repeat=k):
                    js.append((kind, "".join(t), html))
    rng = ck.rng("args")
    for _ in range(ck.q(4000, 40000)):
        kind = rng.choice(list(ALPHABETS))
        html = rng.random() < .7
        al = EXTRA if rng.random() < .6 else ALPHABETS[kind] + [";", ";;", " "]
        if kind == "iattributes":
            al = ["a", "b", "m", "m", " ", " ", ";", "id1", "\n" if html else " "]
        if not html:
            al = [x for x in al if not set(x) & set("\n\t")]
        if kind in ("attributes", "iattributes"):
            # the observation reads attribute names back from the output
            al = [x for x in al if not set(x) & set('"\'=<&é')]
        js.append((kind, "".join(rng.choice(al) for _ in range(rng.randint(3, 14))), html))
    js = list(dict.fromkeys(js))
    return js, plan


def declared(ck, n):
    """(kind, argument, meaning) triples the document generator relies on"""
    from gen import Gen
    seen = {}
    for i in range(n):
        rng = ck.rng("declared", i)
        html = rng.random() < .5
        g = Gen(rng, html, translate=.3, iattr=.4, onerror=.2, attributes=.5, define=.5, repeat=.3, replace=.2, content=.3, docs=1)
        for t in g.document():
            if t["k"] != "S":
                continue
            for a in t["attrs"]:
                d = a["d"]
                kind = a["l"]
                if a["p"] == "tal" and kind == "define":
                    q = [[x["sc"] or "local", x["n"], x["e"]] for x in d]
                elif a["p"] == "tal" and kind == "attributes":
                    q = [["", x["n"], x["e"]] for x in d]
                elif a["p"] == "tal" and kind in ("content", "replace", "on-error"):
                    q = [[d["m"], "", d["e"]]]
                elif a["p"] == "tal" and kind == "repeat":
                    q = [["", d["n"], d["e"]]]
                elif a["p"] == "i18n" and kind == "attributes":
                    kind = "iattributes"
                    q = [["", x["n"], x["m"]] for x in d]
                else:
                    continue
                seen[kind, a["v"], html] = q
    return [{"kind": k, "s": s, "html": h, "ok": True, "c": "", "q": q, "trim": True} for (k, s, h), q in seen.items()]


def check(obs, plan, workers=8):
    d = tempfile.mkdtemp(prefix="talargs")
    try:
        for name, rows in (("t", obs), ("p", plan)):
            with open(os.path.join(d, name), "w") as f:
                for o in rows:
                    f.write(json.dumps(o) + "\n")
        rc, out = C.tlc("TalArgs", env={"TRACE": os.path.join(d, "t"), "PLAN": os.path.join(d, "p")}, workers=workers)
    finally:
        subprocess.run(["rm", "-rf", d])
    if rc != 0:
        raise C.MachineryError("TLC rc=%d\n%s" % (rc, out[-5000:]))
    flat = re.sub(r"\s+", " ", out)
    bad = [(int(m[0]), C.names(m[1])) for m in re.findall(r'<< ?"VERDICT", (\d+), \{([^}]*)\}', flat)]
    gen, dist = C.states(out)
    exh = [(a, b == "TRUE", int(c), int(n)) for a, b, c, n in re.findall(r'"EXHAUSTIVE", "([^"]+)", (TRUE|FALSE), (\d+), (\d+)', flat)]
    return bad, gen, dist, exh


def run(ck):
    js, plan = jobs(ck)
    with multiprocessing.Pool(8) as pool:
        obs = pool.map(observe, js, chunksize=500)
    decl = declared(ck, ck.q(300, 2000))
    bad, gen, dist, exh = check(obs, plan)
    if len(exh) != len(plan):
        raise C.MachineryError("enumeration incomplete: %r" % (exh,))
    ck.states, ck.transitions, ck.traces = dist, gen, len(obs)
    ck.cov["exhaustive"] = [{"statement": a, "html": b, "length": c, "strings": n} for a, b, c, n in exh]
    ck.add("rejected_arguments", sum(not o["ok"] for o in obs))
    ck.samples = [o for o in obs if o["ok"] and len(o["q"]) > 1][-2:] + [o for o in obs if not o["ok"]][-1:]
    if bad:
        no, cl = min(bad, key=lambda b: len(obs[b[0] - 1]["s"]))
        o = obs[no - 1]
        ck.fail("args", {"observation": o, "clauses": sorted(cl), "violating": len(bad)},
                "%s argument %r: %s (observed %r)" % (o["kind"], o["s"], ",".join(sorted(cl)), o["q"] if o["ok"] else o["c"]))
    # the generated documents of the other checks mean what they are said to mean
    bad, gen, dist, exh = check(decl, [])
    if bad:
        raise C.MachineryError("declared meaning differs: %r" % decl[bad[0][0] - 1])
    ck.add("declared_arguments_confirmed", len(decl))
