"""Message extraction (C20)."""
import concurrent.futures
import io
import json
import os
import re
import subprocess
import tempfile
import warnings

import case as C
import impl
from gen import Gen
from serial import serialize
from serial import T

from zope.tal.talgettext import POEngine  # noqa: E402
from zope.tal.talgettext import POTALInterpreter  # noqa: E402

DYN = "${DYNAMIC_CONTENT}"
BASE = dict(translate=.45, name=.5, data=.25, iattr=.5, domain=.25, vtrans=.4, i18n_ctx=.05, attributes=.3, condition=.2, repeat=.2, omit=.15,
            content=.15, replace=.1, define=.15, onerror=.1, p_control=.6, size=8)
PROFILES = [
    BASE,
    dict(BASE, size=16, msgid=.8),
    dict(BASE, defmacro=.2, usemacro=.15, extmacro=.3, defslot=.3, fillslot=.4, size=12),
    dict(BASE, texts=["a", "b ", "\n", "  a", "a\n b"], translate=.7, msgid=.5, values=["a", "b", "", "a  b"], size=10),
    dict(BASE, pre=.1, struct=.6, replace=.25),
]


class Engine(POEngine):
    def compile(self, e):
        if e.startswith("!"):
            raise impl.BadExpr("bad")
        return e.strip()


def case(rng):
    prof = dict(rng.choice(PROFILES))
    html = rng.random() < .6
    g = Gen(rng, html, **prof)
    docs, srcs = [], []
    for i in range(rng.choice([1, 1, 2, 3])):
        toks = g.document()
        srcs.append(serialize(toks, html, rng, .1 if rng.random() < .2 else 0))
        docs.append({"file": "f%d.pt" % rng.choice([1, 2]) if i else "f1.pt", "toks": toks})
    return docs, srcs, html


def extract(docs, srcs, html):
    o = dict(C.OPTS, metal=False)
    c = {"html": html, "docs": docs, "srcs": srcs, "opts": o, "exc": "", "cat": [], "warned": 0,
         "dyn": {"t": "s", "id": DYN, "s": DYN, "toks": [T(DYN)]}, "x": [T("x")]}
    eng = POEngine()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for d, s in zip(docs, srcs):
            code, ob = impl.compile_doc(s, html, d["file"])
            if code is None:
                return None
            eng.file = d["file"]
            try:
                with impl.limit(20):
                    POTALInterpreter(code[0], code[1], eng, stream=io.StringIO(), metal=False)()
            except impl.Stop:
                c["exc"] = "Runaway"
                break
            except Exception as e:  # noqa
                c["exc"] = impl.exc_name(e)
                break
        c["warned"] = len(w)
    for dom, msgs in eng.catalog.items():
        for m, locs in msgs.items():
            c["cat"].append({"dom": str(dom), "id": str(m), "def": "(none)" if m.default is None else str(m.default),
                             "locs": [[f, impl.pos_str(p)] for f, p in locs]})
    return c


def validate(cases, show=False, workers=3):
    d = tempfile.mkdtemp(prefix="talx")
    try:
        p = os.path.join(d, "t")
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(C.strip(c)) + "\n")
        env = {"TRACE": p}
        if show:
            env["SHOW"] = "1"
        rc, out = C.tlc("TalExtract", env=env, workers=workers)
    finally:
        subprocess.run(["rm", "-rf", d])
    flat = re.sub(r"\s+", " ", out)
    v = {int(no): (int(k), C.names(cl)) for no, k, cl, _ in C.VERDICT.findall(flat)}
    if rc != 0 or len(v) != len(cases):
        raise C.MachineryError("TLC rc=%d, %d of %d verdicts\n%s" % (rc, len(v), len(cases), out[-5000:]))
    return v, C.states(out), out


def run(ck):
    n, batch = ck.q(2000, 20000), 400
    cases = []
    i = 0
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        futs, bad = [], []
        part = []
        while len(cases) < n:
            docs, srcs, html = case(ck.rng("x", i))
            i += 1
            c = extract(docs, srcs, html)
            if c is None:
                ck.add("templates_not_compiling")
                continue
            ck.add("messages", len(c["cat"]))
            ck.add("locations", sum(len(e["locs"]) for e in c["cat"]))
            ck.add("warnings", c["warned"])
            cases.append(c)
            part.append(c)
            if len(part) == batch or len(cases) == n:
                futs.append((part, ex.submit(validate, part)))
                part = []
        for part, f in futs:
            v, (gen, dist), out = f.result()
            ck.states += dist
            ck.transitions += gen
            ck.traces += len(part)
            bad += [(part[k - 1], cl) for k, (_, cl) in v.items() if cl]
    ck.samples = [{"template": c["srcs"], "catalog": c["cat"]} for c in cases[:30] if len(c["cat"]) > 2][:2]
    if bad:
        c, cl = min(bad, key=lambda b: sum(map(len, b[0]["srcs"])))
        v, s, out = validate([c], show=True, workers=1)
        want = [x[:3000] for x in out.splitlines() if x.startswith('<<"EXPECTED"')]
        ck.fail("extract", {"srcs": c["srcs"], "catalog": c["cat"], "exc": c["exc"], "warned": c["warned"], "clauses": sorted(cl), "expected": want, "case": C.strip(c)},
                "extraction differs on %s for %r (%s)" % (",".join(sorted(cl)), c["srcs"][0][:300], c["exc"]))
