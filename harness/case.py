"""Making, running and recording cases; validating them with TLC."""
import json
import os
import re
import subprocess
import tempfile

import impl
from gen import Gen
from gen import Policy
from serial import serialize

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")

OPTS = dict(tal=True, metal=True, showtal=False, strict=True, limit=100, wrap=0, interp=True, annot=False)


def build(rng, html, prof=None, pol=None, opts=None, policy=Policy):
    """Generate, compile, render one case; -> case dict (JSON-able)."""
    prof, pol = dict(prof or {}), dict(pol or {})
    o = dict(OPTS)
    o.update(opts or {})
    g = Gen(rng, html, **prof)
    docs, srcs = [], []
    for i in range(g.p["docs"]):
        toks = g.document()
        srcs.append(serialize(toks, html, rng, g.p["style"]))
        docs.append({"file": "f%d.pt" % (i + 1) if g.p["files"] else "", "toks": toks})
    return run(g, docs, srcs, html, o, rng, pol, policy)


def run(g, docs, srcs, html, o, rng, pol, policy=Policy):
    case = {"html": html, "files": all(d["file"] for d in docs), "opts": o, "docs": docs, "srcs": srcs,
            "comp": [], "log": [], "exc": "", "out": "", "bal": True}
    codes = []
    for d, s in zip(docs, srcs):
        code, ob = impl.compile_doc(s, html, d["file"])
        case["comp"].append(ob)
        codes.append(code)
    if all(codes):
        macros = [(i + 1, n) for i, c in enumerate(codes) for n in c[1]]
        case.update(impl.render(codes, o, policy(rng, g, macros, **pol)))
    return case


JAVA = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx3g", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]

VERDICT = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\},\s*\{([^}]*)\}\s*>>')


class MachineryError(Exception):
    pass


def tlc(module, cfg=None, env=None, extra=(), workers=4, timeout=600):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.run([JAVA[0], "-Djava.io.tmpdir=" + meta] + JAVA[1:] + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                                   "-config", cfg or module + ".cfg", *extra, module + ".tla"],
                           cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        subprocess.run(["rm", "-rf", meta])


def states(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def names(s):
    return {x.strip().strip('"') for x in s.split(",") if x.strip()}


def strip(case):
    return {k: v for k, v in case.items() if k not in ("srcs", "meta")}


def validate(cases, workers=4, show=False, only=None, extra=()):
    """-> (verdicts: list of (k, set of clauses) per case, generated, distinct, raw output)"""
    d = tempfile.mkdtemp(prefix="taltrace")
    try:
        path = os.path.join(d, "t.ndjson")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(strip(c)) + "\n")
        env = {"TRACE": path}
        if show:
            env["SHOW"] = "1"
        if only is not None:
            env["ONLY"] = str(only)
        rc, out = tlc("TalTrace", env=env, workers=workers, extra=extra)
    finally:
        subprocess.run(["rm", "-rf", d])
    v = {}
    flat = re.sub(r"\s+", " ", out)
    for no, k, cl, seen in VERDICT.findall(flat):
        v[int(no)] = (int(k), names(cl), names(seen))
    want = 1 if only is not None else len(cases)
    if rc != 0 or len(v) != want:
        raise MachineryError("TLC rc=%d, %d of %d verdicts\n%s" % (rc, len(v), want, out[-6000:]))
    gen, dist = states(out)
    return v, gen, dist, out


def again(case, **opts):
    """Render the case's documents once more with the recorded answers."""
    codes = [impl.compile_doc(s, case["html"], d["file"])[0] for s, d in zip(case["srcs"], case["docs"])]
    left = [dict(e["r"]) for e in case["log"]]

    def answer(op, e, eng):
        if not left:
            raise AssertionError("more questions than before")
        return left.pop(0)
    return impl.render(codes, dict(case["opts"], **opts), answer)
