"""Behaviours enumerated by TLC (TalMC), replayed in the implementation."""
import json

import case as C
import impl
from serial import serialize


def behaviours(ck, focus, shapes, kst, faults, mode, workers=4):
    rc, out = C.tlc("TalMC", env={"FOCUS": focus, "SHAPES": " %s " % shapes, "KST": str(kst), "FAULTS": str(faults), "MODE": mode},
                    workers=workers, timeout=800)
    if rc != 0 or "No error has been found" not in out:
        raise C.MachineryError("TalMC %s rc=%d\n%s" % (focus, rc, "\n".join(x for x in out.splitlines() if not x.startswith('"{'))[-4000:]))
    gen, dist = C.states(out)
    ck.states += dist
    ck.transitions += gen
    for line in out.splitlines():
        if line.startswith('"{'):
            yield json.loads(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))


def plain(m):
    return {k: v for k, v in m.items() if k != "_"} if m else {}


def compare(want, got):
    """-> clauses on which the rendering and the behaviour differ"""
    bad = set()
    for w, g in zip(want["log"], got["log"]):
        if (w["op"], w["e"]) != (g["op"], g["e"]):
            return bad | {"EVAL"}
        if w["op"] == "tr":
            x = w["x"]
            for k, name in (("msgid", "MSGID"), ("dom", "DOMAIN"), ("def", "MSGDEF")):
                if x[k] != g[k]:
                    bad.add(name)
            if plain(x["map"]) != plain(g["map"]):
                bad.add("MAPPING")
        elif w["op"] == "code":
            if w["x"]["code"] != g["code"]:
                bad.add("CODE")
        elif w["op"] not in ("err", "next"):
            a, b = plain(w["env"]), plain(g["env"])
            if {k: v for k, v in a.items() if v} != {k: v for k, v in b.items() if v}:
                bad.add("ENV")
    if len(want["log"]) != len(got["log"]):
        return bad | {"EVAL"}
    if want["exc"] != got["exc"]:
        bad.add("EXC")
    elif not want["exc"]:
        if want["out"] != got["out"]:
            bad.add("OUT")
        if not got["bal"]:
            bad.add("BAL")
    return bad


def explore(ck, clauses, configs):
    """configs: (focus, shapes, statements per element, errors per rendering, mode)"""
    codes = {}
    worst, nbad = None, 0
    for cfg in configs:
        n = 0
        for b in behaviours(ck, *cfg):
            n += 1
            src = serialize(b["toks"], b["html"])
            key = (src, b["html"])
            if key not in codes:
                codes[key] = impl.compile_doc(src, b["html"], "")
            code, ob = codes[key]
            if "err" in b:
                ck.add("documents_rejected")
                bad, got = set() if code is None and ob["c"] in b["err"] else {"COMPILE"}, ob
                b = dict(b, log=[])
            elif code is None:
                bad, got = {"COMPILE"}, {"log": [], "out": "", "exc": str(ob), "bal": True}
            else:
                left = [dict(e["r"]) for e in b["log"]]
                got = impl.render([code], b["opts"], lambda op, e, eng: left.pop(0) if left else {"t": "raise", "id": "XMORE"})
                bad = compare(b, got)
            if clauses is not None:
                bad &= clauses | {"COMPILE"}
            if bad:
                nbad += 1
                if worst is None or (len(src), len(b["log"])) < worst[0]:
                    worst = ((len(src), len(b["log"])), src, sorted(bad), b, got)
        ck.traces += n
        ck.add("behaviours_enumerated_and_replayed", n)
        ck.add("documents_enumerated", 0)
    ck.cov["documents_enumerated"] = len(codes)
    if worst:
        _, src, bad, b, got = worst
        ck.fail("behaviour", {"property": ck.pid, "clauses": bad, "template": src, "expected": b, "observed": got, "differing_behaviours": nbad},
                "specified behaviour and implementation disagree on %s for template %r" % (",".join(bad), src[:300]))
