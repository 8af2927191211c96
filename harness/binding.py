"""Recorded executions with one field changed: the specification must reject
them, naming the kind of disagreement.  Run by every check, so that an
acceptance of the unchanged recordings means something."""
import copy

import case as C

ASKS = ("text", "bool", "struct", "value", "repeat", "macro", "eval")


def corrupt(c, rng):
    """-> list of (clause, changed case); None as clause: any"""
    out = []

    def change(clause, f):
        d = copy.deepcopy(C.strip(c))
        f(d)
        out.append((clause, d))
    if not all(o["ok"] for o in c["comp"]):
        i = [o["ok"] for o in c["comp"]].index(False)
        change("COMPILE", lambda d: d["comp"].__setitem__(i, {"ok": True}))
        change("COMPILE", lambda d: d["comp"][i].update(c="OtherError"))
        if c["comp"][i]["pos"] != "-" and c["html"]:
            change("COMPOS", lambda d: d["comp"][i].update(pos="999:0"))
        return out
    change("COMPILE", lambda d: d["comp"][0].update(ok=False, c="TALError", pos="1:0", msg=""))
    change("EXC", lambda d: d.update(exc=c["exc"] + "X"))
    if not c["exc"]:
        change("OUT", lambda d: d.update(out=c["out"] + "x"))
        if c["out"]:
            j = rng.randrange(len(c["out"]))
            change("OUT", lambda d: d.update(out=c["out"][:j] + "\x01" + c["out"][j + 1:]))
        change("BAL", lambda d: d.update(bal=False))
    if c["log"]:
        k = rng.randrange(len(c["log"]))
        change("EVAL", lambda d: d["log"][k].update(e=c["log"][k]["e"] + "x"))
        change("EVAL", lambda d: d["log"].append(copy.deepcopy(d["log"][-1])))
        change("EVAL", lambda d: d["log"].pop())
        for op, clause, key, val in (("tr", "MSGID", "msgid", "?"), ("tr", "DOMAIN", "dom", "?"), ("tr", "MSGDEF", "def", "?"),
                                     ("tr", "MAPPING", "map", {"_": "", "zz9": "?"}), ("code", "CODE", "code", "?")):
            at = [i for i, e in enumerate(c["log"]) if e["op"] == op]
            if at:
                i = rng.choice(at)
                change(clause, lambda d: d["log"][i].update({key: val}))
        at = [i for i, e in enumerate(c["log"]) if e["op"] in ASKS]
        if at:
            i = rng.choice(at)
            change("ENV", lambda d: d["log"][i]["env"].update(zz9="?"))
            if c["files"]:
                change("SRC", lambda d: d["log"][i].update(src="?"))
    return out


def demonstrate(cases, clauses, rng, most=40):
    """-> {clause: changed recordings rejected for it}"""
    pool = {}
    for c in cases:
        for clause, d in corrupt(c, rng):
            if clauses is None or clause in clauses:
                pool.setdefault(clause, []).append(d)
    jobs = [(clause, d) for clause in sorted(pool) for d in sorted(pool[clause], key=lambda d: len(d["log"]))[:max(1, most // len(pool))]]
    if not jobs:
        return {}, 0, 0
    v, gen, dist, out = C.validate([d for clause, d in jobs], workers=2)
    done = {}
    for i, (clause, d) in enumerate(jobs):
        if clause not in v[i + 1][1]:
            raise C.MachineryError("a changed recording was accepted: %s not in %r" % (clause, v[i + 1][1]))
        done[clause] = done.get(clause, 0) + 1
    return done, gen, dist
