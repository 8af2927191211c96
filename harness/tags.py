"""Tag sequences enumerated by TLC (TalTags), replayed in the implementation."""
import json
import re

import case as C
import impl
from serial import serialize

QUICK = [("all", 2, 0), ("mixed", 3, 0), ("mixed", 3, 1), ("para", 5, 0), ("para", 4, 1), ("list", 5, 0), ("dl", 5, 0), ("table", 5, 0), ("table", 4, 1)]
THOROUGH = [("all", 3, 0), ("mixed", 4, 0), ("para", 5, 1), ("list", 6, 0), ("list", 5, 1), ("dl", 6, 0), ("table", 6, 0)]
TAG = re.compile(r"<(/?)([a-z0-9]+)>")
VOID = set("base meta link hr br param img area input col basefont isindex frame".split())
OPTS = dict(tal=True, metal=True, showtal=False, strict=True, limit=3, wrap=0, interp=True, annot=False)


def nested(out):
    stack = []
    for end, name in TAG.findall(out):
        if not end:
            if name not in VOID:
                stack.append(name)
        elif not stack or stack.pop() != name:
            return False
    return not stack


def replay(toks):
    src = serialize(toks, True)
    code, ob = impl.compile_doc(src, True)
    if code is None:
        return src, ob
    got = impl.render([code], OPTS, lambda op, e, eng: {"t": "b", "id": "", "s": "1", "toks": [], "def": "(none)"})
    return src, {"ok": True, "out": got["out"], "exc": got["exc"]}


def judge(ck, b):
    """-> (template, what was observed, what is wrong with it)"""
    src, got = replay(b["toks"])
    if "err" in b:
        ck.add("tag_sequences_rejected")
        if got["ok"]:
            return src, got, "accepted"
        at = {t["at"]: t["pos"] for t in b["toks"] if t["k"] in "SE"}
        want = {(c, at.get(p, "-")) for c, p in b["err"]}
        if got["c"] not in {c for c, p in want}:
            return src, got, "rejected with another kind of error"
        if (got["c"], got["pos"]) not in want and (got["c"], "-") not in want:
            return src, got, "rejected at another place"
        return src, got, ""
    if not got["ok"]:
        return src, got, "rejected"
    if got["exc"]:
        return src, got, "rendering failed"
    if got["out"] != b["out"]:
        return src, got, "structured differently"
    if not nested(got["out"]):
        return src, got, "not properly nested"
    code, ob = impl.compile_doc(got["out"], True)
    if code is None or impl.render([code], OPTS, None)["out"] != got["out"]:
        return src, got, "the output is read differently"
    return src, got, ""


def run(ck):
    worst, nbad = None, 0
    for alpha, length, ctl in QUICK + (THOROUGH if ck.tier != "quick" else []):
        rc, out = C.tlc("TalTags", env={"ALPHA": alpha, "LEN": str(length), "CTL": str(ctl)}, workers=4, timeout=800)
        if rc != 0 or "No error has been found" not in out:
            raise C.MachineryError("TalTags %s rc=%d\n%s" % (alpha, rc, "\n".join(x for x in out.splitlines() if not x.startswith('"{'))[-4000:]))
        gen, dist = C.states(out)
        ck.states += dist
        ck.transitions += gen
        for line in out.splitlines():
            if not line.startswith('"{'):
                continue
            b = json.loads(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
            for t in b["toks"]:
                t["at"] = t.get("pos")
            src, got, bad = judge(ck, b)
            ck.traces += 1
            ck.add("tag_sequences_enumerated_and_replayed")
            if bad:
                nbad += 1
                if worst is None or len(src) < len(worst[0]):
                    worst = (src, bad, b, got)
    if worst:
        src, bad, b, got = worst
        ck.fail("tags", {"property": ck.pid, "template": src, "what": bad, "expected": b, "observed": got, "differing_sequences": nbad},
                "%s: template %r, expected %r, observed %r" % (bad, src, {k: v for k, v in b.items() if k != "toks"}, got))
