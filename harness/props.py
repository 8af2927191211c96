"""How each property is decided."""
import concurrent.futures
import itertools
import re

import binding
import case as C
import impl
import profiles

def sample(c):
    return {"template": [s[:400] for s in c["srcs"]], "events": len(c["log"]), "first_events": [e["op"] + ":" + e["e"] for e in c["log"][:8]],
            "output": c["out"][:300], "exception": c["exc"], "compiled": [o["ok"] for o in c["comp"]]}


def judge(ck, cases, clauses, workers=3):
    """Validate recorded executions; -> list of (case, k, clauses) violating."""
    v, gen, dist, out = C.validate(cases, workers=workers)
    ck.states += dist
    ck.transitions += gen
    ck.traces += len(cases)
    for k, cl, seen in v.values():
        ck.actions.update(seen)
    bad = []
    for i in sorted(v):
        k, cl, seen = v[i]
        if not cl:
            ck.accepted.add(id(cases[i - 1]))
        hit = cl if clauses is None else cl & clauses
        if hit:
            bad.append((cases[i - 1], k, sorted(hit)))
    return bad


def explain(c, k, cl):
    """What the specification expected, for the report."""
    try:
        v, g, d, out = C.validate([c], show=True, workers=1)
    except C.MachineryError as e:
        return str(e)[-2000:]
    return [x[:3000] for x in out.splitlines() if x.startswith(('<<"EXPECTED"', '<<"AT"', '<<"VERDICT"'))]


def report(ck, bad):
    c, k, cl = min(bad, key=lambda b: (sum(map(len, b[0]["srcs"])), len(b[0]["log"])))
    data = {"property": ck.pid, "clauses": cl, "agreed_events": k, "srcs": c["srcs"], "case": C.strip(c), "expected": explain(c, k, cl),
            "violating_cases_in_batch": len(bad)}
    what = "specification and implementation disagree on %s after %d events for template %r" % (",".join(cl), k, c["srcs"][0][:300])
    if "COMPILE" in cl or "COMPOS" in cl:
        what += " (compiler said %r)" % (c["comp"],)
    ck.fail("trace", data, what)


def traces(ck, make, clauses, n, key="t", batch=400, par=3):
    """n random cases, validated in batches."""
    first = []
    def job(b, cases):
        return judge(ck, cases, clauses)
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        futs = []
        def all_cases():
            yield from profiles.ALWAYS.get(ck.pid, lambda rng: ())(ck.rng(key, "always"))
            for i in range(n):
                yield make(ck.rng(key, i))
        source = all_cases()
        for b in itertools.count():
            cases = list(itertools.islice(source, batch))
            if not cases:
                break
            for c in cases:
                count(ck, c)
            futs.append(ex.submit(job, b, cases))
            first = first or cases[:60]
            if len(ck.samples) < 2:
                ck.samples.append(sample(max(cases[:20], key=lambda c: len(c["log"]))))
        bad = []
        for f in futs:
            bad += f.result()
    if bad:
        report(ck, bad)
    done, gen, dist = binding.demonstrate([c for c in first if id(c) in ck.accepted], clauses, ck.rng(key, "binding"))
    ck.cov["changed_recordings_rejected"] = done
    ck.states += dist
    ck.transitions += gen


def count(ck, c):
    ck.add("engine_events", len(c["log"]))
    if not all(o["ok"] for o in c["comp"]):
        ck.add("compile_errors")
    if c["exc"]:
        ck.add("uncaught_errors")
    n = sum(e["op"] == "err" for e in c["log"])
    if n:
        ck.add("handled_errors", n)


# Families of documents explored exhaustively with every engine answer:
# (family, element structures, statements per element, engine errors per rendering, kind of document)
BOUNDED = {
    "C04": ([("rules", "1", 2, 0, "html"), ("rules", "12", 1, 0, "xml"), ("rules", "1,2", 1, 0, "html"), ("rules2", "1,2", 2, 0, "html")],
            [("rules2", "12", 2, 0, "xml"), ("rules2", "12,3", 1, 0, "html"), ("rules", "1", 3, 0, "html"), ("rules", "1", 3, 0, "xml"), ("rules", "12", 2, 0, "html"), ("rules", "123", 1, 0, "xml")]),
    "C06": ([("order", "1", 3, 1, "html")],
            [("order", "1", 8, 1, "html"), ("order", "12", 2, 0, "xml")]),
    "C07": ([("value", "12", 1, 0, "html"), ("value", "1", 3, 1, "xml"), ("attrs", "1", 2, 0, "html"), ("bools", "1", 1, 0, "html"), ("bools", "1", 1, 0, "xml")],
            [("value", "12", 2, 0, "html"), ("attrs", "1", 5, 1, "html")]),
    "C09": ([("scope", "12e", 1, 1, "html")],
            [("scope", "12e", 1, 2, "xml"), ("scope", "1e", 4, 2, "html"), ("scope", "12e", 2, 0, "html")]),
    "C10": ([("error", "12", 1, 2, "html"), ("error", "1", 3, 1, "xml")],
            [("error", "12", 2, 2, "html"), ("error", "123", 1, 2, "xml")]),
    "C11": ([("macro", "12,3", 1, 0, "html")],
            [("macro", "12,34", 1, 0, "html"), ("macrotal", "12,34", 1, 1, "xml"), ("macro", "123", 1, 0, "xml")]),
    "C12": ([("show", "12,3", 1, 0, "html")],
            [("show", "12,34", 1, 0, "html"), ("show", "1,23", 1, 0, "xml")]),
    "C13": ([("unit", "123", 1, 0, "html")],
            [("unit", "12", 2, 1, "html"), ("unit", "123", 2, 0, "xml")]),
    "C14": ([("domain", "12,3", 1, 0, "html")],
            [("domain", "12,34", 1, 0, "html"), ("domain", "12,34", 1, 0, "xml")]),
    "C15": ([("frag", "1", 3, 1, "html"), ("frag", "1", 3, 0, "xml")],
            [("frag", "12", 2, 1, "html"), ("frag", "1", 5, 2, "xml")]),
    "C22": ([("attrs", "1", 3, 0, "html")],
            [("attrs", "1", 6, 0, "html"), ("attrs", "1", 6, 0, "xml")]),
    "C24": ([("limit", "12", 1, 0, "html"), ("macro", "12", 1, 0, "xml")],
            [("limit", "12,3", 1, 0, "html"), ("limit", "1,23", 1, 0, "html"), ("limit", "12,3", 1, 0, "xml")]),
}


# how many cases are drawn in a quick run, where not 2400; a thorough run draws ten times as many
CASES = {"C01": 8000, "C03": 6000, "C06": 3600, "C08": 4200, "C10": 3600, "C19": 3200, "C22": 3600, "C23": 3600}


def run(ck):
    pid = ck.pid
    special = globals().get("run_" + pid)
    if special:
        special(ck)
    else:
        make, clauses = profiles.TABLE[pid]
        traces(ck, make, clauses, ck.q(CASES.get(pid, 2400), 10 * CASES.get(pid, 2400)))
    if pid == "C02":
        import tags
        tags.run(ck)
    if pid in BOUNDED:
        import mc
        mc.explore(ck, profiles.TABLE[pid][1], BOUNDED[pid][0] if ck.tier == "quick" else BOUNDED[pid][0] + BOUNDED[pid][1])


def run_C05(ck):
    import args
    args.run(ck)


def run_C16(ck):
    import shared
    shared.run(ck)


MARK = re.compile(r"\{@[^|]*\|[^@]*@\}")


def run_C18(ck):
    bad = []

    def make(rng):
        c = profiles.c18(rng)
        plain = C.again(c, annot=False)
        ck.add("pairs_with_and_without_annotations")
        ck.add("annotations", len(MARK.findall(c["out"])))
        if (MARK.sub("", c["out"]), c["exc"]) != (plain["out"], plain["exc"]):
            bad.append((c, plain))
        return c
    traces(ck, make, profiles.ALL, ck.q(2000, 20000))
    if bad:
        c, plain = min(bad, key=lambda b: sum(map(len, b[0]["srcs"])))
        ck.fail("pair", {"srcs": c["srcs"], "case": C.strip(c), "plain": plain},
                "output without its annotations differs from the output rendered without annotations: %r" % c["srcs"][0][:300])


def run_C21(ck):
    import engine
    engine.run(ck)


def run_C25(ck):
    import entry
    entry.run(ck)


def run_C26(ck):
    import driven
    driven.run(ck)


def run_C20(ck):
    import extract
    extract.run(ck)
