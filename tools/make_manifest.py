"""Writes MANIFEST.json (deterministic)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"

TRACE = "TLA+ specification of the template language checked with TLC; recorded executions of the implementation validated against it"
TECH = {
    "C05": "TLA+ character-level argument grammar; every argument string over small alphabets up to a length, and random ones, judged by TLC against what the compiler did",
    "C16": "renderings validated against the TLA+ specification with TLC, then repeated and interleaved on one compiled template under enumerated schedules",
    "C20": "TLA+ specification with an extraction engine checked with TLC; extracted catalogs validated against it",
    "C21": "TLA+ engine model; every operation history up to a length enumerated by TLC and replayed, long recorded histories validated",
}
NOTE = ("The TLA+ machine (TalParse/TalRender) is stepped by TLC through every recorded compilation and rendering of generated templates and must "
        "reproduce each engine question, its context, the result and the output; bounded to the generated templates, not a proof.")
NOTES = {
    "C05": "Exhaustive to 5 (thorough: 6) tokens per statement kind, plus random longer strings; not a proof for longer ones.",
    "C25": "Random templates of the other properties' generators, each document supplied in a random other way; bytes only in the encodings expat knows.",
    "C26": "Random templates within what the bundled engine evaluates; the engine's own answers are taken as given here (C21 decides them).",
    "C16": "Each rendering alone is validated by TLC; sequences and interleavings must reproduce it. All interleavings for small systems, sampled ones otherwise.",
    "C20": "The rendering machine of the specification is run with the extraction answers and its catalog compared with the recorded one, for generated templates.",
    "C21": "All histories of 9 operations to length 5 (thorough: 6), plus random histories of up to 60 operations.",
}

ids = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
SKIP = set()
checks = []
for i in ids:
    if i in SKIP:
        continue
    cmd = "%s harness/check.py %s" % (PY, i)
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i, TRACE), "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
man = {"version": 1, "setup_cmd": "%s harness/setup.py" % PY, "checks": checks,
       "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i in SKIP],
       "notes": "No hooks in /repo are needed: the expression engine, the output stream and the parsers are public extension points."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
