"""The bundled driver and its options (C26).

Templates whose expressions the bundled engine understands are rendered twice:
by the driver's command, of which only what it prints is seen, and with an
engine that takes its answers from the bundled engine and records them.  The
specification, given those answers and the options, decides what the command
must have printed."""
import ast
import contextlib
import io
import os
import pathlib
import re
import sys
import tempfile

import case as C
import entry
import impl
import profiles
import props
from gen import Gen
from gen import Policy
from serial import serialize
from serial import T
from zope.tal import driver  # noqa: E402  (impl has set the path)
from zope.tal import dummyengine  # noqa: E402

CLAUSES = {"OUT", "EXC", "SRC", "POS", "EVAL", "COMPILE", "COMPOS"}
WORDS = ["w", "two words", "x>y", "0", "é", "a;b", "${n1}", "it's", "a: b", "100%"]
SEQUENCES = ["python:(1,2)", "python:()", "python:['a','b','c']", "string:ab", "python:[0]"]
CODES = ["print('x')", " print('y')\n", "x = 1", "", "<!-- print(1) -->", "nonsense", "print('<&>')"]
SWITCHES = {"l": "--lenient", "m": "--macro-only", "t": "--show-tal", "i": "--show-i18n", "a": "--annotate", "H": "--html", "x": "--xml", "s": "--show-code"}


class DGen(Gen):
    """templates for the bundled engine"""
    other = None                  # (file, names of its macros)
    outer = False                 # to be used by the other document

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.frags, self.done, self.held = {}, [], []
        self.maker = Policy(self.rng, self, [])

    def string(self):
        s, toks = self.maker.frag(.4)
        if self.rng.random() < .4:
            s = self.rng.choice(WORDS)
            toks = [T(s)]
        if s != s.strip():
            return self.string()
        self.frags[s] = toks
        return "string:" + s

    def expr(self, kind):
        rng = self.rng
        r = rng.random()
        if kind == "eval":
            return rng.choice(["python:{'n1': 'dv', 'd1': 'x y'}", "python:{}", "python:{'N2': 1}"])
        if r < .03:
            return rng.choice(["unknown/path", "python:1/0", "what:x"] + self.vars)
        if r < .15 and self.held:
            return rng.choice(self.held)
        if kind == "bool":
            return rng.choice(["python:1", "python:1", "python:0", "nothing", "string:x", "not:nothing", "not: string:x", "exists:" + self.vars[0]])
        if kind == "repeat":
            return rng.choice(SEQUENCES)
        if kind == "value" and r < .35:
            return rng.choice(SEQUENCES + ["python:7", "nothing"])
        if r < .27 and kind != "on-error":
            return "default"
        if r < .35:
            return "nothing"
        if r < .4:
            return "position:"
        return self.string()

    def st_define(self):
        a = super().st_define()
        if not self.held:
            self.held = [x["n"] for x in a["d"] if x["sc"] == "global"]
        return a

    def macroexpr(self):
        rng = self.rng
        if self.outer or rng.random() < .05:
            return "no-such-macro"
        if self.other and self.other[1] and (rng.random() < .4 or not self.done):
            return self.other[0] + "/" + rng.choice(self.other[1])
        return rng.choice(self.done) if self.done else "none"

    def element(self, ctx, force=None):
        some = not self.outer and (self.done or self.other and self.other[1])
        self.p.update(usemacro=PROFILE["usemacro"] if some else 0, extmacro=PROFILE["extmacro"] if some else 0)
        toks = super().element(ctx, force)
        if toks[0]["l"] == "script" and len(toks) == 3:
            toks[1] = T(self.rng.choice(CODES))
        self.done += [a["d"] for a in toks[0]["attrs"] if a["l"] == "define-macro"]
        return toks


class Stream(io.StringIO):
    """is false while nothing has been written"""

    def __len__(self):
        return len(self.getvalue())


class Engine(impl.RecEngine):
    """records the questions; the answers are those of the bundled engine"""
    frags, other, path = {}, None, None

    def __init__(self, dummy, macros):
        super().__init__(self.reply, macros)
        self.dummy, self.vals, self.its, self.n = dummy, {}, {}, 0
        self.raw = None
        self.header = None

    def __len__(self):
        return len(self.log)

    def fresh(self, k):
        self.n += 1
        return k + str(self.n)

    def ask(self, op, e, **extra):
        self.raw = e
        if op not in ("err", "tr", "next", "code"):
            e = e[1:-1].strip()
        return super().ask(op, e, **extra)

    def setPosition(self, pos):
        super().setPosition(pos)
        self.dummy.setPosition(pos)

    def setSourceFile(self, f):
        super().setSourceFile(f)
        self.dummy.setSourceFile(f)

    def beginScope(self):
        super().beginScope()
        self.dummy.beginScope()

    def endScope(self):
        super().endScope()
        self.dummy.endScope()

    def setLocal(self, name, value):
        super().setLocal(name, value)
        self.dummy.setLocal(name, self.vals.get(getattr(value, "id", None), value))

    def setGlobal(self, name, value):
        super().setGlobal(name, value)
        self.dummy.setGlobal(name, self.vals.get(getattr(value, "id", None), value))

    def setRepeat(self, name, e):
        self.name = name
        return super().setRepeat(name, e)

    def evaluateCode(self, lang, code):
        self.code = code
        return super().evaluateCode(lang, code)

    def translate(self, *a, **k):
        self.message = a, k
        return super().translate(*a, **k)

    def reply(self, op, e, eng):
        if op == "err":
            return {"t": "err", "id": self.fresh("err")}
        try:
            return getattr(self, "reply_" + op)(self.raw)
        except Exception:  # noqa
            # an ordinary error
            self.n += 1
            return {"t": "raise", "id": "X%d" % (len(impl.RAISED) * self.n)}

    def reply_text(self, e, v=None):
        v = self.dummy.evaluateText(e)
        if v is None:
            return {"t": "n", "s": ""}
        if v is self.dummy.getDefault():
            return {"t": "d", "s": ""}
        return {"t": "s", "id": self.fresh("t"), "s": str(v), "toks": []}

    def reply_struct(self, e):
        r = self.reply_text(e)
        if r["t"] == "s":
            s = r["s"].strip()
            # the space around a fragment is kept with it
            k = r["s"].index(s)
            r["toks"] = [t for t in [T(r["s"][:k])] + self.frags.get(s, [T(s)]) + [T(r["s"][k + len(s):])] if t != T("")]
            if type(self.dummy.evaluateStructure(e)) is not str:
                r["t"] = "o"
        return r

    def reply_bool(self, e):
        v = self.dummy.evaluateBoolean(e)
        return {"t": "d", "s": "1"} if v is self.dummy.getDefault() else {"t": "b", "s": "1" if v else "0"}

    def reply_value(self, e):
        v, id = self.dummy.evaluateValue(e), self.fresh("v")
        self.vals[id] = v
        return {"t": "v", "id": id}

    def reply_eval(self, e):
        return {"t": "map", "map": dict({"_": ""}, **{k: str(v) for k, v in self.dummy.evaluate(e).items()})}

    def reply_repeat(self, e):
        id = self.fresh("it")
        self.its[id] = self.dummy.setRepeat(self.name, e), self.name
        return {"t": "it", "id": id}

    def reply_next(self, id):
        it, name = self.its[id]
        if not it.__next__():
            return {"t": "end"}
        id = self.fresh("i")
        self.vals[id] = self.dummy.getValue(name)
        return {"t": "item", "id": id}

    def reply_macro(self, e):
        e = e[1:-1]
        doc, name = (2, e[len(self.other) + 1:]) if self.other and e.startswith(self.other + "/") else (1, e)
        self.dummy.evaluateMacro("$%s$" % e)
        return {"t": "macro", "doc": doc, "name": name}

    def reply_code(self, e):
        return {"t": "s", "s": self.dummy.evaluateCode(e, self.code)}

    def reply_tr(self, e):
        s = str(self.dummy.translate(*self.message[0], **self.message[1]))
        return {"t": "s", "s": s, "toks": [T(s)]}


def write(path, src, html):
    """False: cannot be had in a file"""
    if "\r" in src:
        return False
    try:
        data = src.encode("utf-8") if html else entry.encode(src, None)
    except UnicodeEncodeError:
        return False
    pathlib.Path(path).write_bytes(data)
    return True


PROFILE = dict(size=6, define=.2, condition=.1, repeat=.12, content=.2, replace=.08, attributes=.25, onerror=.12, script=.03, translate=.2, msgid=.3, name=.3, data=.2,
               iattr=.1, domain=.1, defmacro=.25, usemacro=.2, extmacro=.15, defslot=.5, fillslot=.4, struct=.45)


def command(argv, cwd):
    """what the driver's command prints; -> (text, raised)"""
    out, was, here = io.StringIO(), sys.argv, os.getcwd()
    os.chdir(cwd)
    sys.argv = ["driver"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), impl.limit(20):
            driver.main()
    except (Exception, SystemExit) as e:  # noqa
        return out.getvalue(), type(e).__name__
    finally:
        sys.argv = was
        os.chdir(here)
    return out.getvalue(), ""


def make(ck, rng, d):
    html = rng.random() < .6
    while True:
        g = DGen(rng, html, **PROFILE)
        docs, srcs, paths, mode = [], [], [], None
        two = rng.random() < .4
        for i in reversed(range(2 if two else 1)):
            g.outer = i == 1
            g.done, g.held = [], []
            toks = g.document()
            src = serialize(toks, html, rng, 0)
            if html:
                ext = rng.choice([".html", ".htm", ".HTML"])
            else:
                ext = rng.choice([".xml", ".pt", ".xhtml"])
            if not i and rng.random() < .4:
                mode = "H" if html else "x"
                ext = rng.choice([ext, ".txt" if html else ".html"])
            path = os.path.join(d, "d%d%s" % (i, ext))
            docs.insert(0, {"file": path, "toks": toks})
            srcs.insert(0, src)
            if i:
                g.other = path, list(g.done)
        if all(write(x["file"], s, html) for x, s in zip(docs, srcs)):
            break
    flags = [f for f in "lmtia" if rng.random() < .3]
    o = dict(C.OPTS, wrap=0, limit=100, strict="l" not in flags, tal="m" not in flags, showtal="t" in flags or "m" in flags, interp="i" not in flags, annot="a" in flags)
    c = {"html": html, "files": True, "opts": o, "docs": docs, "srcs": srcs, "comp": [], "log": [], "exc": "", "out": "", "bal": True}
    codes = []
    for i, x in enumerate(docs):
        try:
            codes.append(driver.compilefile(x["file"], None if i or not mode else "html" if html else "xml"))
            c["comp"].append({"ok": True})
        except Exception as e:  # noqa
            codes.append(None)
            c["comp"].append(impl.rejection(e))
    argv = [("-" + f if rng.random() < .6 else SWITCHES[f]) for f in flags + ([mode] if mode else [])]
    rng.shuffle(argv)
    for f in flags:
        ck.add("option_" + SWITCHES[f].strip("-").replace("-", "_"))
    path = docs[0]["file"]
    if rng.random() < .3:
        path = os.path.basename(path)
    printed, raised = command(argv + [path] if rng.random() < .7 else [path] + argv, d)
    if not codes[0]:
        if not raised:
            c["comp"][0] = {"ok": True}
        return c
    shown, err = command(rng.sample(argv, len(argv)) + [rng.choice(["-s", "--show-code"]), path], d) if rng.random() < .2 else (None, "")
    if shown is not None:
        # the program shown is the one that is rendered below
        ck.add("programs_shown")
        try:
            program, macros = ast.literal_eval(shown)
            if {k: isinstance(v, list) for k, v in macros.items()} != {k: True for k in codes[0][1]} or not isinstance(program, list):
                raise ValueError(shown)
            codes[0] = program, macros
        except (ValueError, SyntaxError, TypeError, AttributeError):
            ck.fail("show", {"property": ck.pid, "template": srcs[0], "shown": shown, "error": err}, "what is shown for %r is not its program" % srcs[0][:300])
            return c
    if not all(codes):
        return c
    eng = Engine(dummyengine.DummyEngine(codes[0][1]), [m for p, m in codes])
    eng.frags, eng.other = g.frags, g.other and g.other[0]
    out, exc = Stream(), ""
    try:
        with impl.limit(20), contextlib.redirect_stdout(io.StringIO()):
            driver.interpretit(codes[0], engine=eng, stream=out, tal=int(o["tal"]), showtal=1 if "t" in flags else -1, strictinsert=int(o["strict"]),
                               i18nInterpolate=int(o["interp"]), sourceAnnotations=int(o["annot"]))
    except impl.Stop:
        exc = "Runaway"
    except Exception as e:  # noqa
        exc = impl.exc_name(e)
    text = out.getvalue()
    if rng.random() < .7:
        text = printed
        if bool(exc) != bool(raised):
            exc = "" if exc else raised
    c.update(out=impl.annotations(text) if o["annot"] else text, exc=exc, log=eng.log, bal=len(eng.locals) == 1 and eng.opened == eng.closed)
    if exc:
        c["out"] = ""
    return c


def run(ck):
    with tempfile.TemporaryDirectory(prefix="taldriven") as d:
        props.traces(ck, lambda rng: make(ck, rng, d), CLAUSES, ck.q(2000, 20000))
