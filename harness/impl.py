"""Driving the real zope.tal code and recording what it does.

Only abstract facts are recorded: which expression the engine was asked for,
in which variable environment and source position, what it answered, and what
finally happened.  How the implementation gets there is not looked at.
"""
import io
import os
import re
import signal
import sys
import threading

sys.dont_write_bytecode = True
REPO_SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

from xml.parsers.expat import ExpatError  # noqa: E402

from zope.i18nmessageid import Message  # noqa: E402
import zope  # noqa: E402

zope.__path__ = [os.path.join(REPO_SRC, "zope")] + list(zope.__path__)

import zope.tal  # noqa: E402

if not os.path.abspath(zope.tal.__file__).startswith(os.path.abspath(REPO_SRC)):
    sys.stderr.write("zope.tal imported from %s, not from %s\n" % (zope.tal.__file__, REPO_SRC))
    raise SystemExit(2)

from zope.tal.htmltalparser import HTMLParseError  # noqa: E402
from zope.tal.htmltalparser import HTMLTALParser  # noqa: E402
from zope.tal.taldefs import ErrorInfo  # noqa: E402
from zope.tal.taldefs import METALError  # noqa: E402
from zope.tal.taldefs import TALError  # noqa: E402
from zope.tal.talgenerator import TALGenerator  # noqa: E402
from zope.tal.talinterpreter import TALInterpreter  # noqa: E402
from zope.tal.talparser import TALParser  # noqa: E402


class BadExpr(Exception):
    """The expression compiler's CompilerError."""


class Raised:
    """An evaluation error; id identifies it.  Errors of many types are raised:
    no part of a rendering may treat one type differently from another."""


def raised(base):
    return type("Raised" + base.__name__, (Raised, base), {})


RAISED = [raised(b) for b in (Exception, BaseException, KeyError, AttributeError, Exception, IndexError, TypeError, TALError, ValueError,
                              KeyboardInterrupt, NameError, METALError, AssertionError, RuntimeError, UnicodeError, LookupError)]


def expr_error(id):
    """the error called id; its type depends on the name only"""
    k = RAISED[int("0" + re.sub(r"\D", "", id)) % len(RAISED)]
    e = k("an error", (77, 7)) if issubclass(k, TALError) else k(id)
    e.id = id
    return e


class Stop(BaseException):
    """Harness-internal: the implementation runs away."""


class Val:
    def __init__(self, id, text=""):
        self.id = id
        self.text = text

    def __str__(self):
        return self.text


class Err:
    def __init__(self, id):
        self.id = id


def exc_name(e):
    """Canonical name of an exception."""
    if isinstance(e, Raised):
        return e.id
    if isinstance(e, (HTMLParseError, ExpatError)):
        return "parse"
    return type(e).__name__


def pos_str(pos):
    if not pos or pos[0] is None:
        return "-"
    return "%d:%d" % (pos[0], pos[1])


def exc_text(e):
    try:
        return str(e)
    except Exception as x:  # noqa
        return "(no text: %s)" % type(x).__name__


def exc_pos(e):
    if isinstance(e, ExpatError):
        return "-"
    if getattr(e, "lineno", None) is None:
        return "-"
    pos = "%s:%s" % (e.lineno, getattr(e, "offset", None))
    if isinstance(e, (TALError, HTMLParseError)):
        # the text counts columns from one
        text, msg = exc_text(e), getattr(e, "msg", "")
        said = re.findall(r"\d+", text[len(msg):] if text.startswith(msg) else text)
        if not any("%s:%d" % (said[i], int(said[i + 1]) - 1) == pos for i in range(len(said) - 1)):
            return "%s, but the text is %r" % (pos, text[-60:])
    return pos


class Compiler:
    """ITALExpressionCompiler: expressions stand for themselves."""

    def getCompilerError(self):
        return BadExpr

    def compile(self, expr):
        if expr.startswith("!"):
            raise BadExpr("bad")
        return expr.strip()


class RecEngine(Compiler):
    """Records every question; answers come from answer(op, e, engine)."""

    MAXLOG = 4000

    def __init__(self, answer, macros=None):
        self.answer = answer
        self.Default = object()
        self.locals = [{}]
        self.globals = {}
        self.position = None
        self.source_file = None
        self.log = []
        self.opened = 0
        self.closed = 0
        self.macros = macros or []   # per document: {name: program}
        self.hook = None
        self.nerr = 0

    # -- plumbing
    def getDefault(self):
        return self.Default

    def setPosition(self, pos):
        self.position = pos

    def setSourceFile(self, f):
        self.source_file = f

    def beginScope(self):
        self.opened += 1
        self.locals.append({})

    def endScope(self):
        self.closed += 1
        if len(self.locals) < 2:
            raise AssertionError("endScope without beginScope")
        self.locals.pop()

    def setLocal(self, name, value):
        self.locals[-1][name] = value

    def setGlobal(self, name, value):
        self.globals[name] = value

    def getValue(self, name, default=None):
        for d in reversed(self.locals):
            if name in d:
                return d[name]
        return self.globals.get(name, default)

    def env(self):
        seen = {}
        for d in [self.globals] + self.locals:
            seen.update(d)
        env, attrs = {"_": ""}, None
        for k, v in seen.items():
            if k == "attrs" and isinstance(v, dict):
                attrs = {"_": ""}
                attrs.update((a, "(none)" if b is None else str(b)) for a, b in v.items())
            elif v is None:
                pass
            elif isinstance(v, str):
                env[k] = str(v)
            else:
                env[k] = getattr(v, "id", "?" + type(v).__name__)
        return env, attrs

    def ask(self, op, e, **extra):
        if self.hook is not None:
            self.hook(self)
        if len(self.log) >= self.MAXLOG:
            raise Stop()
        ev = {"op": op, "e": e}
        ev["env"], attrs = self.env()
        if attrs is not None:
            ev["attrs"] = attrs
        ev["pos"] = pos_str(self.position)
        ev["src"] = self.source_file or ""
        ev.update(extra)
        r = self.answer(op, e, self)
        r.setdefault("id", "")
        ev["r"] = r
        self.log.append(ev)
        if r["t"] == "raise":
            raise expr_error(r["id"])
        return r

    def text_like(self, r):
        t = r["t"]
        if t == "n":
            return None
        if t == "d":
            return self.Default
        if t == "m":
            return Message(r["s"], domain=r.get("mdom") or None, default=None if r["def"] == "(none)" else r["def"])
        if t == "o":
            return Val(r["id"], r["s"])
        return r["s"]

    # -- ITALExpressionEngine
    def evaluateText(self, e):
        return self.text_like(self.ask("text", e))

    def evaluateStructure(self, e):
        return self.text_like(self.ask("struct", e))

    def evaluateValue(self, e):
        r = self.ask("value", e)
        return Val(r["id"])

    def evaluateBoolean(self, e):
        r = self.ask("bool", e)
        if r["t"] == "d":
            return self.Default
        return 1 if r["s"] == "1" else 0

    def evaluate(self, e):
        r = self.ask("eval", e)
        return {k: v for k, v in r["map"].items() if k != "_"}

    def evaluateMacro(self, e):
        r = self.ask("macro", e)
        if r["t"] == "d":
            return self.Default
        if r["t"] == "macro":
            return self.macros[r["doc"] - 1][r["name"]]
        return bad_macro(r, self.macros, self.header)

    def evaluateCode(self, lang, code):
        return self.ask("code", lang, code=str(code))["s"]

    def setRepeat(self, name, e):
        r = self.ask("repeat", e)
        return RecIterator(self, name, r["id"])

    def createErrorInfo(self, exc, position):
        # MAXLOG runaway is not an application error
        if isinstance(exc, Stop):
            raise exc
        self.nerr += 1
        # the bundled error object, which engines hand to the handlers
        info = ErrorInfo(exc, position)
        if isinstance(exc, Exception):
            exc = info.value if info.type is type(exc) else None
        r = self.ask("err", exc_name(exc), pos=pos_str((info.lineno, info.offset)))
        return Err(r["id"])

    def translate(self, msgid, domain=None, mapping=None, default=None):
        m = {"_": ""}
        m.update((str(k), str(v)) for k, v in (mapping or {}).items())
        r = self.ask("tr", "", msgid=str(msgid) if isinstance(msgid, str) else "(not text)", dom=str(domain), map=m,
                     **{"def": "(none)" if default is None else str(default)})
        return r["s"]


def bad_macro(r, macros, header):
    """A thing that must be refused by use-macro; header: that of a compiled program."""
    kind = r["name"]
    good = header
    for d in macros:
        for p in d.values():
            good = p
    good = list(good)
    if kind == "version":
        return [("version", "1.4")] + good[1:]
    if kind == "mode":
        return [good[0], ("mode", "xml" if good[1][1] == "html" else "html")] + good[2:]
    if kind == "empty":
        return []
    if kind == "noversion":
        return good[1:]
    if kind == "nomode":
        return [good[0]] + good[2:]
    if kind == "short":
        return good[:1]
    return [("rawtextOffset", ("x", 1)), ("rawtextOffset", ("y", 1))]


class RecIterator:
    def __init__(self, engine, name, id):
        self.engine, self.name, self.id = engine, name, id

    def __next__(self):
        r = self.engine.ask("next", self.id)
        if r["t"] == "end":
            return 0
        self.engine.setLocal(self.name, Val(r["id"]))
        return 1


class limit:
    """Bounds the time the code under test may take."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, self.fire)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def fire(self, *args):
        raise Stop()

    def __exit__(self, *args):
        if threading.current_thread() is threading.main_thread():
            signal.setitimer(signal.ITIMER_REAL, 0)


def rejection(e):
    return {"ok": False, "c": exc_name(e), "pos": exc_pos(e), "msg": exc_text(e)[:200]}


def compile_doc(src, html, file=None, supply=None):
    """-> (code or None, observation); supply(parser): hands over the source"""
    c = Compiler()
    gen = TALGenerator(c, xml=0 if html else 1, source_file=file or None)
    p = (HTMLTALParser if html else TALParser)(gen)
    try:
        with limit(20):
            if supply is None:
                p.parseString(src)
            else:
                supply(p)
            code = p.getCode()
    except Stop:
        return None, {"ok": False, "c": "Runaway", "pos": "-", "msg": "does not terminate"}
    except Exception as e:  # noqa
        return None, rejection(e)
    return code, {"ok": True}


def make_interp(program, macros, engine, stream, opts):
    kw = dict(wrap=opts["wrap"], metal=int(opts["metal"]), tal=int(opts["tal"]), showtal=int(opts["showtal"]), strictinsert=int(opts["strict"]),
              stackLimit=opts["limit"], i18nInterpolate=int(opts["interp"]), sourceAnnotations=int(opts["annot"]))
    if len(program) % 2:
        # options that have their usual value are left out
        usual = dict(wrap=1023, metal=1, tal=1, showtal=int(not opts["tal"]), strictinsert=1, stackLimit=100, i18nInterpolate=1, sourceAnnotations=0)
        kw = {k: v for k, v in kw.items() if k not in usual or v != usual[k]}
    return TALInterpreter(program, macros, engine, stream, **kw)


ANNOTATION = re.compile(r"<!--\n=+\n(.*?)(?: \(line (\d+)\))?\n=+\n-->")


def annotations(text):
    """annotation comments as {@file|line@}"""
    return ANNOTATION.sub(lambda m: "{@%s|%s@}" % (m.group(1), m.group(2) or "-"), text)


def render(codes, opts, answer, hook=None, engine=RecEngine):
    """Render document 1 of codes; -> observation dict."""
    eng = engine(answer, [m for p, m in codes])
    eng.hook = hook
    eng.header = codes[0][0][:2]
    out = io.StringIO()
    exc = ""
    try:
        with limit(20):
            make_interp(codes[0][0], codes[0][1], eng, out, opts)()
    except Stop:
        exc = "Runaway"
    except BaseException as e:  # noqa
        exc = exc_name(e)
        if exc in ("SystemExit", "KeyboardInterrupt", "MemoryError"):
            raise
    text = out.getvalue() if not exc else ""
    if opts["annot"]:
        text = annotations(text)
    return {"out": text, "exc": exc, "log": eng.log,
            "bal": len(eng.locals) == 1 and eng.opened == eng.closed}
