"""The ways of supplying a template (C25).

A case is made as for the other properties; then every document is supplied
again, each in some other way (bytes, stream, file name, URL, the bundled
driver, the bundled engine's lookup of macros), and the recorded answers are
given again.  The specification, which knows nothing of these ways, decides."""
import io
import os
import pathlib
import re
import tempfile

import case as C
import impl
import profiles
import props
from serial import serialize
from serial import T
from zope.tal import driver  # noqa: E402  (impl has set the path)
from zope.tal.dummyengine import DummyEngine  # noqa: E402
from zope.tal.taldefs import TALError  # noqa: E402

HTML = ["string", "file", "driver", "driver-mode"]
XML = ["string", "bytes", "bom", "utf-16", "stream", "slow", "file", "url", "driver", "driver-mode"]
ENCODINGS = ["utf-8", "iso-8859-1", "us-ascii", "windows-1252", "UTF-8"]
MAKERS = ["C01", "C03", "C04", "C06", "C11", "C13", "C17", "C23"]


class Slow(io.BytesIO):
    """hands out a few bytes at a time"""

    def read(self, n=-1):
        return super().read(min(n, 1 + self.tell() % 7) if n > 0 else n)


class Engine(impl.RecEngine):
    """for programs of the driver: expressions are marked, files have their full name"""
    files = {}

    def ask(self, op, e, **extra):
        if op not in ("err", "tr", "next", "code") and e[:1] == e[-1:] == "$":
            e = e[1:-1].strip()
        full, self.source_file = self.source_file, self.files.get(self.source_file, self.source_file)
        try:
            return super().ask(op, e, **extra)
        finally:
            self.source_file = full


def encode(src, toks):
    m = re.match(r'<\?xml[^>]*encoding="([^"]*)"', src)
    return src.encode(m.group(1) if m else "utf-8")


def supply(way, src, toks, html, path):
    """-> function handing the source to a parser; None: not in this way"""
    if way == "string":
        return lambda p: p.parseString(src)
    if html:
        if "\r" in src or "﻿" in src:
            return None          # text files are read with universal newlines
        pathlib.Path(path).write_text(src, encoding="utf-8")
        return lambda p: p.parseFile(path)
    try:
        data = encode(src, toks)
    except UnicodeEncodeError:
        return None
    if way in ("bom", "utf-16"):
        # expat counts the byte order mark as a column of the first line
        if not re.match(r'<\?xml version="1.0"\?>\n', src):
            return None
        data = b"\xef\xbb\xbf" + data if way == "bom" else src.encode("utf-16")
    if way in ("bytes", "bom", "utf-16"):
        return lambda p: p.parseString(data)
    if way == "stream":
        return lambda p: p.parseStream(io.BytesIO(data))
    if way == "slow":
        return lambda p: p.parseStream(Slow(data))
    pathlib.Path(path).write_bytes(data)
    if way == "url":
        return lambda p: p.parseURL(pathlib.Path(path).as_uri())
    return lambda p: p.parseFile(path)


def redo(ck, c, rng, d):
    """the case c with its documents supplied in other ways"""
    html = c["html"]
    ways, codes, files, comp = [], [], {}, []
    docs = [dict(x, toks=[dict(t) for t in x["toks"]]) for x in c["docs"]]
    srcs = []
    by_driver = all(o["ok"] for o in c["comp"]) and c["files"] and rng.random() < .3
    for i, x in enumerate(docs):
        toks = x["toks"]
        if not html and rng.random() < .2 and not serialize(toks, html).startswith("<?xml "):
            toks.insert(0, T('<?xml version="1.0"?>\n'))
        if not html and toks and toks[0]["k"] == "T" and toks[0]["s"].startswith("<?xml "):
            enc = rng.choice(ENCODINGS + [""])
            toks[0] = T(re.sub(r'("1.0")( encoding="[^"]*")?', r'\1' + (' encoding="%s"' % enc if enc else ""), toks[0]["s"], count=1))
        src = serialize(toks, html)
        srcs.append(src)
        way, feed = "string", None
        ext = rng.choice([".html", ".htm", ".HTML"] if html else [".xml", ".pt", ".xhtml", ""])
        path = os.path.join(d, "t%d%s" % (i, ext))
        for way in rng.sample(HTML if html else XML, 3) + ["string"]:
            if way.startswith("driver") == by_driver or (by_driver and way == "string"):
                feed = supply("file" if by_driver else way, src, toks, html, path)
                if feed:
                    break
        if by_driver and not feed:
            by_driver = False
            return None
        ways.append(way)
        if by_driver:
            mode = None
            if way == "driver-mode":
                mode = "html" if html else "xml"
                os.rename(path, path + ".txt" if html else path + ".html")
                path = path + ".txt" if html else path + ".html"
            files[os.path.abspath(path)] = x["file"]
            try:
                code = driver.compilefile(path, mode)
                if way == "driver":
                    # macros as the bundled engine finds them
                    code = code[0], {n: DummyEngine().evaluateMacro("$%s/%s$" % (path, n)) for n in code[1]}
                ob = {"ok": True}
            except Exception as e:  # noqa
                code, ob = None, impl.rejection(e)
        else:
            raised = []

            def noting(p):
                try:
                    feed(p)
                except TALError as e:
                    raised.append(e)
                    raise
            code, ob = impl.compile_doc(src, html, x["file"], noting)
            if html and way == "file" and raised:
                ck.add("errors_naming_their_file")
                text = impl.exc_text(raised[0])
                if getattr(raised[0], "filename", None) != path or path not in text:
                    ck.fail("file", {"property": ck.pid, "template": src, "error": text}, "the error does not name the file: %s" % text)
        codes.append(code)
        comp.append(ob)
    for w in ways:
        ck.add("documents_supplied_as_" + w.replace("-", "_"))
    out = dict(c, docs=docs, srcs=srcs, comp=comp, log=[], exc="", out="", bal=True)
    if all(codes):
        left = [dict(e["r"]) for e in c["log"]]
        engine = type("E", (Engine,), {"files": files}) if by_driver else impl.RecEngine
        out.update(impl.render(codes, c["opts"], lambda op, e, eng: left.pop(0) if left else {"t": "raise", "id": "XMORE"}, engine=engine))
    return out


def run(ck):
    with tempfile.TemporaryDirectory(prefix="talentry") as d:
        def make(rng):
            while True:
                c = profiles.TABLE[rng.choice(MAKERS)][0](rng)
                c = redo(ck, c, rng, d)
                if c is not None:
                    return c
        props.traces(ck, make, profiles.ALL, ck.q(1800, 18000))
