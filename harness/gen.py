"""Random template documents, as token lists, with the statement arguments
attached in parsed form (so that the specification need not parse them)."""
from serial import A
from serial import E
from serial import NS
from serial import S
from serial import T
from serial import serialize

TEXTS = ["x", "hello", " ", "\n", "\n  ", " a b ", "t1", "&amp;", "&#160;", "z.", "${n}", "- ", "\n\n\t", "Q&lt;", "'", '"', "%s", ";", "é", "a\tb"]
LOOSE = ["AT&T", "a&b=2 ", "&#", "&copy 1", "&#;", "& ", "&#38 ", "&x"]  # HTML only
VALUES = ["", "v", "a b", "1", "<", ">", "&", '"', "'", "&amp;", "&lt;b>", "a&b", "&copy;", "&#38;", "x;y", "&#x26;", "a=b", "é"]
ATTRS = ["a", "b", "c", "title", "href"]
BOOLS = ["checked", "disabled", "selected", "compact", "nowrap", "ismap", "declare", "noshade", "readonly", "multiple", "noresize", "defer"]
TAGS = ["b", "i", "em", "span", "a", "div", "u"]
XTAGS = ["a", "b", "c", "d", "r"]
VARS = ["x", "y", "z"]
NAMES = ["n1", "n2", "n3"]
SLOTS = ["s1", "s2", "s3"]
DOMAINS = ["d1", "d2", "d1", "d2", "default"]

# names of which some templates draw theirs instead
ODD = dict(vars=["a1", "_u", "Xx", "long_name", "x-1"], names=["n-1", "N2", "_n", "long_name", "n1", "x"], slots=["s-1", "S2", "_s", "main", "s1", "x"],
           domains=["d.1", "D-2", "x y", "default", "é", "lower"], attrs=["data-x", "aria-label", "x_y", "z9", "onclick", "x.y", "title"],
           xattrs=["data-x", "x.y", "_z", "Ab", "aB", "ab", "é"], tags=["x-y", "h9", "font", "b", "label", "q"], xtags=["A", "a.b", "_c", "d-e", "é", "block"],
           msgs=["msg ${n1}", "é m", "x;y", "a &b; <c>", " pad ", "%s"], mids=["m.3", "é", "m&x", "M1", "<m>"])
PIECES = ["a", "B", "7", " ", "\n", "\t", "  ", "-", "&amp;", "&lt;", "&#65;", "'", '"', "=", "/", ";", ":", "]", "%", "$", "${n1}", "{", "}", "\\", "é", "日"]
VPIECES = PIECES + ["<", ">", "&", "<b>", "&x;", "&#", "]]>", "<!--", "\r\n"]


def compose(rng, pieces):
    return "".join(rng.choice(pieces) for _ in range(rng.randint(1, 6)))


DEFAULT = dict(
    size=8, depth=4, p_control=0.6, p_text=0.8, p_attr=0.3, p_ns=0.08, p_self=0.06, p_void=0.05,
    define=.25, p_global=.3, condition=.15, repeat=.15, content=.15, replace=.08, attributes=.2, omit=.1, omit_empty=.3,
    onerror=0, script=0, translate=0, msgid=.3, name=0, data=0, iattr=0, domain=0, vtrans=0, i18n_ctx=0,
    defmacro=0, usemacro=0, extmacro=0, defslot=0, fillslot=0, usefill=.7,
    struct=.3, boolattr=.2, texts=TEXTS, values=VALUES, tags=TAGS, static_dup=.5,
    comment=.05, xmlprefix=False, style=0.0, docs=1, multi=.4, files=1.0, pre=0, tables=0,
    hostile=0.0)


class Ctx:
    def __init__(self, **kw):
        self.depth = 0
        self.use = False      # directly inside a use-macro region
        self.deff = 0         # inside a macro definition
        self.unit = None      # names available in the enclosing translation unit
        self.block = True     # block-level markup allowed (HTML)
        self.__dict__.update(kw)

    def sub(self, **kw):
        c = Ctx(**self.__dict__)
        c.depth += 1
        c.__dict__.update(kw)
        return c


class Gen:
    def __init__(self, rng, html, **prof):
        self.rng, self.html = rng, html
        self.p = dict(DEFAULT)
        self.p.update(prof)
        self.n = 0
        self.kinds = {}
        self.macros = []           # names defined in the document being made
        self.allmacros = []        # (doc, name)
        self.slotsof = {}
        self.budget = 0
        self.pfx = {"tal": "tal", "metal": "metal", "i18n": "i18n"}
        self.odd = rng.random() < .2
        self.vars, self.names, self.slots, self.domains = VARS, NAMES, SLOTS, DOMAINS
        self.attrs = ATTRS + ([] if html else ["A", "Title"])
        self.msgs, self.mids, self.xtags = ["msg1", "msg-2", "a b"], ["mid1", "m-2", "mid3"], XTAGS
        if self.odd:
            def some(k, n=3):
                return rng.sample(ODD[k], n)
            self.vars, self.names, self.slots, self.domains = some("vars"), some("names"), some("slots"), some("domains")
            self.attrs = some("attrs", 5) if html else some("xattrs", 5)
            self.msgs, self.mids, self.xtags = some("msgs"), some("mids"), some("xtags", 4)
            if html and self.p["tags"] is TAGS:
                self.p["tags"] = some("tags", 5)
            if rng.random() < .3:
                self.p["depth"] = 9

    def chance(self, k):
        return self.rng.random() < self.p[k]

    def expr(self, kind):
        self.n += 1
        e = "e%d" % self.n
        r = self.rng.random()
        if r < .1:
            e = e + " a"
        elif r < .2:
            e = "p/" + e
        elif r < .25:
            e = "text " + e if kind not in ("content", "replace", "on-error", "eval") else "textual/" + e
        elif r < .3:
            e = e + ";z"
        elif r < .36 and self.odd:
            e = self.rng.choice([e + "\n b", "é/" + e, "f('%s')" % e, 'q"' + e, e + " <&>", e + ";;y", e + " | z", "structure/" + e])
        self.kinds[e] = kind
        return e

    def pad(self, name):
        """white space around macro and slot names is of no account"""
        return self.rng.choice([" ", "", " "]) + name + self.rng.choice([" ", "  ", ""]) if self.rng.random() < .08 else name

    def bare(self, a):
        """in HTML an empty value need not be written"""
        return dict(a, h=False) if self.html and a["v"] == "" and self.rng.random() < .3 else a

    def text(self):
        if self.html and self.p["texts"] is TEXTS and self.rng.random() < .05:
            return T(self.rng.choice(LOOSE))
        if self.odd and self.p["texts"] is TEXTS and self.rng.random() < .2:
            return T(compose(self.rng, PIECES))
        return T(self.rng.choice(self.p["texts"]))

    def value(self):
        if self.odd and self.p["values"] is VALUES and self.rng.random() < .3:
            return compose(self.rng, VPIECES[:-1])
        return self.rng.choice(self.p["values"])

    # ---------------------------------------------------------- statements
    def semi(self, s):
        return s.replace(";", ";;")

    def joined(self, parts):
        sep = self.rng.choice(["; ", ";", " ; ", ";\n "])
        s = sep.join(parts)
        if self.rng.random() < .15:
            s += self.rng.choice([";", "; ", " ;", ";\n"])
        return s

    def st_define(self):
        d, parts = [], []
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            n, e = self.rng.choice(self.vars), self.expr("value")
            sc = "global" if self.chance("p_global") else "local"
            lead = "global " if sc == "global" else self.rng.choice(["", "", "local "])
            parts.append(lead + n + self.rng.choice([" ", "  "]) + self.semi(e))
            d.append({"sc": sc, "n": n, "e": e})
        return A("define", self.joined(parts), "tal", d)

    def st_plain(self, l, kind):
        e = self.expr(kind)
        return A(l, e, "tal", e)

    def st_subst(self, l):
        e = self.expr(l)
        if self.chance("struct"):
            return A(l, "structure " + e, "tal", {"m": "structure", "e": e})
        return A(l, self.rng.choice(["", "text ", " "]) + e, "tal", {"m": "text", "e": e})

    def st_repeat(self):
        e = self.expr("repeat")
        n = self.rng.choice(self.vars)
        return A("repeat", n + " " + e, "tal", {"n": n, "e": e})

    def attr_names(self, k):
        names = self.attrs + (self.rng.sample(BOOLS, 4) if self.chance("boolattr") else [])
        return self.rng.sample(names, min(k, len(names)))

    def st_attributes(self, names):
        d, parts = [], []
        for n in names:
            e = self.expr("battr" if n in BOOLS else "attr")
            d.append({"n": n, "e": e, "o": 0})
            w = n.upper() if self.html and self.rng.random() < .1 else n
            parts.append(w + " " + self.semi(e))
        return A("attributes", self.joined(parts), "tal", d)

    def st_iattr(self, names, talnames):
        d, parts = [], []
        for n in names:
            m = "" if n in talnames or self.rng.random() < .5 else self.rng.choice(self.mids)
            d.append({"n": n, "m": m, "o": 0})
            w = n.upper() if self.html and self.rng.random() < .1 else n
            parts.append(w + (" " + m if m else ""))
        return A("attributes", self.joined(parts), "i18n", d)

    # ------------------------------------------------------------ elements
    def element(self, ctx, force=None):
        """force: dict of features to use"""
        rng, p = self.rng, self.p
        self.budget -= 1
        force = force or {}

        def on(k):
            if k in force:
                return force[k]
            return self.chance(k)
        control = force or self.chance("p_control")
        attrs, st, kidctx = [], [], {}
        tag = rng.choice(p["tags"] if self.html else self.xtags)
        if tag == "div" and not ctx.block:
            tag = "span"
        prefix = ""
        if p["pre"] and rng.random() < p["pre"] and (ctx.block or not self.html):
            tag = "pre"
        for n in self.attr_names(rng.choice([1, 1, 2])) if self.chance("p_attr") else []:
            if self.html and rng.random() < .15:
                attrs.append(A(n))
            else:
                attrs.append(A(n, self.value()))
        if self.html and p["script"] and rng.random() < .1:
            # means something on script elements only
            attrs = [a for a in attrs if a["l"] != "type"] + [A("type", "text/server-python")]
        translate = False
        if control:
            ns = rng.choice(["tal", "metal", "i18n"]) if on("p_ns") else ""
            # METAL
            metal = False
            if ctx.use and on("fillslot"):
                free = [s for s in self.slots if s not in ctx.use["filled"]]
                if free:
                    s = rng.choice(free)
                    ctx.use["filled"].add(s)
                    st.append(A("fill-slot", self.pad(s), "metal", s))
                    kidctx.update(use=False)
                    metal = True
                    ctx = ctx.sub(use=False)
            inuse = bool(ctx.use)
            if not metal and not inuse:
                if on("defmacro"):
                    m = ("m%d" if not self.odd else rng.choice(["m%d", "M-%d", "_m%d", "m_%d-x"])) % (len(self.macros) + 1)
                    self.macros.append(m)
                    st.append(A("define-macro", self.pad(m), "metal", m))
                    kidctx.update(deff=ctx.deff + 1)
                    metal = True
                    if on("extmacro"):
                        e = self.macroexpr()
                        st.append(A("extend-macro", e, "metal", e))
                        kidctx.update(use={"filled": set()})
                elif on("usemacro"):
                    e = self.macroexpr()
                    st.append(A("use-macro", e, "metal", e))
                    kidctx.update(use={"filled": set()})
                    metal = True
            if ctx.deff and not metal and on("defslot") and not inuse:
                s = rng.choice(self.slots)
                st.append(A("define-slot", self.pad(s), "metal", s))
                metal = True
            # TAL
            if on("define"):
                st.append(self.st_define())
            if on("condition"):
                st.append(self.st_plain("condition", "bool"))
            if on("repeat"):
                st.append(self.st_repeat())
            isname = ctx.unit is not None and on("name")
            what = None
            if on("content"):
                what = "content"
            elif on("replace"):
                what = "replace"
            if on("translate"):
                if what and self.chance("vtrans"):
                    st.append(self.bare(A("translate", "", "i18n")))
                    kidctx.update(unit=list(self.names))
                elif not what:
                    mid = rng.choice(self.msgs) if self.chance("msgid") else ""
                    st.append(self.bare(A("translate", mid, "i18n", mid)))
                    translate = True
                    kidctx.update(unit=list(self.names))
                    if mid and on("data"):
                        e = self.expr("eval")
                        st.append(A("data", e, "i18n", e))
            if what:
                st.append(self.st_subst(what))
            omit = on("omit")
            if omit and not ns:
                if self.chance("omit_empty"):
                    st.append(self.bare(A("omit-tag", "", "tal", "")))
                else:
                    st.append(self.st_plain("omit-tag", "bool"))
            if on("onerror"):
                st.append(self.st_subst("on-error"))
            talnames = []
            if on("attributes"):
                talnames = self.attr_names(rng.choice([1, 2, 3]))
                st.append(self.st_attributes(talnames))
            if on("iattr"):
                have = [a["l"] for a in attrs]
                names = [n for n in self.attr_names(4) if n in talnames or n in have or rng.random() < .2]
                if names:
                    st.append(self.st_iattr(names, talnames))
            if isname:
                nm = rng.choice(ctx.unit)
                st.append(A("name", nm, "i18n", nm))
            if on("domain"):
                st.append(A("domain", rng.choice(self.domains), "i18n"))
            if on("i18n_ctx"):
                st.append(A(rng.choice(["source", "target"]), "en", "i18n"))
            if not what and not translate and on("script"):
                lang = rng.choice(["lang1", "text/server-python"])
                st.append(A("script", lang, "tal", lang))
            if ns:
                prefix, tag = self.pfx[ns], "block"
                attrs = [A("lang", "en", "xml") if not self.html else A("q", "v", "foo")] if rng.random() < .15 else []
                st = [a for a in st if (a["p"], a["l"]) != ("i18n", "attributes")]
                st = [a if a["p"] != ns or rng.random() < .5 else dict(a, p="") for a in st]
                if not st:
                    st = [self.st_define() if rng.random() < .5 else self.st_plain("condition", "bool")]
        self.rank(st)
        st = [dict(a, p=self.pfx.get(a["p"], a["p"])) for a in st]
        rng.shuffle(st)
        k = rng.randrange(len(attrs) + 1)
        attrs = attrs[:k] + st + attrs[k:]
        if self.html and not prefix and not translate and control and on("script") and rng.random() < .5:
            # inline code, given by the type of a script element
            attrs = [a for a in attrs if a["p"] == "tal" or a["l"] != "type"]
            attrs.insert(rng.randrange(len(attrs) + 1), rng.choice([A("type", "text/server-python"), A("type", "text/server-x"), A("type", "text/javascript"), A("type", "text/serverless"), A("type"), A("type", "")]))
            attrs = [a for a in attrs if (a["p"], a["l"]) != (self.pfx["tal"], "script")]
            return [S("script", attrs), T(rng.choice(["x = 1", " code\n", "a < b && c", ""])), E("script")]
        # void / self-closed
        has = {a["l"] for a in st}
        if self.html and not prefix and not (has & {"content", "define-macro", "use-macro"}) and self.chance("p_void") and not translate:
            return [S(rng.choice(["br", "img", "input"]), attrs, sc=rng.random() < .3)]
        if self.chance("p_self"):
            return [S(tag, attrs, prefix, sc=True)]
        sub = ctx.sub(**kidctx)
        if "fill-slot" in has:
            sub.use = False
        toks = [S(tag, attrs, prefix)]
        toks += self.kids(sub)
        toks.append(E(tag, prefix))
        return toks

    def rank(self, st):
        names = set()
        for a in st:
            if a["l"] == "attributes" and a["d"]:
                names |= {x["n"] for x in a["d"]}
        order = {n: i + 1 for i, n in enumerate(sorted(names))}
        for a in st:
            if a["l"] == "attributes" and a["d"]:
                for x in a["d"]:
                    x["o"] = order[x["n"]]

    def macroexpr(self):
        self.n += 1
        e = "here/macros/u%d" % self.n
        self.kinds[e] = "macro"
        return e

    def kids(self, ctx, n=None):
        rng = self.rng
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n):
            if self.chance("p_text"):
                out.append(self.text())
            if ctx.use and self.rng.random() < self.p["usefill"] and ctx.depth < self.p["depth"] + 2:
                out += self.element(ctx, {"fillslot": True})
            elif self.budget > 0 and ctx.depth < self.p["depth"]:
                out += self.element(ctx)
            elif self.chance("comment"):
                out.append(T(rng.choice(["<!-- c -->", "<?pi x?>", "<!--<b>-->", '<?xml-s href="a.css"?>'])))
        if self.chance("p_text"):
            out.append(self.text())
        return out

    def decls(self):
        """namespace declarations for an XML root"""
        return [A(self.pfx[k], NS[k], "xmlns") for k in ("tal", "metal", "i18n")]

    def document(self, force=None):
        """one document's tokens"""
        self.macros = []
        self.budget = self.p["size"]
        out = []
        ctx = Ctx()
        if self.html:
            while self.budget > 0:
                before = self.budget
                if self.chance("p_text"):
                    out.append(self.text())
                out += self.element(ctx, force)
                if self.budget == before:
                    break
            if self.chance("p_text"):
                out.append(self.text())
        else:
            if self.rng.random() < .3:
                out.append(T(self.rng.choice(['<?xml version="1.0"?>\n', '<?xml version="1.0"?>\n', '<?xml-s href="a.css"?>\n'])))
            root = S("r", self.decls())
            kids = []
            while self.budget > 0:
                kids += self.kids(ctx.sub(), 1)
                self.budget -= 1
            out += [root] + kids + [E("r")]
            if self.rng.random() < .3:
                out.append(T(self.rng.choice(["\n", "<!-- end -->", "\n<!--x-->\n"])))
        return out


# ------------------------------------------------------------------- answers
WORDS = ["w", "two words", "<b>", "a&b", '"q"', "&amp;", "x>y", "'", "", " pad ", "line\nbreak", "é", "&lt;", "]]>", "0"]


class Policy:
    """Answers to the engine questions of one rendering."""

    def __init__(self, rng, gen, macros, **kw):
        """macros: list of (doc, name) available"""
        self.rng, self.g, self.macros = rng, gen, macros
        self.w = dict(p_raise=0.0, p_none=.12, p_default=.15, p_msg=0.0, p_true=.7, p_bad=0.0, p_mdefault=.1,
                      words=WORDS, p_markup=.4, p_markup_tr=.2, calm=150, maxloop=3, obj=.15, mdef=.5, p_badfrag=0.0, p_fragctl=0.0)
        self.w.update(kw)
        self.n = 0
        self.loops = {}

    def fresh(self, k):
        self.n += 1
        return "%s%d" % (k, self.n)

    def frag(self, p_markup):
        """a structure value: (text, tokens)"""
        rng, w_bad = self.rng, self.w["p_badfrag"]
        if rng.random() >= p_markup:
            if not self.g.html and rng.random() < w_bad:
                t = rng.choice(["a & b", "&no such;", "x ]]> y"])
                return (t, [{"k": "X", "s": t}])
            t = rng.choice(["plain", "p&amp;q", "", "two words"]) if not self.g.html or rng.random() < .9 else "x"
            return (t, [T(t)] if t else [])
        toks = []
        if rng.random() < .3:
            toks.append(T("lead "))
        for _ in range(rng.choice([1, 1, 2])):
            inner = [T("in")] if rng.random() < .7 else []
            if rng.random() < .2:
                inner += self.fragel("u", [T("deep")])
            toks += self.fragel(rng.choice(["b", "i", "em"]), inner)
            if rng.random() < .3:
                toks.append(T(rng.choice([" mid ", "\n", "<!-- c -->", "&amp;", "&undefined;"])))
        if rng.random() < w_bad:
            i = rng.randrange(len(toks) + 1)
            if toks and rng.random() < .5:
                del toks[rng.randrange(len(toks))]
            elif not self.g.html and rng.random() < .4:
                toks.insert(i, {"k": "X", "s": rng.choice(["a & b", "&no such;", "<", "x < y", "<b a=v>", "<b a='1' a='2'/>"])})
            else:
                toks.insert(i, rng.choice([E("b"), E("q"), S("b", []), E("br")]))
        return (serialize(toks, self.g.html), toks)

    def fragel(self, tag, inner):
        """an element of a fragment; control markup in it means nothing"""
        rng, p = self.rng, ""
        attrs = [A(n, rng.choice(["v", "a b", "<", "&amp;"])) for n in rng.sample(self.g.attrs, rng.choice([0, 1, 2]))]
        if rng.random() < self.w["p_fragctl"]:
            for _ in range(rng.choice([1, 1, 2])):
                ns, l, v = rng.choice([("tal", "content", "boom"), ("tal", "define", "x boom"), ("tal", "condition", "boom"), ("tal", "nonsense", ""),
                                       ("tal", "replace", "boom"), ("tal", "on-error", "boom"), ("tal", "omit-tag", ""), ("tal", "attributes", "a boom"),
                                       ("tal", "repeat", "x boom"), ("i18n", "translate", ""), ("i18n", "domain", "dx"), ("i18n", "name", "n"),
                                       ("i18n", "attributes", "a"), ("metal", "define-macro", "mx"), ("metal", "use-macro", "boom"), ("metal", "fill-slot", "s1"),
                                       ("metal", "define-slot", "s1")])
                if not any((a["p"], a["l"]) == (ns, l) for a in attrs):
                    attrs.insert(rng.randrange(len(attrs) + 1), A(l, v, ns))
            if rng.random() < .15:
                p = rng.choice(["tal", "metal", "i18n"])
            if not self.g.html and rng.random() < .9:
                attrs += [A(k, NS[k], "xmlns") for k in sorted({a["p"] for a in attrs} | {p}) if k]
        if rng.random() < .1:
            return [S(tag, attrs, p, sc=True)]
        return [S(tag, attrs, p)] + inner + [E(tag, p)]

    def __call__(self, op, e, eng):
        rng, w = self.rng, self.w
        calm = len(eng.log) > w["calm"]
        kind = self.g.kinds.get(e, "")
        if op == "err":
            return {"t": "err", "id": self.fresh("err")}
        if op in ("text", "bool", "value", "struct", "macro", "repeat", "next", "eval", "code", "tr") \
                and rng.random() < w["p_raise"] * (.3 if op in ("next", "tr") else 1):
            return {"t": "raise", "id": self.fresh("X")}
        if op == "text" or op == "struct":
            r = rng.random()
            onerr = kind == "on-error"
            if r < w["p_none"]:
                return {"t": "n", "s": ""}
            if r < w["p_none"] + w["p_default"] and not onerr:
                return {"t": "d", "s": ""}
            if op == "struct":
                s, toks = self.frag(w["p_markup"])
            else:
                s, toks = rng.choice(w["words"]), []
                if w["words"] is WORDS and rng.random() < .1:
                    s = compose(rng, VPIECES)
            if rng.random() < w["p_msg"] and (s or op == "text"):
                return {"t": "m", "id": self.fresh("t"), "s": s or "mm", "toks": toks if s else [T("mm")],
                        "def": rng.choice(["dflt", "D <x>"]) if rng.random() < w["mdef"] else "(none)"}
            if op == "struct" and rng.random() < w["obj"]:
                return {"t": "o", "id": self.fresh("o"), "s": s, "toks": toks}
            return {"t": "s", "id": self.fresh("t"), "s": s, "toks": toks}
        if op == "bool":
            if kind == "battr" and rng.random() < w["p_default"]:
                return {"t": "d", "s": "1"}
            return {"t": "b", "s": "1" if rng.random() < w["p_true"] and not calm else "0"}
        if op == "value":
            return {"t": "v", "id": self.fresh("v")}
        if op == "repeat":
            return {"t": "it", "id": self.fresh("it")}
        if op == "next":
            k = self.loops.get(e, 0)
            self.loops[e] = k + 1
            if calm or k >= w["maxloop"] or rng.random() < .3:
                return {"t": "end"}
            return {"t": "item", "id": self.fresh("i")}
        if op == "macro":
            if rng.random() < w["p_bad"]:
                return {"t": "bad", "doc": 0, "name": rng.choice(["version", "mode", "empty", "noversion", "nomode", "short", "junk"])}
            if calm or not self.macros or rng.random() < w["p_mdefault"]:
                return {"t": "d", "doc": 0, "name": ""}
            d, n = rng.choice(self.macros)
            return {"t": "macro", "doc": d, "name": n}
        if op == "eval":
            m = {"_": ""}
            for n in rng.sample(self.g.names + ["d1"], rng.choice([0, 1, 2])):
                m[n] = rng.choice(["dv", "x y"])
            return {"t": "map", "map": m}
        if op == "code":
            return {"t": "s", "s": rng.choice(["[code]", "", "c1"])}
        if op == "tr":
            s, toks = self.frag(w["p_markup_tr"])
            if not s:
                s, toks = "TR", [T("TR")]
            return {"t": "s", "s": s, "toks": toks}
        raise AssertionError(op)
