"""Special-purpose documents: tag soup, namespace games, faulty markup."""
from gen import ATTRS
from gen import Gen
from gen import NAMES
from gen import SLOTS
from serial import A
from serial import E
from serial import NS
from serial import S
from serial import T

STATIC_TEXTS = [
    "x", "hello world", " ", "\n", "\n    ", "\t", "a  b", "&amp;", "&lt;tag&gt;", "&#169;", "&#xA9;", "&nbsp;", "&eacute;",
    "é", "日本", "'", '"', "%", "%s", "$x", "${x}", "{{y}}", ";", "--", "]]", "a=b", "/", "\\", "\\n", "tal:content",
    "x" * 90, "end. ", "  two\n lines ", "&quot;", "&apos;", "-", "!", "?", "#", "&#0038;", "\n\n"]
# what only HTML lets stand as text
LONE_TEXTS = ["a & b", " & ", "1 < 2", " < ", "a <3 ", "<> ", "&; ", "a && b", "&&amp; ", "&1; ", "< p >", "<< ",
              "AT&T", "a=1&b=2&c", "&#", "&#; ", "&#x", "&#12ab;", "&copy 2024", "&amp", "&#38 x", "&#xA9 ", "&a-b.c"]
HTML_MISC = ["<!-- c -->", "<!---->", "<!-- <b tal:content='x'> -->", "<!--\nmulti\n-->", "<!DOCTYPE html>",
             '<!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01//EN">', "<?php echo 1 ?>", "<?pi?>", "<!-- a - b -->", "<!-- &amp; & < -->",
             "<![if !IE]>", "<![endif]>", "<![CDATA[a <b> &c;]]>"]
RAW_TEXTS = ["x = 1;", "if (a < b && c > d) { write('<b>x</b>'); }", "a > b {}", "<!-- x -->", "&amp; &lt;", " \n ", "</b>", "<p>", "<br/></i>", "/* </ */"]
XML_MISC = ["<!-- c -->", "<!---->", "<!-- <b tal:content='x'> -->", "<!--\nmulti\n-->", "<?php echo 1 ?>", "<?pi?>", "<![CDATA[<x> & ]]>",
            "<![CDATA[]]>", "<!-- & < -->", "<?t a='b'?>", "<![CDATA[a]]b]]>"]
STATIC_VALUES = ["", "v", "a b", " lead", "trail ", "1", "<", ">", "&", '"', "'", "&amp;", "&lt;b>", "a&b", "&copy;", "&#38;", "x;y",
                 "&#x26;", "a=b", "é", "日本", "\"'", "<b c=\"d\">", "&&", "a & b", "& ", "&;", "&#;", "&#x;", "&1;", "a&amp;b&lt;",
                 "${x}", "%s", "x" * 80, "&amp", "&a b;", "&#12a;", "&#xZ;", "&lt;&gt;", "a?b=1&c=2", "&A1;", "&a_b;", "&#X41;"]


PIECES = ["a", "B", "7", " ", "\n", "\t", "  ", "-", "!", "?", "&", "<", ">", "&amp;", "&x;", "&#65;", "'", '"', "=", "/", ";", ":", "[", "]", "%", "${x}", "tal:content", "é", "ß", "日", "😀"]


def compose(rng, without=(), most=5):
    """text put together from pieces, without some substrings"""
    s = ""
    for _ in range(rng.randint(0, most)):
        c = s + rng.choice(PIECES)
        if not any(w in c for w in without):
            s = c
    return s


def odd_misc(rng, html):
    """a comment, declaration, processing instruction or marked section"""
    k = rng.random()
    if k < .35:
        s = compose(rng, ["--"])
        return "<!--%s-->" % s.lstrip(">-!").rstrip("-!<")
    if not html:
        if k < .7:
            return "<?%s?>" % ("t" + rng.choice(["", " " + compose(rng, ["?>"]).lstrip().rstrip("?")]))
        return "<![CDATA[%s]]>" % compose(rng, ["]]", ">"]).rstrip("]")
    if k < .6:
        return "<?%s>" % ("t" + compose(rng, [">"]))
    if k < .85:
        word = rng.choice(["DOCTYPE", "doctype", "Doctype", "DocType"])
        return "<!%s%s>" % (word, rng.choice([" html", " HTML", "  html ", " " + compose(rng, [">"])]))
    if k < .93:
        return "<![%s]>" % (rng.choice(["if", "IF", "endif", "else", "If"]) + rng.choice(["", " !IE", " lt IE 7", " (gt IE 5)&(lt IE 7)"]))
    return "<![CDATA[%s]]>" % compose(rng, ["]", ">"])


HTML_NAMES = ("@click", ":href", "v-on:click", "[x]", "(y)", "#z", "data_x", "x.y", "a1", "aria-label", "é", "_")


def static_attrs(rng, html, names=("a", "b", "c", "title", "href", "class", "id", "data-x", "x-y", "checked")):
    out = []
    if html and rng.random() < .1:
        names = names + HTML_NAMES
    for n in rng.sample(names, rng.choice([0, 0, 1, 1, 2, 3, 4])):
        if html and rng.random() < .15:
            out.append(A(n))
        else:
            v = rng.choice(STATIC_VALUES) if rng.random() < .8 else compose(rng)
            if html and rng.random() < .1:
                v = v + "\n" + rng.choice(STATIC_VALUES)
            out.append(A(n, v))
    return out


CLASSES = {
    "void": ["br", "img", "hr", "input", "meta", "link", "area", "param", "col", "base"],
    "para": ["p", "p", "p", "h1", "h3", "h6"],
    "list": ["ul", "ol", "li", "li", "li", "dl", "dt", "dd"],
    "table": ["table", "tr", "tr", "td", "td", "th", "tbody", "thead", "tfoot"],
    "block": ["div", "div", "blockquote", "nav", "noframe"],
    "inline": ["b", "i", "span", "a", "em", "section", "form", "center", "dir"],
}


def soup(rng, n=14, control=0.0, wild=.05, texts=STATIC_TEXTS, misc=.1, attrs=True, void_end=.02, classes=None, unclosed=.5):
    """HTML tag soup: mostly plausible nesting, left to the implied end tags."""
    out, stack, k = [], [], 0
    names = classes or ["para", "list", "table", "block", "inline", "inline"]
    focus = rng.sample(names, min(len(names), rng.choice([1, 2, 3])))
    for _ in range(rng.randrange(2, n)):
        r = rng.random()
        if r < .42:
            tag = rng.choice(CLASSES[rng.choice(focus if rng.random() < .9 else names)])
            if stack and rng.random() < .2:
                tag = rng.choice(stack)
            at = static_attrs(rng, True) if attrs and rng.random() < .4 else []
            if rng.random() < control:
                k += 1
                e = "e%d" % k
                at.insert(rng.randrange(len(at) + 1), rng.choice([
                    lambda: A("define", "x " + e, "tal", [{"sc": "local", "n": "x", "e": e}]),
                    lambda: A("condition", e, "tal", e),
                    lambda: A("content", e, "tal", {"m": "text", "e": e}),
                    lambda: A("omit-tag", e, "tal", e),
                    lambda: A("replace", e, "tal", {"m": "text", "e": e}),
                    lambda: A("domain", "d", "i18n", "d"),
                    lambda: A("translate", "", "i18n", ""),
                    lambda: A("define-macro", "m%d" % k, "metal", "m%d" % k),
                    lambda: A("define-slot", "s%d" % k, "metal", "s%d" % k),
                    lambda: A("fill-slot", "s%d" % k, "metal", "s%d" % k),
                    lambda: A("use-macro", e, "metal", e)])())
            sc = rng.random() < .06
            out.append(S(tag, at, sc=sc))
            if not sc:
                stack.append(tag)
        elif r < .66 and stack:
            i = len(stack) - 1
            while i > 0 and rng.random() < .25:
                i -= 1
            out.append(E(stack[i]))
            del stack[i:]
        elif r < .7:
            out.append(S(rng.choice(CLASSES["void"]), static_attrs(rng, True) if attrs and rng.random() < .5 else [], sc=rng.random() < .4))
        elif r < .7 + wild:
            out.append(E(rng.choice(CLASSES[rng.choice(names)])))
        elif r < .7 + wild + void_end:
            out.append(E(rng.choice(CLASSES["void"])))
        elif r < .7 + wild + void_end + misc:
            if rng.random() < .2:
                tag = rng.choice(["script", "style"])
                out += [S(tag, static_attrs(rng, True)), T(rng.choice(RAW_TEXTS)), E(tag)]
            else:
                out.append(T(odd_misc(rng, True) if rng.random() < .4 else rng.choice(HTML_MISC)))
        elif texts is STATIC_TEXTS and rng.random() < .15:
            out.append(T(compose(rng, ["<"]) or " "))
        else:
            out.append(T(rng.choice(LONE_TEXTS if rng.random() < .08 else texts)))
    if rng.random() >= unclosed:
        while stack:
            out.append(E(stack.pop()))
    if control and rng.random() < .25:
        # slots need a macro around them, fillers a use
        use = rng.random() < .5
        out.insert(0, S("div", [A("use-macro", "e0", "metal", "e0") if use else A("define-macro", "m0", "metal", "m0")]))
        out.append(E("div"))
    if rng.random() < .04:
        out.append(T(rng.choice([" &", " <", "x &", "1 <", "&", "<", "AT&T", "&#", "&#;", "&#12", "&copy"])))
    return out


def static_xml(rng, n=10):
    budget = [rng.randrange(1, n)]
    names = ["a", "b", "c", "item", "X", "long-name", "_u", "é"]

    def el(depth, pre):
        budget[0] -= 1
        tag, p = rng.choice(names), ""
        at, dp = static_attrs(rng, False), set(pre)
        if rng.random() < .2:
            p2 = rng.choice(["p", "q", "r"])
            at.append(A(p2, rng.choice(["urn:1", "urn:2"]), "xmlns"))
            dp.add(p2)
        if rng.random() < .1:
            at.append(A("xmlns", rng.choice(["urn:3", "urn:4"])))
        if dp and rng.random() < .3:
            p = rng.choice(sorted(dp))
        if dp and rng.random() < .3:
            at.append(A("z", rng.choice(STATIC_VALUES), rng.choice(sorted(dp))))
        rng.shuffle(at)
        if rng.random() < .15:
            return [S(tag, at, p, sc=True)]
        out = [S(tag, at, p)]
        while rng.random() < .6:
            r = rng.random()
            if r < .45 and budget[0] > 0 and depth < 5:
                out += el(depth + 1, dp)
            elif r < .85:
                out.append(T(rng.choice([t for t in STATIC_TEXTS if t not in ("&nbsp;", "&eacute;")]) if rng.random() < .85 else
                             compose(rng, ["<", "&x;", "]]>"]).replace("&", "&amp;") or " "))
            else:
                out.append(T(odd_misc(rng, False) if rng.random() < .4 else rng.choice(XML_MISC)))
        return out + [E(tag, p)]
    out = []
    if rng.random() < .3:
        out.append(T('<?xml version="1.0"%s?>' % rng.choice(ENCODINGS) + rng.choice(["", "\n"])))
    if rng.random() < .2:
        out.append(T(rng.choice(['<!DOCTYPE a SYSTEM "x.dtd">\n', "<!DOCTYPE  a\n PUBLIC 'p' 'q' >", "<!DOCTYPE a [<!ELEMENT a ANY> <!-- c -->\n]>", "<!DOCTYPE a>"])))
    if rng.random() < .2:
        out.append(T("<!-- head -->\n"))
    out += el(0, set())
    if rng.random() < .3:
        out.append(T(rng.choice(["\n", "<!-- end -->", "\n<?pi x?>\n"])))
    return out


# how a template given as text says it is encoded; of no consequence
ENCODINGS = ["", ' encoding="utf-8"', ' encoding="iso-8859-1"', ' encoding="us-ascii"', ' encoding="UTF-16"', ' encoding="windows-1252"', ' encoding="utf-8" standalone="yes"']


URIS = list(NS.values()) + ["urn:o1", "urn:o2"]
KIND = {v: k for k, v in NS.items()}


def nsdoc(rng, html, n=9, p_odd=.04):
    """Documents that declare, nest and rebind namespace prefixes."""
    st = {"n": rng.randrange(2, n), "k": 0, "m": 0}

    def statement(kind):
        st["k"] += 1
        e = "e%d" % st["k"]
        if rng.random() < p_odd:
            return A("foo", "bar", kind, "")
        if kind == "tal":
            return rng.choice([
                lambda: A("define", "x " + e, kind, [{"sc": "local", "n": "x", "e": e}]),
                lambda: A("condition", e, kind, e),
                lambda: A("content", e, kind, {"m": "text", "e": e}),
                lambda: A("attributes", "a " + e, kind, [{"n": "a", "e": e, "o": 1}]),
                lambda: A("omit-tag", e, kind, e)])()
        if kind == "metal":
            st["m"] += 1
            return A("define-macro", "m%d" % st["m"], kind, "m%d" % st["m"])
        return rng.choice([lambda: A("domain", rng.choice(["d1", "d2"]), kind, ""), lambda: A("translate", "", kind, "")])()

    def el(depth, env):
        st["n"] -= 1
        env = dict(env)
        decls = []
        for _ in range(rng.choice([0, 0, 1, 2]) if depth else rng.choice([1, 2, 3])):
            p = rng.choice(["tal", "metal", "i18n", "t", "x", "y", "talx", "TAL"] if not html else ["tal", "metal", "i18n", "t", "x", "y", "talx"])
            if p in [d["l"] for d in decls]:
                continue
            u = rng.choice(URIS)
            decls.append(A(p, u, "xmlns"))
            env[p] = u
        dflt = None
        if not html and rng.random() < .15:
            dflt = rng.choice(URIS)
            decls.append(A("xmlns", dflt))
            env[""] = dflt
        bound = [p for p in env if p]
        p = rng.choice(bound) if bound and rng.random() < .3 else ""
        if html and not p and rng.random() < .05:
            p = "unbound"
        kind = KIND.get(env.get(p, ""), "") if (p or not html) else ""
        used, at = set(), []
        for _ in range(rng.choice([0, 1, 2, 3])):
            ap = rng.choice(bound) if bound and rng.random() < .7 else ""
            if html and rng.random() < .05:
                ap = "nope"
            ak = KIND.get(env.get(ap, ""), "") if ap else kind
            if ak:
                a = dict(statement(ak), p=ap)
                key = (ak, a["l"])
            else:
                l = rng.choice(["a", "b", "define", "content", "condition", "lang"])
                a = A(l, rng.choice(["v", "x y", "1"]), ap, "")
                key = (env.get(ap, ap) if ap else "", l)
            if ak == "tal" and a["l"] == "content" and ("i18n", "translate") in used:
                continue
            if ak == "i18n" and a["l"] == "translate" and ("tal", "content") in used:
                continue
            if key in used and (rng.random() > p_odd * 5 or html and not ak):
                continue
            used.add(key)
            at.append(a)
        if html and any((a["p"], a["l"]) == ("", "a") for a in at) and sum((a["p"], a["l"]) == ("", "a") for a in at) > 1:
            at = []
        at += decls
        rng.shuffle(at)
        tag = rng.choice(["b", "i", "em", "w"])
        if p and kind:
            tag = rng.choice(["block", "b"])
        if rng.random() < .1:
            return [S(tag, at, p, sc=True)]
        out = [S(tag, at, p)]
        while rng.random() < .6:
            if st["n"] > 0 and depth < 5 and rng.random() < .7:
                out += el(depth + 1, env)
            else:
                out.append(T(rng.choice(["t", " ", "\n", "x y"])))
        return out + [E(tag, p)]
    start = dict(NS) if html else {}
    if html:
        out = []
        while st["n"] > 0:
            out += el(1, start)
            if rng.random() < .5:
                out.append(T("-"))
        return out
    return el(0, start)


# ------------------------------------------------------------------- faults
def statements(k, nm="n", sl="s1"):
    """all statements, with well-formed arguments"""
    e = "f%d" % k
    return [
        A("define", "x " + e, "tal", [{"sc": "local", "n": "x", "e": e}]),
        A("condition", e, "tal", e),
        A("content", e, "tal", {"m": "text", "e": e}),
        A("replace", e, "tal", {"m": "text", "e": e}),
        A("content", "structure " + e, "tal", {"m": "structure", "e": e}),
        A("repeat", "x " + e, "tal", {"n": "x", "e": e}),
        A("attributes", "a " + e, "tal", [{"n": "a", "e": e, "o": 1}]),
        A("on-error", e, "tal", {"m": "text", "e": e}),
        A("omit-tag", e, "tal", e),
        A("script", "lang", "tal", "lang"),
        A("translate", "", "i18n", ""),
        A("translate", "mid", "i18n", ""),
        A("domain", "d1", "i18n", "d1"),
        A("source", "en", "i18n", "en"),
        A("target", "en", "i18n", "en"),
        A("name", nm, "i18n", nm),
        A("data", e, "i18n", e),
        A("ignore", "", "i18n", ""),
        A("ignore-attributes", "a", "i18n", ""),
        A("attributes", "a m1", "i18n", [{"n": "a", "m": "m1", "o": 1}]),
        A("define-macro", "mm", "metal", "mm"),
        A("define-macro", " m1 ", "metal", "m1"),
        A("use-macro", e, "metal", e),
        A("extend-macro", e, "metal", e),
        A("define-slot", sl, "metal", sl),
        A("define-slot", " " + sl, "metal", sl),
        A("fill-slot", sl, "metal", sl),
        A("fill-slot", sl + " ", "metal", sl)]


def any_statement(rng, k):
    return rng.choice(statements(k, rng.choice(NAMES), rng.choice(SLOTS)))


def padded(rng, l, name):
    return A(l, rng.choice(["", "", " "]) + name + rng.choice(["", "", " "]), "metal", name)


def syntax_faults(k, html):
    """statements whose argument is malformed"""
    e = "f%d" % k
    return [A("define", v, "tal", [], "syn") for v in ["x", " ", "x;y", "local", ";", "x e;;;y", "global", "x " + e + "; y", " ;x e", "1x e", "x.y e", "-x e"]] + [
        A("attributes", v, "tal", [], "syn") for v in ["a", " ", "a b;c", ";", "a b;;;c", " ;a b"]] + [
        A("attributes", "a %s; a %s" % (e, e), "tal", [{"n": "a", "e": e, "o": 1}, {"n": "a", "e": e, "o": 1}]),
        A("attributes", "a %s; A %s" % (e, e), "tal",
          [{"n": "a", "e": e, "o": 1}, {"n": "a" if html else "A", "e": e, "o": 1 if html else 0}])] + [
        A("repeat", v, "tal", {"n": "!", "e": ""}) for v in ["x", " ", " x", "1x e", "x;y"]] + [
        A("attributes", v, "i18n", [], "syn") for v in ["a b c", "a m1; b m2 m3", "a b c;"]] + [
        A("attributes", "a m1; a m2", "i18n", [{"n": "a", "m": "m1", "o": 1}, {"n": "a", "m": "m2", "o": 1}]),
        A("attributes", "b;b", "i18n", [{"n": "b", "m": "", "o": 1}, {"n": "b", "m": "", "o": 1}])] + [
        A("data", v + e, "i18n", "!") for v in ["structure ", " structure  "]] + [
        A("name", v, "i18n", "") for v in ["1x", "a b", "-a", "a.b", "${x}", "a:b", " n", "n "]] + [
        bad(A(l, v, "metal", "")) for l in ["define-macro", "define-slot", "fill-slot"] for v in ["1x", "a b", "a.b", "x/y", "-a"]]


def syntax_fault(rng, k, html):
    return rng.choice(syntax_faults(k, html))


def bad(a):
    a["d"] = a["v"]
    return a


def expr_faults(k):
    """statements with an expression the compiler refuses"""
    e = "!f%d" % k
    return [
        A("define", "x " + e, "tal", [{"sc": "local", "n": "x", "e": e}]),
        A("define", "global y f; x " + e, "tal", [{"sc": "global", "n": "y", "e": "f"}, {"sc": "local", "n": "x", "e": e}]),
        A("condition", e, "tal", e),
        A("content", e, "tal", {"m": "text", "e": e}),
        A("replace", e, "tal", {"m": "text", "e": e}),
        A("content", "structure " + e, "tal", {"m": "structure", "e": e}),
        A("repeat", "x " + e, "tal", {"n": "x", "e": e}),
        A("attributes", "a f;b " + e, "tal", [{"n": "a", "e": "f", "o": 1}, {"n": "b", "e": e, "o": 2}]),
        A("on-error", e, "tal", {"m": "text", "e": e}),
        A("omit-tag", e, "tal", e),
        A("data", e, "i18n", e),
        A("use-macro", e, "metal", e),
        A("extend-macro", e, "metal", e)]


def expr_fault(rng, k):
    return rng.choice(expr_faults(k))


def unknowns():
    return [A(l, "x", p, "") for p in ("tal", "metal", "i18n")
            for l in ("foo", "defines", "contents", "define-macros", "translates", "on_error", "tal", "id", "repeat", "use-macro", "translate")
            if (p, l) not in (("tal", "repeat"), ("metal", "use-macro"), ("i18n", "translate"))]


CONTEXTS = [
    [], [A("translate", "", "i18n", "")], [A("translate", "mid", "i18n", "")], [A("define-macro", "mq", "metal", "mq")],
    [A("use-macro", "f9", "metal", "f9")], [A("content", "f8", "tal", {"m": "text", "e": "f8"}), A("translate", "", "i18n", "")],
    [A("repeat", "r f7", "tal", {"n": "r", "e": "f7"})]]


def sweep(html):
    """every statement and every kind of fault, once in each of some contexts; a statement without value"""
    empty = []
    for a in statements(1):
        empty.append(dict(a, v="", d="" if not isinstance(a["d"], (list, dict)) else a["d"]))
        if html:
            empty.append(dict(empty[-1], h=False))
    for a in statements(1) + syntax_faults(1, html) + expr_faults(1) + unknowns() + empty:
        for outer in CONTEXTS:
            for both in (False, True):
                inner = [dict(a)]
                if a["l"] == "data" or a["l"] == "extend-macro":
                    if both:
                        inner.insert(0, A("translate", "mid2", "i18n", "") if a["l"] == "data" else A("define-macro", "mz", "metal", "mz"))
                elif both:
                    continue
                slot = [A("fill-slot", "s9", "metal", "s9")] if outer and outer[0]["l"] == "use-macro" and a["l"] != "fill-slot" else []
                decl = [] if html else [A(p, NS[p], "xmlns") for p in ("tal", "metal", "i18n")]
                toks = [S("div", decl), T("\n "), S("div", [dict(x) for x in outer]), T("a")]
                if slot:
                    toks += [S("b", slot)]
                toks += [S("i", inner), T("b"), E("i"), T("c")]
                if slot:
                    toks += [E("b")]
                for t in toks:
                    if t["k"] == "S":
                        rerank(t)
                yield toks + [E("div"), T("\n"), E("div")]


def rerank(tok):
    names = set()
    at = [a for a in tok["attrs"] if a["l"] == "attributes" and isinstance(a["d"], list)]
    for a in at:
        names |= {x["n"] for x in a["d"]}
    order = {n: i + 1 for i, n in enumerate(sorted(names))}
    for a in at:
        for x in a["d"]:
            x["o"] = order[x["n"]]


def faulty(rng, html, prof, nfaults=None):
    """A valid document with some faults injected (and harmless additions)."""
    g = Gen(rng, html, **prof)
    toks = g.document()
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2]) if nfaults is None else nfaults):
        starts = [t for t in toks if t["k"] == "S" and not any(a["p"] == "xmlns" for a in t["attrs"])]
        if not starts:
            break
        t = rng.choice(starts)
        g.n += 1
        kind = rng.random()
        ctl = [a for a in t["attrs"] if a["p"] in ("tal", "metal", "i18n")]
        new = None
        if kind < .12:
            p = rng.choice(["tal", "metal", "i18n"])
            new = A(rng.choice(["foo", "defines", "contents", "define-macros", "translates", "on_error", "tal", "repeat2"]), "x", p, "")
        elif kind < .27 and ctl:
            a = rng.choice(ctl)
            a["v"] = ""
            if html and rng.random() < .5:
                a["h"] = False
            a["d"] = ""
        elif kind < .35 and ctl and html:
            new = dict(rng.choice(ctl))
        elif kind < .47:
            named = [a for u in toks if u["k"] == "S" for a in u["attrs"] if a["p"] == "metal" and a["l"] in ("fill-slot", "define-macro") and a["d"]]
            if not named:
                continue
            a = rng.choice(named)
            new = padded(rng, a["l"], a["d"])
        elif kind < .53:      # a translated element early on, a name later
            k = rng.randrange(len(starts))
            t, u = starts[k], starts[rng.randrange(k + 1)]
            for a in [A("translate", "", "i18n", "")] + ([A("content", "f%d" % g.n, "tal", {"m": "text", "e": "f%d" % g.n})] if rng.random() < .6 else []):
                if not any((b["p"], b["l"]) == (a["p"], a["l"]) for b in u["attrs"]):
                    u["attrs"].append(a)
            rerank(u)
            nm = rng.choice(NAMES)
            new = A("name", nm, "i18n", nm)
        elif kind < .67:
            new = any_statement(rng, g.n)
        elif kind < .8:
            new = syntax_fault(rng, g.n, html)
        else:
            new = expr_fault(rng, g.n)
        if new is not None:
            if new["l"] == "data" and rng.random() < .8 and not any(a["l"] in ("translate", "content", "replace") for a in t["attrs"]):
                t["attrs"].append(A("translate", "mid", "i18n", ""))
            same = [a for a in t["attrs"] if (a["p"], a["l"]) == (new["p"], new["l"])]
            if same and (not html or kind >= .35 and rng.random() < .8):
                t["attrs"].remove(same[0])
            t["attrs"].insert(rng.randrange(len(t["attrs"]) + 1), new)
        rerank(t)
    return g, toks
