"""Which documents, answers and options each property's check explores.

Every entry makes one case from a random source.  The specification decides
every case completely; `clauses` says which kinds of disagreement count."""
import case as C
import gen2
from gen import Gen
from gen import Policy
from serial import A
from serial import E
from serial import S
from serial import T
from serial import serialize

ALL = None
MACROS = dict(docs=2, defmacro=.25, usemacro=.25, extmacro=.3, defslot=.35, fillslot=.5, size=12)
I18N = dict(translate=.3, name=.5, data=.3, iattr=.3, domain=.15, vtrans=.4, i18n_ctx=.05, size=10)
WIDE = ["", "v", "a b c d", "1234567890", "&", "x" * 30, "<", "one\ntwo", "\n", "x" * 20 + "\n" + "y" * 12]
LINES = ["w", "two words", "a\nb c", "\n" + "x" * 9, "\n", "y" * 8 + "\n", "\n\nz", "0123456789"]


def P(prof=None, pol=None, opts=None, w=1, html=None):
    return dict(prof=prof or {}, pol=pol or {}, opts=opts or {}, w=w, html=html)


def pick(rng, entries):
    return rng.choices(entries, [e["w"] for e in entries])[0]


def mixed(*entries):
    def make(rng):
        e = pick(rng, entries)
        html = rng.random() < .5 if e["html"] is None else e["html"]
        prof = dict(e["prof"])
        if "style" not in prof and rng.random() < .2:
            prof["style"] = .15
        if rng.random() < .25:
            prof["size"] = rng.choice([3, 20])
        if rng.random() < .15:
            prof["p_control"] = .95
        opts = {k: (rng.choice(v) if isinstance(v, (list, tuple)) else v) for k, v in e["opts"].items()}
        return C.build(rng, html, prof, e["pol"], opts)
    return make


def raw(rng, html, toks, pol=None, opts=None, files=True, style=.1):
    g = Gen(rng, html)
    o = dict(C.OPTS)
    o.update(opts or {})
    src = serialize(toks, html, rng, style if rng.random() < .5 else 0)
    return C.run(g, [{"file": "f1.pt" if files else "", "toks": toks}], [src], html, o, rng, pol or {})


def c01(rng):
    if rng.random() < .5:
        return raw(rng, True, gen2.soup(rng, wild=0, void_end=0, n=rng.choice([6, 14, 30])), style=.25)
    return raw(rng, False, gen2.static_xml(rng, n=rng.choice([4, 10, 20])), style=.25)


def c02(rng):
    return raw(rng, True, gen2.soup(rng, control=rng.choice([0, 0, .1, .4]), n=rng.choice([6, 12, 24]), wild=.03, misc=.03))


def c03(rng):
    html = rng.random() < .5
    return raw(rng, html, gen2.nsdoc(rng, html, n=rng.choice([4, 9, 14])))


def c04(rng):
    html = rng.random() < .6
    prof = dict(MACROS, translate=.25, name=.4, data=.2, domain=.1, onerror=.1, size=rng.choice([2, 4, 8]), docs=1, script=.05, repeat=.15)
    g, toks = gen2.faulty(rng, html, prof)
    o = dict(C.OPTS, limit=6)
    if html and rng.random() < .1:
        toks = gen2.soup(rng, control=.4)
    src = serialize(toks, html, rng, .1 if rng.random() < .3 else 0)
    return C.run(g, [{"file": "f1.pt", "toks": toks}], [src], html, o, rng, {})


def c04_all(rng):
    """cases that are part of every run"""
    for html in (True, False):
        for toks in gen2.sweep(html):
            g = gen2.Gen(rng, html)
            yield C.run(g, [{"file": "f1.pt", "toks": toks}], [serialize(toks, html, rng, 0)], html, dict(C.OPTS, limit=6), rng, {})


def c13(rng):
    e = pick(rng, [
        P(I18N, dict(p_msg=.1)),
        P(dict(I18N, translate=.45, name=.6, pre=.15), dict(p_msg=.1), html=True, w=.5),
        P(dict(I18N, translate=.45, name=.6, pre=.3), dict(p_msg=.1), html=False, w=.2),
        P(dict(I18N, translate=.4, name=.6, pre=.15, onerror=.25, attributes=.4), dict(p_msg=.1, p_raise=.06), html=True, w=.4),
        P(dict(I18N, translate=.5, pre=.1, texts=["a", "\r\n", "b\r\n  c", "\t", "d\te", "\f", "f\fg", "  ", "h  i", "\r"]), dict(p_msg=.1, words=["w", "a\tb", " c\r\nd "]), html=True, w=.5),
        P(dict(I18N, onerror=.25), dict(p_msg=.1, p_raise=.08)),
        P(dict(MACROS, **dict(I18N, size=12)), dict(p_msg=.1), dict(limit=6), w=.6),
        P(I18N, dict(p_msg=.2), dict(interp=False), w=.3),
        P(dict(I18N, condition=.05, repeat=.3, define=.05), dict(p_msg=.1), w=.5)])
    return mixed(e)(rng)


c18 = mixed(P(dict(MACROS, omit=.25, p_ns=.15), {}, dict(limit=6, annot=True), w=2),
            P(dict(MACROS, docs=3, extmacro=.5, defslot=.5, fillslot=.7, size=14, omit=.15), {}, dict(limit=6, annot=True), w=2),
            P(dict(MACROS, omit=.25, onerror=.25, p_ns=.15), dict(p_raise=.06), dict(limit=6, annot=True), w=2),
            P(dict(omit=.3, onerror=.2, struct=.6, p_ns=.15, texts=["\n", "x", "\n  ", " ", "y"]), dict(p_markup=.5, p_raise=.03), dict(annot=True, strict=[True, False])),
            P(dict({**MACROS, **I18N}, omit=.3, p_ns=.3, docs=3), dict(p_msg=.1), dict(limit=6, annot=True), w=1.5),
            P(dict({**MACROS, **I18N}, omit=.3, p_ns=.3, onerror=.25), dict(p_raise=.06), dict(limit=6, annot=True)),
            P(dict(MACROS, script=.3, omit=.2), {}, dict(limit=6, annot=True), w=.5),
            P(dict(MACROS, omit=.2, attributes=.2), {}, dict(limit=6, annot=True, tal=[True, False], showtal=[True, False]), w=.7))


def chain(depth):
    """answers: the macro, depth times; then the element's own content"""
    def make(rng, g, macros, **kw):
        left = [depth]

        def answer(op, e, eng):
            if op != "macro":
                return Policy(rng, g, macros)(op, e, eng)
            left[0] -= 1
            return {"t": "macro", "doc": 1, "name": "m1"} if left[0] >= 0 else {"t": "d", "doc": 0, "name": ""}
        return answer
    return make


def c24_all(rng):
    """a macro that uses itself, to depths around limits of all sizes, the usual one too"""
    for limit in list(range(1, 9)) + [20, 64, 100, 100]:
        for depth in (limit - 1, limit, limit + 1):
            html = rng.random() < .5
            use = [S("i", [A("use-macro", "u1", "metal", "u1")])] + [T("y")] * rng.choice([0, 1]) + [E("i")]
            if rng.random() < .3:
                use = [S("u", [A("on-error", "h1", "tal", {"m": "text", "e": "h1"})])] + use + [E("u")]
            toks = [S("b", [A("define-macro", "m1", "metal", "m1")]), T("x")] + use + [E("b")]
            if not html or rng.random() < .5:
                toks = [S("r", Gen(rng, html).decls() if not html else [])] + toks + [E("r")]
            g = Gen(rng, html)
            o = dict(C.OPTS, limit=limit)
            yield C.run(g, [{"file": "f1.pt", "toks": toks}], [serialize(toks, html, rng, 0)], html, o, rng, {}, chain(depth))


def named(rng, g, macros, **kw):
    """answers: the macro the expression is named after"""
    def answer(op, e, eng):
        if op == "macro" and e in dict((n, d) for d, n in macros):
            return {"t": "macro", "doc": dict((n, d) for d, n in macros)[e], "name": e}
        return Policy(rng, g, macros)(op, e, eng)
    return answer


def c11_all(rng):
    """the body of a used macro: uses of macros and of extensions, extensions and macros defined in place, in every short order and nesting"""
    filler = [S("i", [A("fill-slot", "s1", "metal", "s1")]), T("F"), E("i")]
    leaves = [("U",), ("V",), ("X",), ("D",)]
    items = leaves + [("D", x) for x in leaves] + [("D", x, y) for x in leaves for y in leaves]
    for body in [(x,) for x in items] + [(x, y) for x in items for y in items]:
        html = rng.random() < .5
        made = [0]

        def toks(item, own=rng.random() < .3):
            made[0] += 1
            if item[0] in "UV":
                used = "mp" if item[0] == "U" else "mx"
                return [S("u", [A("use-macro", used, "metal", used)])] + (filler if own else []) + [E("u")]
            d = A("define-macro", "d%d" % made[0], "metal", "d%d" % made[0])
            if item[0] == "X":
                return [S("b", [d, A("extend-macro", "mj", "metal", "mj")]), E("b")]
            return [S("p" if not html else "em", [d])] + sum((toks(x) for x in item[1:]), []) + [E("p" if not html else "em")]
        base = [S("tt", [A("define-macro", "mj", "metal", "mj")]), S("s", [A("define-slot", "s1", "metal", "s1")]), T("d"), E("s"), E("tt"),
                S("tt", [A("define-macro", "mx", "metal", "mx"), A("extend-macro", "mj", "metal", "mj")])] + (filler if rng.random() < .3 else []) + [
                E("tt"), S("tt", [A("define-macro", "mp", "metal", "mp")]), T("p")] + \
               ([S("s", [A("define-slot", "s1", "metal", "s1")]), T("e"), E("s")] if rng.random() < .5 else []) + [E("tt")]
        top = [S("div", [A("define-macro", "mm", "metal", "mm")])] + sum((toks(x) for x in body), []) + [E("div")]
        use = [S("div", [A("use-macro", "mm", "metal", "mm")])] + filler + [E("div")]
        g = Gen(rng, html)
        all = [S("r", g.decls() if not html else [])] + base + top + use + [E("r")]
        o = dict(C.OPTS, limit=9, **(dict(tal=False, showtal=True) if rng.random() < .3 else {}))
        yield C.run(g, [{"file": "f1.pt", "toks": all}], [serialize(all, html, rng, 0)], html, o, rng, {}, named)


ALWAYS = {"C04": c04_all, "C11": c11_all, "C24": c24_all}
TABLE = {
    "C01": (c01, ALL),
    "C02": (c02, ALL),
    "C03": (c03, ALL),
    "C04": (c04, {"COMPILE", "COMPOS", "EXC", "EVAL"}),
    "C06": (mixed(P(), P(dict(MACROS), {}, dict(limit=6), w=.4), P(dict(repeat=.3, condition=.3), w=.5),
                  P(dict(I18N), dict(p_msg=.1), w=.3), P(dict(onerror=.2), dict(p_raise=.1), w=.3),
                  P(dict(script=.3), w=.3)), ALL),
    "C07": (mixed(P({}, dict(p_none=.25, p_default=.35)),
                  P(dict(boolattr=.8, attributes=.5), dict(p_none=.25, p_default=.35)),
                  P(dict(content=.35, replace=.25, struct=.5), dict(p_none=.25, p_default=.4)),
                  P(dict(MACROS), dict(p_mdefault=.5, p_default=.4), dict(limit=6), w=.6),
                  P(dict(I18N, content=.3, vtrans=.8, attributes=.4), dict(p_none=.2, p_default=.35, p_msg=.15))), ALL),
    "C08": (mixed(P(dict(content=.4, replace=.2, attributes=.5, struct=0, onerror=.1), dict(p_raise=.02, p_none=.05, p_default=.08)),
                  P(dict(content=.3, vtrans=.8, attributes=.5, iattr=.6, struct=0, translate=.3), dict(p_none=.05, p_default=.08, p_msg=.25)),
                  P(dict(attributes=.7, p_attr=.7, values=gen2.STATIC_VALUES), dict(p_none=.05, p_default=.2)),
                  P(dict(attributes=.6, content=.4, struct=0), dict(p_none=.05, p_default=.2), dict(showtal=True), w=.3)), ALL),
    "C09": (mixed(P(dict(define=.6, repeat=.25)),
                  P(dict(define=.5, repeat=.2, onerror=.25, **MACROS), dict(p_raise=.07), dict(limit=6)),
                  P(dict(define=.5, onerror=.35, repeat=.2), dict(p_raise=.12)),
                  P(dict(I18N, define=.5, onerror=.2), dict(p_raise=.06, p_msg=.1)),
                  P(dict(define=.5, **MACROS), {}, dict(limit=6))), ALL),
    "C10": (mixed(P(dict(onerror=.3), dict(p_raise=.12)),
                  P(dict(onerror=.3, **MACROS), dict(p_raise=.08), dict(limit=6)),
                  P(dict(I18N, onerror=.3), dict(p_raise=.08, p_msg=.1)),
                  P(dict(I18N, translate=.5, name=.8, onerror=.4, condition=.05, size=12), dict(p_raise=.12)),
                  P(dict(onerror=.3, size=16, repeat=.3), dict(p_raise=.06)),
                  P(dict(onerror=.3, struct=.7), dict(p_raise=.08), dict(strict=[True, False], wrap=[0, 0, 40]), w=.5),
                  P(dict(onerror=.25, script=.1, omit=.3, p_ns=.2, p_void=.1, p_self=.1), dict(p_raise=.1), w=.7)), ALL),
    "C11": (mixed(P(dict(MACROS, define=.1, content=.08, attributes=.05), {}, dict(limit=6)),
                  P(dict(MACROS, docs=3, extmacro=.6, define=.05, condition=.05, content=.05, replace=.03, attributes=.03, size=14),
                    dict(p_mdefault=.03), dict(limit=8)),
                  P(dict(MACROS, size=20, define=.05, content=.05, attributes=.03, repeat=.1, onerror=.05), dict(p_raise=.01), dict(limit=6), w=.5)), ALL),
    "C12": (mixed(P(dict(MACROS, **dict(I18N, size=12)), {}, dict(limit=6, tal=False, showtal=[True, False]), w=2),
                  P(dict(MACROS, define=.3, onerror=.1), {}, dict(limit=6, tal=False, showtal=True)),
                  P(dict(MACROS), {}, dict(limit=6, tal=True, showtal=True), w=1),
                  P(dict(MACROS, usemacro=.4, onerror=.3, content=.3), dict(p_raise=.12), dict(limit=6, tal=True, showtal=True), w=1),
                  P(dict(MACROS, attributes=.4), {}, dict(limit=6, tal=[True, False], metal=False, showtal=[True, False]), w=.6)), ALL),
    "C13": (c13, ALL),
    "C14": (mixed(P(dict(I18N, domain=.4, i18n_ctx=.1), dict(p_msg=.1)),
                  P(dict(MACROS, **dict(I18N, domain=.35, size=12, translate=.35)), dict(p_msg=.1), dict(limit=6), w=1.5),
                  P(dict(I18N, domain=.4, onerror=.3), dict(p_raise=.08, p_msg=.1)),
                  P(dict(MACROS, **dict(I18N, domain=.35, size=12, translate=.3, onerror=.2)), dict(p_msg=.1, p_raise=.05), dict(limit=6))), ALL),
    "C15": (mixed(P(dict(content=.35, replace=.3, struct=.8, attributes=.3), dict(p_none=.05, p_default=.08, p_markup=.8, p_fragctl=.25, p_badfrag=.05), dict(strict=[True, True, False])),
                  P(dict(replace=.5, struct=.9, attributes=.6, boolattr=.4), dict(p_none=.05, p_default=.08, p_markup=.9, p_fragctl=.2), dict(strict=[True, False])),
                  P(dict(content=.3, replace=.3, struct=.8, translate=.3, vtrans=.8, iattr=.4, attributes=.3), dict(p_msg=.3, p_markup_tr=.7, p_markup=.7, p_fragctl=.2, p_badfrag=.03), dict(strict=[True, False])),
                  P(dict(MACROS, struct=.8, content=.2, replace=.2), dict(p_markup=.7, p_fragctl=.2), dict(limit=6), w=.4),
                  P(dict(content=.3, replace=.3, struct=.8, onerror=.3, attributes=.2), dict(p_markup=.8, p_badfrag=.25, p_raise=.02), dict(strict=[True, True, False]), w=.6),
                  P(dict(content=.3, replace=.3, struct=.8, attributes=.3, **MACROS), dict(p_markup=.8, p_fragctl=.3), dict(limit=6, showtal=True), w=.3)), ALL),
    "C17": (mixed(P(dict(onerror=.2), dict(p_raise=.06)),
                  P(dict(MACROS), {}, dict(limit=6), w=1.5),
                  P(dict(MACROS, docs=3, extmacro=.5, onerror=.2), dict(p_raise=.04), dict(limit=6), w=1.5),
                  P(dict(I18N, onerror=.15), dict(p_raise=.04, p_msg=.1))), ALL),
    "C19": (mixed(P(dict(attributes=.6, p_attr=.8, size=3, values=["v", "x" * 280, "y" * 250]), dict(words=["w", "0123456789" * 30, "z" * 255]), dict(wrap=[1023, 1023, 500]), w=.15),
                  P(dict(attributes=.6, p_attr=.8, size=6, repeat=.1, values=WIDE), dict(words=["w", "two words", "0123456789" * 3, "", "&<", "abcdefghij", "l1\nline 2"], p_none=.05),
                    dict(wrap=[0, 1, 7, 8, 9, 10, 15, 20, 25, 30, 40, 60, 80])),
                  P(dict(attributes=.5, content=.4, replace=.3, p_attr=.8, size=8, struct=.3, texts=["x", "\n", " "], values=["v", "12345"]), dict(words=LINES), dict(wrap=[9, 10, 12, 15, 18, 20, 25, 30])),
                  P(dict(MACROS, attributes=.5, p_attr=.8, values=WIDE), dict(words=["w", "two words"]),
                    dict(wrap=[10, 20, 30, 40, 60, 80], limit=6, showtal=[True, False], tal=[True, False])),
                  P(dict(onerror=.25, attributes=.5, p_attr=.6, values=WIDE), dict(p_raise=.08, words=["w", "two words", "x" * 25, "a\n"]), dict(wrap=[10, 20, 30, 40, 60]), w=.5),
                  P(dict(I18N, attributes=.5, p_attr=.7, values=WIDE), dict(p_msg=.1, words=["w", "two words", "0123456789" * 2, "a\nb c"]), dict(wrap=[10, 20, 30, 40, 60, 80]), w=.7),
                  P(dict(script=.3, attributes=.5, p_attr=.7, struct=.6, values=WIDE), dict(words=["w", "two words", "0123456789" * 2, "a\nb c"]), dict(strict=[True, False], wrap=[10, 20, 30, 40, 60, 80]), w=.5)),
            ALL),
    "C22": (mixed(P(dict(attributes=.7, p_attr=.8, boolattr=.3)),
                  P(dict(attributes=.6, p_attr=.8, iattr=.7), dict(p_msg=.15)),
                  P(dict(attributes=.7, p_attr=.8, boolattr=.9), dict(p_default=.3, p_none=.2)),
                  P(dict(attributes=.6, p_attr=.8, iattr=.5), dict(p_msg=.1), dict(interp=False), w=.3)), ALL),
    "C23": (mixed(P(dict(repeat=.5)),
                  P(dict(repeat=.5, texts=["\n", "\n  ", "\n\t", "x\n ", " \n", "\n \n ", "a", "  ", "\n  "])),
                  P(dict(repeat=.5, texts=["\r\n", "\r\n  ", "\r\n\t", "x\r\n ", "\n", "\n ", "\r", "a", " \r\n", "\r\n\r\n ", "\n\r"]), html=True, w=.6),
                  P(dict(MACROS, repeat=.4, texts=["\n", "\n  ", "x\n ", "a", "  "]), {}, dict(limit=6)),
                  P(dict(repeat=.5, onerror=.2, texts=["\n", "\n  ", "x\n ", "a"]), dict(p_raise=.05), w=.5),
                  P(dict(repeat=.5, texts=["\n", "\n  ", "x\n ", "a"]), dict(maxloop=7)),
                  P(dict(I18N, repeat=.4, texts=["\n", "\n  ", "x\n ", "a", "  ", "\n\n"]), dict(p_msg=.05)),
                  P(dict(MACROS, **dict(I18N, repeat=.3, size=12, texts=["\n", "\n  ", "x\n ", "a"])), {}, dict(limit=6), w=.5),
                  P(dict(repeat=.5, struct=.6, omit=.3, script=.1, p_void=.1, texts=["\n", "\n  ", "x\n ", "a", "  "]), dict(p_markup=.5), w=.5),
                  P(dict(repeat=.4), {}, dict(tal=False, showtal=[True, False]), w=.3)), ALL),
    "C24": (mixed(P(dict(MACROS, usemacro=.4), dict(p_bad=.12), dict(limit=[1, 2, 3, 6])),
                  P(dict(MACROS, usemacro=.45, onerror=.3), dict(p_bad=.12, p_raise=.03, p_mdefault=.03), dict(limit=[1, 2, 3, 6])),
                  P(dict(MACROS, usemacro=.5, size=16, define=.05, condition=.03, repeat=.1, content=.03, onerror=.15),
                    dict(p_bad=.02, p_mdefault=.02), dict(limit=[2, 3, 4, 5, 7])),
                  P(dict(MACROS, defmacro=.4, usemacro=.4, defslot=.6, fillslot=.8, onerror=.4, content=.3, size=14),
                    dict(p_raise=.2), dict(limit=[1, 2, 3, 6]))), ALL),
}
