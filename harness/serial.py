"""Tokens -> template source.  Fills in positions (tok['pos'])."""

NS = {"tal": "http://xml.zope.org/namespaces/tal",
      "metal": "http://xml.zope.org/namespaces/metal",
      "i18n": "http://xml.zope.org/namespaces/i18n"}


def qname(p, l):
    return l if not p else p + ":" + l


def esc_attr(v, quote, rng, xml):
    v = v.replace("&", "&amp;").replace("<", "&lt;")
    v = v.replace(">", "&gt;") if rng is None or rng.random() < .8 else v
    if quote == '"':
        v = v.replace('"', "&quot;")
    else:
        v = v.replace("'", "&#39;")
    if xml:
        v = v.replace("\n", "&#10;").replace("\t", "&#9;")
    return v


def randcase(s, rng):
    return "".join(c.upper() if rng.random() < .5 else c for c in s)


def serialize(toks, html, rng=None, style=0.0):
    """style: probability of unusual but equivalent spellings."""
    out, line, col = [], 1, 0

    def put(s):
        nonlocal line, col
        out.append(s)
        n = s.count("\n")
        if n:
            line += n
            col = len(s) - s.rfind("\n") - 1
        else:
            col += len(s)

    def odd():
        return rng is not None and style and rng.random() < style
    for t in toks:
        if t["k"] in "TX":
            put(t["s"])
            continue
        t["pos"] = "%d:%d" % (line, col)
        name = qname(t["p"], t["l"])
        if t["k"] == "E":
            if html and odd():
                name = randcase(name, rng)
            put("</%s%s>" % (name, " " if odd() else ""))
            continue
        put("<" + (randcase(name, rng) if html and odd() else name))
        for a in t["attrs"]:
            put(rng.choice(["\n  ", "  ", "\t"]) if odd() else " ")
            an = qname(a["p"], a["l"])
            if html and a["p"] != "xmlns" and odd():
                an = randcase(an, rng)
            if not a["h"]:
                put(an)
                continue
            raw = a.get("raw", a["v"])
            if html and raw and raw.isalnum() and odd():
                put(an + "=" + raw)
            elif odd():
                put(an + " = '" + esc_attr(raw, "'", rng, not html) + "'")
            else:
                put(an + '="' + esc_attr(raw, '"', rng, not html) + '"')
        put((" />" if html or odd() else "/>") if t["sc"] else (" >" if odd() else ">"))
        t["epos"] = "%d:%d" % (line, col)
    return "".join(out)


def S(l, attrs=(), p="", sc=False):
    return {"k": "S", "p": p, "l": l, "attrs": list(attrs), "pos": "-", "epos": "-", "sc": sc}


def E(l, p=""):
    return {"k": "E", "p": p, "l": l, "pos": "-"}


def T(s):
    return {"k": "T", "s": s}


def A(l, v=None, p="", d="", f=""):
    """attribute; v None: no value"""
    return {"p": p, "l": l, "v": "" if v is None else v, "h": v is not None, "d": d, "f": f}
