----------------------------- MODULE TalParse ------------------------------
(* From a stream of markup tokens to a template tree, or to a compile-time  *)
(* error.  Tokens (pos is an opaque position):                              *)
(*   [k |-> "S", p, l, attrs, pos, sc]   start tag (sc: self-closed)        *)
(*   [k |-> "E", p, l, pos]              end tag                            *)
(*   [k |-> "T", s]                      text, comment, declaration, ...    *)
(*   [k |-> "X", s]                      something no XML reader accepts    *)
(* An attribute is [p, l, v, h, d, f]: prefix, local name, value, whether   *)
(* it has a value, the parsed statement argument (meaningful only if the    *)
(* attribute turns out to be control markup) and a fault in that argument   *)
(* ("" or "syn").                                                           *)
EXTENDS TalText, Integers

TALNS == "http://xml.zope.org/namespaces/tal"
METALNS == "http://xml.zope.org/namespaces/metal"
I18NNS == "http://xml.zope.org/namespaces/i18n"
NsKind(uri) == CASE uri = TALNS -> "tal" [] uri = METALNS -> "metal" [] uri = I18NNS -> "i18n" [] OTHER -> ""

(*---------------------------- HTML tag classes ----------------------------*)
VoidTags == {"base","meta","link","hr","br","param","img","area","input","col","basefont","isindex","frame"}
ParaTags == {"h1","h2","h3","h4","h5","h6","p"}
ClosesMap == [tr |-> {"tr","td","th"}, td |-> {"td","th"}, th |-> {"td","th"},
              li |-> {"li"}, dd |-> {"dd","dt"}, dt |-> {"dd","dt"}]
BlockTags == {"blockquote","table","tr","th","td","thead","tfoot","tbody","noframe","ul","ol","li","dl","dt","dd","div","nav"}
TightTags == ParaTags \cup DOMAIN ClosesMap

KnownTal == {"define","condition","content","replace","repeat","attributes","on-error","omit-tag","script"}
KnownMetal == {"define-macro","extend-macro","use-macro","define-slot","fill-slot"}
KnownI18n == {"translate","domain","target","source","attributes","data","name","ignore","ignore-attributes"}

QName(p, l) == IF p = "" THEN l ELSE p \o ":" \o l
BadExpr(e) == Len(e) > 0 /\ Ch(e, 1) = "!"
NoPos == "-"

(*------------------------------ parser state ------------------------------*)
(* conts: stack of containers; each collects the nodes of one control        *)
(*        element (the bottom one collects the document).                   *)
(* open:  stack of open elements [nm, ctl, hdr, ns, lex, ...].               *)
ParseInit(html, file, frag, repl) ==
  [html |-> html, file |-> file, frag |-> frag, repl |-> repl,
   conts |-> << <<>> >>, open |-> <<>>,
   ns |-> IF html THEN [x \in {"tal","metal","i18n"} |->
                         CASE x = "tal" -> TALNS [] x = "metal" -> METALNS [] OTHER -> I18NNS]
          ELSE [x \in {"xml"} |-> "http://www.w3.org/XML/1998/namespace"],
   lex |-> [on |-> FALSE, dom |-> "default", src |-> "", tgt |-> ""],
   lvl |-> 0, inUse |-> FALSE, inDef |-> 0,
   slots |-> << >>, macros |-> EmptyMap, err |-> {}]

Emit(ps, node) == [ps EXCEPT !.conts = Append(Front(@), Append(Last(@), node))]
TextNode(s) == [t |-> "tx", s |-> s, w |-> TRUE, o |-> FALSE]      \* raw text
MarkNode(s, o) == [t |-> "tx", s |-> s, w |-> FALSE, o |-> o]       \* a tag; o: start tag, element still empty
Fail(ps, e) == [ps EXCEPT !.err = e]

(* Trailing raw text of the current container.                              *)
RECURSIVE TrailNodes(_, _)
TrailNodes(q, i) == IF i >= 1 /\ q[i].t = "tx" /\ q[i].w THEN TrailNodes(q, i - 1) ELSE i + 1
TrailText(q) == LET j == TrailNodes(q, Len(q)) IN Cat([i \in 1..(Len(q) - j + 1) |-> q[j + i - 1].s])
CutTrail(q, n) ==  \* drop the last n characters of the trailing text
  LET j == TrailNodes(q, Len(q))
      s == TrailText(q)
      r == SubSeq(s, 1, Len(s) - n)
  IN SubSeq(q, 1, j - 1) \o (IF r = "" THEN <<>> ELSE <<TextNode(r)>>)

(*------------------------- namespaces and attributes ----------------------*)
RECURSIVE BindAll(_, _, _)
BindAll(ns, attrs, i) ==
  IF i > Len(attrs) THEN ns
  ELSE LET a == attrs[i] IN
       BindAll(IF a.p = "xmlns" THEN Put(ns, a.l, a.v)
               ELSE IF a.p = "" /\ a.l = "xmlns" THEN Put(ns, "", a.v) ELSE ns, attrs, i + 1)
UriOf(ns, p) == Get(ns, p, "")
IsDecl(a) == a.p = "xmlns" \/ (a.p = "" /\ a.l = "xmlns")
(* In HTML only prefixed names take part; the default namespace is inert.    *)
TagKind(ps, ns, tok) == IF tok.p = "" /\ ps.html THEN "" ELSE NsKind(UriOf(ns, tok.p))
AttrKind(ps, ns, tagkind, a) ==
  IF IsDecl(a)
  THEN IF ps.html
       THEN IF a.p = "xmlns" THEN (IF NsKind(a.v) # "" THEN "xmlns" ELSE "") ELSE tagkind
       ELSE IF NsKind(a.v) # "" THEN "xmlns" ELSE ""
  ELSE IF a.p = "" THEN tagkind
  ELSE NsKind(UriOf(ns, a.p))

Has(q, k, l) == \E i \in 1..Len(q) : q[i].k = k /\ q[i].l = l
Arg(q, k, l) == q[CHOOSE i \in 1..Len(q) : q[i].k = k /\ q[i].l = l]
ValOf(q, k, l) == IF Has(q, k, l) THEN Arg(q, k, l).v ELSE ""
Missing(a) == ~a.h \/ a.v = ""
Given(q, k, l) == Has(q, k, l) /\ ~Missing(Arg(q, k, l))

(* XML: namespace declarations are written before the other attributes.     *)
DeclsFirst(attrs) == LET D(a) == IsDecl(a)  N(a) == ~IsDecl(a)
                     IN SelFrom(attrs, D, 1) \o SelFrom(attrs, N, 1)

(*------------------------------ rendering of tags -------------------------*)
StaticAttr(a) == IF ~a.h THEN a.n ELSE a.n \o "=\"" \o AttrEscape(a.v) \o "\""
RECURSIVE StaticAttrs(_, _)
StaticAttrs(attrs, i) == IF i > Len(attrs) THEN "" ELSE " " \o StaticAttr(attrs[i]) \o StaticAttrs(attrs, i + 1)
CloseSep(html, sc) == IF ~sc THEN ">" ELSE IF html THEN " />" ELSE "/>"
AllStatic(attrs) == \A i \in 1..Len(attrs) : attrs[i].k = ""

(*--------------------------------- start tag ------------------------------*)
NoD == [defs |-> <<>>, cond |-> "", rep |-> [n |-> "", e |-> ""], repl |-> FALSE,
        cont |-> [m |-> "", e |-> ""], omit |-> [h |-> FALSE, e |-> ""], subs |-> <<>>,
        onerr |-> [m |-> "", e |-> ""], script |-> "", ttag |-> "", attr |-> FALSE]
NoI == [tr |-> FALSE, msgid |-> "", data |-> "", nm |-> "", ia |-> <<>>, ictx |-> ""]
NoM == [defm |-> "", usem |-> "", ext |-> FALSE, defs |-> "", fill |-> ""]

DupControl(q) == {q[i].k : i \in {j \in 1..Len(q) : q[j].k \in {"tal","metal","i18n"}
                                  /\ \E m \in 1..(j-1) : q[m].k = q[j].k /\ q[m].l = q[j].l}}
ErrClass(k) == CASE k = "tal" -> "TALError" [] k = "metal" -> "METALError" [] OTHER -> "I18NError"

DupNames(q) == \E i, j \in 1..Len(q) : i < j /\ q[i].n = q[j].n

(* All the rules an element can break when its start tag is read.           *)
StartFaults(ps, q, pos) ==
  LET T(l) == Given(q, "tal", l)
      M(l) == Given(q, "metal", l)
      I(l) == Given(q, "i18n", l)
      d(k, l) == Arg(q, k, l).d
      f(k, l) == Arg(q, k, l).f
      inUse == ps.inUse /\ ~M("fill-slot")
      E(c) == {<<c, pos>>}
      When(b, s) == IF b THEN s ELSE {}
  IN UNION {
     When(Has(q, "tal", "replace") /\ Has(q, "tal", "content"), E("TALError")),
     When(\E i \in 1..Len(q) : q[i].k = "tal" /\ q[i].l \notin KnownTal, E("TALError")),
     When(\E i \in 1..Len(q) : q[i].k = "tal" /\ q[i].l # "omit-tag" /\ Missing(q[i]), E("TALError")),
     When(\E i \in 1..Len(q) : q[i].k = "metal" /\ q[i].l \notin KnownMetal, E("METALError")),
     When(\E i \in 1..Len(q) : q[i].k = "metal" /\ Missing(q[i]), E("TALError")),
     When(\E i \in 1..Len(q) : q[i].k = "i18n" /\ q[i].l \notin KnownI18n, E("I18NError")),
     When(\E i \in 1..Len(q) : q[i].k = "i18n" /\ q[i].l \in {"attributes","data"} /\ Missing(q[i]), E("I18NError")),
     When(I("name") /\ ps.lvl = 0, E("I18NError")),
     When(I("data") /\ ~I("translate"), E("I18NError")),
     When(M("extend-macro") /\ (M("use-macro") \/ ~M("define-macro")), E("METALError")),
     When((M("define-macro") \/ M("extend-macro") \/ M("use-macro")) /\ (M("fill-slot") \/ M("define-slot")), E("METALError")),
     When(M("define-macro") /\ M("use-macro"), E("METALError")),
     When((T("content") \/ T("replace")) /\ I("translate"), E("I18NError")),
     When(M("fill-slot") /\ ~ps.inUse, E("METALError")),
     When(M("define-slot") /\ ~inUse /\ ps.inDef = 0, E("METALError")),
     When(T("define") /\ (f("tal","define") # "" \/ \E i \in 1..Len(d("tal","define")) : BadExpr(d("tal","define")[i].e)), E("TALError")),
     When(T("attributes") /\ (f("tal","attributes") # "" \/ DupNames(d("tal","attributes"))), E("TALError")),
     When(T("attributes") /\ \E i \in 1..Len(d("tal","attributes")) : BadExpr(d("tal","attributes")[i].e), E("TALError")),
     When(I("attributes") /\ (f("i18n","attributes") # "" \/ DupNames(d("i18n","attributes"))), E("TALError")),
     When(T("attributes") /\ I("attributes") /\
          \E i \in 1..Len(d("tal","attributes")), j \in 1..Len(d("i18n","attributes")) :
             d("tal","attributes")[i].n = d("i18n","attributes")[j].n /\ d("i18n","attributes")[j].m # "", E("I18NError")) }

(* Insert the element header for tok; ends in an open element.               *)
(* q: attributes with resolved kind; tk: namespace kind of the tag itself.   *)
OpenElement(ps0, tok, q, tk, nsNew, isend) ==
  LET nm == QName(tok.p, tok.l)
      attrs == [i \in 1..Len(q) |-> [n |-> QName(q[i].p, q[i].l), v |-> q[i].v, h |-> q[i].h, k |-> q[i].k]]
      K(k) == \E i \in 1..Len(q) : q[i].k = k
      server == ps0.html /\ nm = "script" /\ \E i \in 1..Len(attrs) : attrs[i].n = "type" /\ attrs[i].h
                    /\ StartsAt(attrs[i].v, 1, "text/server-")
      useRepl == ps0.frag /\ (ps0.repl.subs # <<>> \/ ps0.repl.ia # <<>>)
      hasT == IF ps0.frag THEN useRepl ELSE K("tal") \/ tk # "" \/ server
      hasM == ~ps0.frag /\ K("metal")
      hasI == ~ps0.frag /\ K("i18n")
      control == hasT \/ hasM \/ hasI
      saved == [nm |-> nm, ns |-> ps0.ns, lex |-> ps0.lex, ctl |-> FALSE, hdr |-> [t |-> "-"], slots |-> ps0.slots, isend |-> isend, lvl |-> FALSE]
      ps == [ps0 EXCEPT !.ns = nsNew]
  IN
  IF ~control
  THEN \* plain markup
    LET node == IF AllStatic(attrs) THEN MarkNode("<" \o nm \o StaticAttrs(attrs, 1) \o CloseSep(ps.html, isend), ~isend)
                ELSE [t |-> "tg", nm |-> nm, attrs |-> attrs, sep |-> CloseSep(ps.html, isend), o |-> ~isend]
    IN [Emit(ps, node) EXCEPT !.open = Append(@, saved)]
  ELSE
  LET faults == IF ps.frag THEN {} ELSE StartFaults(ps, q, tok.pos) IN
  IF faults # {} THEN Fail(ps, faults)
  ELSE
  LET T(l) == ~ps.frag /\ Given(q, "tal", l)
      M(l) == ~ps.frag /\ Given(q, "metal", l)
      I(l) == ~ps.frag /\ Given(q, "i18n", l)
      d(k, l) == Arg(q, k, l).d
      useEx == IF M("use-macro") THEN d("metal","use-macro") ELSE IF M("extend-macro") THEN d("metal","extend-macro") ELSE ""
      \* region rules
      inUse1 == ps.inUse /\ ~M("fill-slot")
      fill == IF ps.inUse /\ M("fill-slot") THEN d("metal","fill-slot") ELSE ""
      defm == IF ~inUse1 /\ M("define-macro") THEN d("metal","define-macro") ELSE ""
      usem == IF ~inUse1 THEN useEx ELSE ""
      defs == IF ~inUse1 /\ M("define-slot") THEN d("metal","define-slot") ELSE ""
      \* lexical translation context
      dom == IF I("domain") THEN ValOf(q, "i18n", "domain") ELSE ps.lex.dom
      src == IF I("source") THEN ValOf(q, "i18n", "source") ELSE ps.lex.src
      tgt == IF I("target") THEN ValOf(q, "i18n", "target") ELSE ps.lex.tgt
      ctx == (M("define-slot") \/ hasI) /\ (I("domain") \/ ps.lex.on \/ src # "" \/ tgt # "")
      cont == IF T("replace") THEN d("tal","replace") ELSE IF T("content") THEN d("tal","content") ELSE [m |-> "", e |-> ""]
      omit == IF server THEN [h |-> TRUE, e |-> ""]
              ELSE IF ~ps.frag /\ Has(q, "tal", "omit-tag") THEN [h |-> TRUE, e |-> Arg(q, "tal", "omit-tag").v]
              ELSE [h |-> T("replace"), e |-> ""]
      D == [defs |-> IF T("define") THEN d("tal","define") ELSE <<>>,
            cond |-> IF T("condition") THEN d("tal","condition") ELSE "",
            rep |-> IF T("repeat") THEN d("tal","repeat") ELSE [n |-> "", e |-> ""],
            repl |-> T("replace"), cont |-> cont, omit |-> omit,
            subs |-> IF ps.frag THEN ps.repl.subs ELSE IF T("attributes") THEN d("tal","attributes") ELSE <<>>,
            onerr |-> IF T("on-error") THEN d("tal","on-error") ELSE [m |-> "", e |-> ""],
            script |-> IF server THEN ValOf([i \in 1..Len(q) |-> [q[i] EXCEPT !.k = "x"]], "x", "type")
                       ELSE IF T("script") THEN d("tal","script") ELSE "",
            ttag |-> IF server \/ ps.frag THEN "" ELSE tk, attr |-> TRUE]
      It == [tr |-> ~ps.frag /\ Has(q, "i18n", "translate"), msgid |-> IF ps.frag THEN "" ELSE ValOf(q, "i18n", "translate"),
            data |-> IF I("data") THEN d("i18n","data") ELSE "", nm |-> IF I("name") THEN ValOf(q, "i18n", "name") ELSE "",
            ia |-> IF ps.frag THEN ps.repl.ia ELSE IF I("attributes") THEN d("i18n","attributes") ELSE <<>>,
            ictx |-> IF ctx THEN dom ELSE ""]
      Mt == [defm |-> defm, defv |-> IF defm = "" THEN "" ELSE ValOf(q, "metal", "define-macro"), usem |-> usem, ext |-> M("extend-macro"), defs |-> defs, fill |-> fill]
      ws == IF T("repeat") THEN NewlineTail(TrailText(Last(ps.conts))) ELSE ""
      hdr == [t |-> "el", o |-> FALSE, nm |-> nm, pos |-> tok.pos, epos |-> tok.pos, isend |-> isend, sc |-> isend,
              attrs |-> IF server THEN SelectSeq(attrs, LAMBDA a : a.n # "type") ELSE attrs,
              D |-> D, I |-> It, M |-> Mt, hasT |-> hasT, hasI |-> hasI,
              ws |-> ws, file |-> ps.file, html |-> ps.html, frag |-> ps.frag, kids |-> <<>>, slots |-> EmptyMap, empty |-> FALSE]
      todo == hasT \/ hasI \/ ctx \/ fill # "" \/ defm # "" \/ usem # "" \/ defs # ""
      cut == IF ws # "" THEN [ps EXCEPT !.conts = Append(Front(@), CutTrail(Last(@), Len(ws)))] ELSE ps
  IN [cut EXCEPT
        !.open = Append(@, [saved EXCEPT !.ctl = todo, !.hdr = hdr, !.lvl = It.tr]),
        !.conts = Append(@, <<>>),
        !.lex = IF ctx THEN [on |-> TRUE, dom |-> dom, src |-> src, tgt |-> tgt] ELSE @,
        !.lvl = IF It.tr THEN @ + 1 ELSE @,
        !.inUse = IF usem # "" THEN TRUE ELSE inUse1,
        !.inDef = IF defm # "" THEN @ + 1 ELSE @,
        !.slots = IF usem # "" THEN EmptyMap ELSE @,
        !.repl = [subs |-> <<>>, ia |-> <<>>]]

EndFaults(ps, h, implied) ==
  LET E(c) == {<<c, h.pos>>}
      When(b, s) == IF b THEN s ELSE {}
      metal == h.M.defm # "" \/ h.M.usem # "" \/ h.M.defs # "" \/ h.M.fill # ""
  IN IF implied THEN E(IF metal THEN "METALError" ELSE "TALError")
  ELSE UNION {
     When(h.D.cont.m # "" /\ BadExpr(h.D.cont.e), E("TALError")),
     When(h.I.data = "!", E("I18NError")),
     When(BadExpr(h.I.data), E("TALError")),
     When(h.D.omit.h /\ BadExpr(h.D.omit.e), E("TALError")),
     When(h.I.nm # "" /\ ~IsName(h.I.nm), E("TALError")),
     When(h.D.rep.n = "!" \/ BadExpr(h.D.rep.e), E("TALError")),
     When(BadExpr(h.D.cond), E("TALError")),
     When(h.D.onerr.m # "" /\ BadExpr(h.D.onerr.e), E("TALError")),
     When(h.M.defs # "" /\ ~IsName(h.M.defs), E("METALError")),
     When(h.M.fill # "" /\ (~IsName(h.M.fill) \/ h.M.fill \in DOMAIN ps.slots), E("METALError")),
     When(BadExpr(h.M.usem), E("TALError")),
     When(h.M.defm # "" /\ (~IsName(h.M.defm) \/ h.M.defm \in DOMAIN ps.macros), E("METALError")) }

(* Close the innermost open element.  implied: no end tag was written for    *)
(* it (and the element is not a void one); noend: it has no end tag at all.  *)
CloseElement(ps, implied, noend, pos) ==
  LET o == Last(ps.open)
      h == o.hdr
      base == [ps EXCEPT !.open = Front(@), !.ns = o.ns]
  IN
  IF h.t = "-"
  THEN \* plain markup
    LET c == Last(ps.conts)
        min == ~ps.html /\ c # <<>> /\ Last(c).o
        min2(x) == IF x.t = "tg" THEN [x EXCEPT !.sep = "/>", !.o = FALSE]
                   ELSE [x EXCEPT !.s = SubSeq(@, 1, Len(@) - 1) \o "/>", !.o = FALSE]
    IN IF noend THEN base
       ELSE IF min THEN [base EXCEPT !.conts = Append(Front(@), Append(Front(c), min2(Last(c))))]
       ELSE Emit(base, MarkNode("</" \o o.nm \o ">", FALSE))
  ELSE
  LET faults == IF implied /\ ~o.ctl THEN {} ELSE EndFaults(ps, h, implied)
      kids == Last(ps.conts)
      xmlmin == ~ps.html /\ kids = <<>> /\ h.D.cont.m = "" /\ ~h.I.tr /\ h.D.script = "" /\ (h.I.nm = "" \/ h.D.omit.h \/ h.D.ttag # "")
      node == [h EXCEPT !.kids = kids, !.epos = pos, !.isend = noend \/ xmlmin, !.sc = @ \/ xmlmin,
                        !.slots = IF h.M.usem # "" THEN ps.slots ELSE @, !.empty = kids = <<>>]
      outer == [base EXCEPT
                  !.conts = Front(@),
                  !.lex = o.lex,
                  !.lvl = IF o.lvl THEN @ - 1 ELSE @,
                  !.inUse = IF h.M.usem # "" THEN FALSE ELSE IF h.M.fill # "" THEN TRUE ELSE @,
                  !.inDef = IF h.M.defm # "" THEN @ - 1 ELSE @,
                  !.slots = IF h.M.usem # "" THEN o.slots ELSE IF h.M.fill # "" THEN Put(@, h.M.fill, node) ELSE @,
                  !.macros = IF h.M.defm # "" THEN Put(@, h.M.defm, node) ELSE @]
  IN IF faults # {} THEN Fail(ps, faults) ELSE Emit(outer, node)

(*---------------------------- implied end tags ----------------------------*)
ImpliedEnd(ps, pos) ==
  LET o == Last(ps.open)
      c == Last(ps.conts)
      s == IF o.nm \in TightTags THEN TrailText(c) ELSE ""
      j == TrailFrom(s, Len(s), WSChars)
      white == From(s, j)
      cut == IF white # "" THEN [ps EXCEPT !.conts = Append(Front(@), CutTrail(c, Len(white)))] ELSE ps
      closed == CloseElement(cut, TRUE, FALSE, pos)
  IN IF closed.err # {} \/ white = "" THEN closed ELSE Emit(closed, TextNode(white))

RECURSIVE CloseTo(_, _, _)
CloseTo(ps, n, pos) ==    \* close implicitly until only n elements stay open
  IF ps.err # {} \/ Len(ps.open) <= n THEN ps ELSE CloseTo(ImpliedEnd(ps, pos), n, pos)

Names(ps) == [i \in 1..Len(ps.open) |-> ps.open[i].nm]

(* How many elements stay open when tag starts; -1: tag not allowed here.    *)
KeepFor(names, tag) ==
  LET n == Len(names) IN
  IF tag \in VoidTags THEN n
  ELSE IF tag \in DOMAIN ClosesMap
  THEN LET inner == {i \in 1..n : names[i] \in ClosesMap[tag] /\ \A j \in (i+1)..n : names[j] \in BlockTags => names[j] \in ClosesMap[tag]}
       IN IF inner = {} THEN n ELSE (CHOOSE i \in inner : \A j \in inner : i <= j) - 1
  ELSE IF tag \in ParaTags \cup BlockTags
  THEN LET b == {i \in 1..n : names[i] \in BlockTags}
           lim == IF b = {} THEN 0 ELSE CHOOSE i \in b : \A j \in b : j <= i
           para == {i \in (lim+1)..n : names[i] \in ParaTags}
       IN IF \E i \in para : names[i] # "p" THEN 0 - 1
          ELSE IF para = {} THEN n ELSE (CHOOSE i \in para : \A j \in para : i <= j) - 1
  ELSE n

(*--------------------------------- tokens ---------------------------------*)
ParseText(ps, tok) == Emit(ps, TextNode(tok.s))

ParseStart(ps, tok) ==
  LET nm == QName(tok.p, tok.l)
      keep == IF ps.html THEN KeepFor(Names(ps), nm) ELSE Len(ps.open)
  IN
  IF keep < 0 THEN Fail(ps, {<<"parse", tok.pos>>})
  ELSE
  LET p1 == CloseTo(ps, keep, tok.pos) IN
  IF p1.err # {} THEN p1
  ELSE
  LET src == IF p1.html THEN tok.attrs ELSE DeclsFirst(tok.attrs)
      ns == IF p1.html THEN LET P(a) == a.p = "xmlns" IN BindAll(p1.ns, SelFrom(src, P, 1), 1) ELSE BindAll(p1.ns, src, 1)
      tk == TagKind(p1, ns, tok)
      q == [i \in 1..Len(src) |->
              LET a == src[i] IN
              [p |-> a.p, l |-> a.l, v |-> a.v, h |-> a.h, d |-> a.d, f |-> a.f,
               k |-> AttrKind(p1, ns, tk, a)]]
      dups == {<<ErrClass(k), tok.pos>> : k \in DupControl(q)}
      twice == ~p1.html /\ \E i, j \in 1..Len(src) : i < j /\ src[i].l = src[j].l
                  /\ (\/ src[i].p = src[j].p
                      \/ {src[i].p, src[j].p} \cap {"", "xmlns"} = {} /\ UriOf(ns, src[i].p) = UriOf(ns, src[j].p))
      content == Has(q, "tal", "content")
      unbound == ~p1.html /\ (\/ (tok.p # "" /\ tok.p \notin DOMAIN ns)
                              \/ \E i \in 1..Len(src) : src[i].p \notin {"", "xmlns"} /\ src[i].p \notin DOMAIN ns)
      void == p1.html /\ nm \in VoidTags
  IN
  IF unbound \/ twice THEN Fail(p1, {<<"parse", tok.pos>>})
  ELSE IF dups # {} THEN Fail(p1, dups)
  ELSE IF void /\ content THEN Fail(p1, {<<"TALError", tok.pos>>})
  ELSE IF tok.sc /\ p1.html /\ ~content /\ (void \/ ~Has(q, "i18n", "translate"))
  THEN LET p2 == OpenElement(p1, tok, q, tk, ns, TRUE) IN
       IF p2.err # {} THEN p2 ELSE CloseElement(p2, FALSE, TRUE, tok.pos)
  ELSE LET p2 == OpenElement(p1, tok, q, tk, ns, FALSE) IN
       IF p2.err # {} THEN p2
       ELSE IF void THEN CloseElement(p2, FALSE, TRUE, tok.pos)
       ELSE IF tok.sc THEN CloseElement(p2, FALSE, FALSE, IF p1.html THEN tok.pos ELSE tok.epos)
       ELSE p2

ParseEnd(ps, tok) ==
  LET nm == QName(tok.p, tok.l)
      at == {i \in 1..Len(ps.open) : ps.open[i].nm = nm}
  IN
  IF ~ps.html
  THEN IF ps.open = <<>> \/ Last(ps.open).nm # nm THEN Fail(ps, {<<"parse", tok.pos>>})
       ELSE CloseElement(ps, FALSE, FALSE, tok.pos)
  ELSE IF nm \in VoidTags \/ at = {} THEN Fail(ps, {<<"parse", tok.pos>>})
  ELSE LET p1 == CloseTo(ps, CHOOSE i \in at : \A j \in at : j <= i, tok.pos) IN
       IF p1.err # {} THEN p1 ELSE CloseElement(p1, FALSE, FALSE, tok.pos)

ParseTok(ps, tok) ==
  CASE tok.k = "S" -> ParseStart(ps, tok)
    [] tok.k = "E" -> ParseEnd(ps, tok)
    [] tok.k = "X" -> Fail(ps, {<<"parse", NoPos>>})       \* not well-formed XML
    [] OTHER -> ParseText(ps, tok)

ParseEOF(ps) ==
  IF ps.html THEN CloseTo(ps, 0, NoPos)
  ELSE IF ps.open # <<>> THEN Fail(ps, {<<"parse", NoPos>>}) ELSE ps

RECURSIVE ParseAll(_, _, _)
ParseAll(ps, toks, i) ==
  IF ps.err # {} THEN ps
  ELSE IF i > Len(toks) THEN ParseEOF(ps)
  ELSE ParseAll(ParseTok(ps, toks[i]), toks, i + 1)

Tree(ps) == ps.conts[1]
=============================================================================
