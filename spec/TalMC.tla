------------------------------- MODULE TalMC -------------------------------
(* Bounded exploration: every document of a small family, rendered against   *)
(* every sequence of engine answers (values, nothing, default, errors) from  *)
(* small sets.  The behaviours are checked against the invariants of the     *)
(* machine and, at their end, written out so that they can be replayed in    *)
(* the implementation.                                                       *)
(*                                                                           *)
(* IOEnv: FOCUS names the family, SHAPES the element structures, KST the     *)
(* number of statements an element may carry, FAULTS the number of errors    *)
(* the engine may raise in one rendering, MODE the kind of document.         *)
EXTENDS TalRender, Json, IOUtils

Focus == IOEnv.FOCUS
KSt == atoi(IOEnv.KST)
Faults == atoi(IOEnv.FAULTS)
Html == IOEnv.MODE = "html"

VARIABLES
  doc,      \* [shape, picks, opts]
  hist,     \* situations at the start of the elements being rendered
  neutral,  \* elements leave the situation as they found it
  said

(*------------------------------- statements -------------------------------*)
Stm(p, l, v, d) == [p |-> p, l |-> l, v |-> v, h |-> TRUE, d |-> d, f |-> ""]
Pl(l, v) == Stm("", l, v, "")
X(i, s) == s \o ToString(i)                  \* expressions are named after element and statement
Def1(i, sc, n) == [sc |-> sc, n |-> n, e |-> X(i, sc \o n)]
DefArg(d) == (IF d.sc = "global" THEN "global " ELSE "") \o d.n \o " " \o d.e

(* A statement of element i: the attributes it puts on the tag.               *)
St(x, i) ==
  CASE x = "dl" -> LET d == Def1(i, "local", "v") IN << Stm("tal", "define", DefArg(d), <<d>>) >>
    [] x = "dg" -> LET d == Def1(i, "global", "v") IN << Stm("tal", "define", DefArg(d), <<d>>) >>
    [] x = "d2" -> LET d == Def1(i, "local", "w")  g == Def1(i, "global", "v")
                   IN << Stm("tal", "define", DefArg(g) \o "; " \o DefArg(d), <<g, d>>) >>
    [] x = "rp" -> << Stm("tal", "repeat", "v " \o X(i, "rep"), [n |-> "v", e |-> X(i, "rep")]) >>
    [] x = "cd" -> << Stm("tal", "condition", X(i, "cond"), X(i, "cond")) >>
    [] x = "ct" -> << Stm("tal", "content", X(i, "text"), [m |-> "text", e |-> X(i, "text")]) >>
    [] x = "cs" -> << Stm("tal", "content", "structure " \o X(i, "struct"), [m |-> "structure", e |-> X(i, "struct")]) >>
    [] x = "rt" -> << Stm("tal", "replace", X(i, "repl"), [m |-> "text", e |-> X(i, "repl")]) >>
    [] x = "rs" -> << Stm("tal", "replace", "structure " \o X(i, "srepl"), [m |-> "structure", e |-> X(i, "srepl")]) >>
    [] x = "at" -> << Stm("tal", "attributes", "id " \o X(i, "id") \o "; alt " \o X(i, "alt"),
                         << [n |-> "id", e |-> X(i, "id"), o |-> 2], [n |-> "alt", e |-> X(i, "alt"), o |-> 1] >>), Pl("id", "k") >>
    [] x = "ab" -> << Pl("checked", "c"), Stm("tal", "attributes", "checked " \o X(i, "chk"), << [n |-> "checked", e |-> X(i, "chk"), o |-> 1] >>) >>
    [] x = "om" -> << Stm("tal", "omit-tag", "", "") >>
    [] x = "oe" -> << Stm("tal", "omit-tag", X(i, "omit"), X(i, "omit")) >>
    [] x = "er" -> << Stm("tal", "on-error", X(i, "err"), [m |-> "text", e |-> X(i, "err")]) >>
    [] x = "es" -> << Stm("tal", "on-error", "structure " \o X(i, "serr"), [m |-> "structure", e |-> X(i, "serr")]) >>
    [] x = "tr" -> << Stm("i18n", "translate", "", "") >>
    [] x = "ti" -> << Stm("i18n", "translate", X(i, "msg"), "") >>
    [] x = "nm" -> << Stm("i18n", "name", X(i, "n"), "") >>
    [] x = "da" -> << Stm("i18n", "data", X(i, "data"), X(i, "data")) >>
    [] x = "do" -> << Stm("i18n", "domain", X(i, "dom"), "") >>
    [] x = "dd" -> << Stm("i18n", "domain", "default", "") >>
    [] x = "so" -> << Stm("i18n", "source", "en", "") >>
    [] x = "ia" -> << Pl("title", "t"), Stm("i18n", "attributes", "title", << [n |-> "title", m |-> "", o |-> 3] >>) >>
    [] x = "ib" -> << Stm("i18n", "attributes", "lang; alt malt", << [n |-> "lang", m |-> "", o |-> 3], [n |-> "alt", m |-> "malt", o |-> 1] >>), Pl("lang", "x") >>
    [] x = "ic" -> << Stm("i18n", "attributes", "title mt", << [n |-> "title", m |-> "mt", o |-> 3] >>), Pl("title", "t") >>
    [] x = "id" -> << Stm("i18n", "attributes", "nowrap; alt", << [n |-> "nowrap", m |-> "", o |-> 3], [n |-> "alt", m |-> "", o |-> 1] >>) >>
    [] x = "ie" -> << Stm("i18n", "attributes", "checked m", << [n |-> "checked", m |-> "m", o |-> 1] >>) >>
    [] x = "p1" -> << Pl("class", "c") >>
    [] x = "p2" -> << Pl("alt", "a&amp;\"") >>
    [] x = "p3" -> << [Pl("nowrap", "") EXCEPT !.h = ~Html] >>
    [] x = "dm" -> << Stm("metal", "define-macro", X(i, "m"), X(i, "m")) >>
    [] x = "um" -> << Stm("metal", "use-macro", X(i, "here/use"), X(i, "here/use")) >>
    [] x = "xm" -> << Stm("metal", "define-macro", X(i, "m"), X(i, "m")), Stm("metal", "extend-macro", X(i, "here/ext"), X(i, "here/ext")) >>
    [] x = "ds" -> << Stm("metal", "define-slot", "s", "s") >>
    [] x = "dt" -> << Stm("metal", "define-slot", "t", "t") >>
    [] x = "fs" -> << Stm("metal", "fill-slot", "s", "s") >>
    [] x = "ft" -> << Stm("metal", "fill-slot", "t", "t") >>
    [] Len(x) > 2 /\ Ch(x, 1) = "B" ->      \* a named attribute: with, without and without a given value
         LET n == SubSeq(x, 3, Len(x))  set == Stm("tal", "attributes", n \o " " \o X(i, "chk"), << [n |-> n, e |-> X(i, "chk"), o |-> 1] >>)
         IN (CASE Ch(x, 2) = "v" -> << Pl(n, "c"), Pl("id", "k") >>
               [] Ch(x, 2) = "n" -> << [Pl(n, "") EXCEPT !.h = ~Html] >>
               [] OTHER -> << >>) \o << set >>
    [] OTHER -> <<>>

BoolForms == [k \in 1..42 |-> "B" \o <<"v", "n", "-">>[1 + (k % 3)] \o
              << "compact", "nowrap", "ismap", "declare", "noshade", "checked", "disabled", "readonly", "multiple", "selected", "noresize", "defer",
                 "hidden", "value" >>[1 + ((k - 1) \div 3)]]
(* Statements of a family, in the order they are written.                     *)
Menu ==
  CASE Focus = "order" -> <<"oe", "rt", "ct", "at", "rp", "cd", "dl", "er">>
    [] Focus = "scope" -> <<"dl", "dg", "d2", "rp", "cd", "ct", "er">>
    [] Focus = "error" -> <<"er", "es", "dl", "rp", "ct", "cs", "at", "oe">>
    [] Focus = "value" -> <<"ct", "cs", "rt", "rs", "at", "ab", "om">>
    [] Focus = "macro" -> <<"dm", "um", "xm", "ds", "dt", "fs", "ft">>
    [] Focus = "macrotal" -> <<"dm", "um", "ds", "fs", "dl", "er">>
    [] Focus = "unit" -> <<"tr", "ti", "nm", "ct", "rt", "rp", "cd", "om", "da">>
    [] Focus = "domain" -> <<"do", "dd", "tr", "ia", "dm", "um", "ds", "fs">>
    [] Focus = "rules" -> <<"dl", "rp", "cd", "ct", "rt", "at", "om", "er", "tr", "nm", "da", "ia", "dm", "um", "xm", "ds", "fs">>
    [] Focus = "rules2" -> <<"ct", "rt", "tr", "nm", "da", "ia", "dm", "um", "ds", "fs">>
    [] Focus = "frag" -> <<"cs", "rs", "at", "ia", "ic", "om", "er">>
    [] Focus = "limit" -> <<"dm", "um", "xm", "ds", "fs">>
    [] Focus = "attrs" -> <<"p1", "at", "p2", "ab", "ic", "p3", "ib", "id", "ie", "rt">>
    [] Focus = "bools" -> BoolForms
    [] Focus = "show" -> <<"dm", "um", "ds", "fs", "at", "ct", "oe">>

RECURSIVE Upto(_)
Upto(n) == IF n = 0 THEN {{}} ELSE Upto(n - 1) \cup {P \cup {k} : P \in Upto(n - 1), k \in 1..Len(Menu)}
Picks == IF KSt >= Len(Menu) THEN SUBSET (1..Len(Menu)) ELSE Upto(KSt)
Clash(P) ==   \* combinations that say the same thing twice
  LET has(x) == \E k \in P : Menu[k] = x
      n(S) == Cardinality({x \in S : has(x)})
  IN IF Focus \in {"rules", "rules2"} THEN n({"dm", "xm"}) > 1
     ELSE
     \/ n({"dl", "dg", "d2"}) > 1 \/ n({"ct", "cs", "rt", "rs"}) > 1 \/ n({"er", "es"}) > 1 \/ n({"om", "oe"}) > 1 \/ n({"ia", "ib", "ic", "id", "ie"}) > 1 \/ n({"ab", "ie"}) > 1 \/ n({"at", "ib"}) > 1 \/ n({"at", "ab"}) > 1
     \/ n({"tr", "ti"}) > 1 \/ n({"do", "dd"}) > 1 \/ n({"dm", "xm"}) > 1 \/ n({"ds", "dt"}) > 1 \/ n({"fs", "ft"}) > 1
     \/ (n({"tr", "ti"}) > 0 /\ n({"ct", "cs", "rt", "rs"}) > 0) \/ (n({"da"}) > 0 /\ n({"tr", "ti"}) = 0)
     \/ (n({"dm", "xm", "um"}) > 0 /\ n({"ds", "dt", "fs", "ft"}) > 0) \/ (n({"dm", "xm"}) > 0 /\ n({"um"}) > 0)
RECURSIVE AttrsOf(_, _, _)
AttrsOf(P, k, i) == IF k > Len(Menu) THEN <<>> ELSE (IF k \in P THEN St(Menu[k], i) ELSE <<>>) \o AttrsOf(P, k + 1, i)

(*-------------------------------- documents -------------------------------*)
Decls == IF Html THEN <<>> ELSE << Stm("xmlns", "tal", TALNS, ""), Stm("xmlns", "metal", METALNS, ""), Stm("xmlns", "i18n", I18NNS, "") >>
S(l, attrs) == [k |-> "S", p |-> "", l |-> l, attrs |-> attrs, pos |-> NoPos, epos |-> NoPos, sc |-> FALSE]
E(l) == [k |-> "E", p |-> "", l |-> l, pos |-> NoPos]
Tx(s) == [k |-> "T", s |-> s]
El(P, i, kids) == << Tx("\n "), S("div", AttrsOf(P[i], 1, i)), Tx(X(i, "a")) >> \o kids \o << Tx(X(i, " b")), E("div") >>
(* Something that looks at the variables and writes a value.                  *)
Eye(i) == << S("i", << Stm("tal", "content", X(i, "eye"), [m |-> "text", e |-> X(i, "eye")]) >>), E("i") >>
Body(shape, P) ==
  CASE shape = "1" -> El(P, 1, <<>>)
    [] shape = "1e" -> El(P, 1, Eye(1)) \o Eye(0)
    [] shape = "12" -> El(P, 1, El(P, 2, <<>>))
    [] shape = "12e" -> El(P, 1, El(P, 2, Eye(2)) \o Eye(1)) \o Eye(0)
    [] shape = "1,2" -> El(P, 1, <<>>) \o El(P, 2, <<>>)
    [] shape = "123" -> El(P, 1, El(P, 2, El(P, 3, <<>>)))
    [] shape = "12,3" -> El(P, 1, El(P, 2, <<>>)) \o El(P, 3, <<>>)
    [] shape = "1,23" -> El(P, 1, <<>>) \o El(P, 2, El(P, 3, <<>>))
    [] shape = "1(2,3)" -> El(P, 1, El(P, 2, <<>>) \o El(P, 3, <<>>))
    [] shape = "12,34" -> El(P, 1, El(P, 2, <<>>)) \o El(P, 3, El(P, 4, <<>>))
Size(shape) == CASE shape \in {"1", "1e"} -> 1 [] shape \in {"12", "12e", "1,2"} -> 2 [] shape = "12,34" -> 4 [] OTHER -> 3
Shapes == {s \in {"1", "1e", "12", "12e", "1,2", "123", "12,3", "1,23", "1(2,3)", "12,34"} : FindAt(IOEnv.SHAPES, 1, " " \o s \o " ") > 0}
Toks(d) == << S("div", Decls) >> \o Body(d.shape, d.picks) \o << E("div") >>

Opts == LET o == [tal |-> TRUE, metal |-> TRUE, showtal |-> FALSE, strict |-> TRUE, limit |-> 3, wrap |-> 0, interp |-> TRUE, annot |-> FALSE]
        IN IF Focus = "show" THEN {[o EXCEPT !.tal = FALSE, !.showtal = TRUE], [o EXCEPT !.tal = FALSE, !.showtal = TRUE, !.metal = FALSE], o}
           ELSE IF Focus \in {"frag", "attrs"} THEN {o, [o EXCEPT !.strict = FALSE], [o EXCEPT !.interp = FALSE]}
           ELSE IF Focus = "limit" THEN {[o EXCEPT !.limit = n] : n \in 1..4}
           ELSE {o}

(*--------------------------------- answers --------------------------------*)
Calm(s) == s.k > 14
Struct == << S("b", <<Pl("id", "z")>>), Tx("x"), E("b") >>
Nested == << S("b", <<>>), S("i", <<Pl("id", "y"), Pl("title", "u")>>), E("i"), E("b") >>
Raises(s) == Cardinality({i \in 1..Len(s.log) : s.log[i].r.t = "raise"})
Fresh(s, t) == t \o ToString(s.k)
LoopLen(s, it) == Cardinality({i \in 1..Len(s.log) : s.log[i].op = "next" /\ s.log[i].e = it})
V(t, id, v, toks) == [t |-> t, id |-> id, s |-> v, toks |-> toks, def |-> "(none)"]
Answers(s, q) ==
  LET id == Fresh(s, "a") IN
  CASE q.op = "text" -> {V("s", id, "<&>" \o id, <<>>), V("n", "", "", <<>>)} \cup (IF q.e \in {X(i, "err") : i \in 1..4} THEN {} ELSE {V("d", "", "", <<>>)})
    [] q.op = "struct" -> (IF Focus \in {"frag", "attrs"}
                           THEN {V("s", id, "a&amp;b", << Tx("a&amp;b") >>), V("s", id, "<b><i id=\"y\" title=\"u\"></i></b>", Nested),
                                 V("s", id, "<b>", << S("b", <<>>) >>), V("m", id, "<b id=\"z\">x</b>", Struct)} ELSE {})
                          \cup {V("s", id, "<b id=\"z\">x</b>", Struct), V("n", "", "", <<>>)} \cup (IF q.e \in {X(i, "serr") : i \in 1..4} THEN {} ELSE {V("d", "", "", <<>>)})
    [] q.op = "bool" -> {V("b", "", "1", <<>>), V("b", "", "0", <<>>)} \cup (IF q.e \in {X(i, "chk") : i \in 1..4} THEN {V("d", "", "1", <<>>)} ELSE {})
    [] q.op = "value" -> {V("v", id, "", <<>>)}
    [] q.op = "repeat" -> {V("it", id, "", <<>>)}
    [] q.op = "next" -> {V("end", "", "", <<>>)} \cup (IF LoopLen(s, q.e) < 2 THEN {V("item", id, "", <<>>)} ELSE {})
    [] q.op = "macro" -> {[t |-> "d", id |-> "", doc |-> 0, name |-> ""]}
                         \cup {[t |-> "macro", id |-> "", doc |-> 1, name |-> m] : m \in DOMAIN s.macros[1]}
    [] q.op = "eval" -> {[t |-> "map", id |-> "", map |-> [x \in {"_", "k"} |-> IF x = "_" THEN "" ELSE "kv"]]}
    [] q.op = "code" -> {V("s", "", "code", <<>>)}
    [] q.op = "err" -> {V("err", Fresh(s, "err"), "", <<>>)}
    [] q.op = "tr" -> {V("s", "", Fresh(s, "T"), <<Tx(Fresh(s, "T"))>>)}
Dull(S0) == IF \E a \in S0 : a.t \in {"d", "end"} THEN {CHOOSE a \in S0 : a.t \in {"d", "end"}} ELSE {CHOOSE a \in S0 : TRUE}
EnvOf(s) == [n \in {x \in VisNames(s) \ {"attrs"} : Lookup(s, x) # ""} \cup {"_"} |-> IF n = "_" THEN "" ELSE Lookup(s, n)]
MCAsk(s, q) ==
  LET all == Answers(s, q)
      may == IF Calm(s) THEN Dull(all)
             ELSE all \cup (IF Raises(s) < Faults /\ q.op # "err" THEN {[t |-> "raise", id |-> Fresh(s, "X")]} ELSE {})
  IN { [r |-> r, s |-> [s EXCEPT !.k = @ + 1, !.log = Append(@, [op |-> q.op, e |-> q.e, r |-> r, x |-> q.x, env |-> EnvOf(s)])]] : r \in may }

(*----------------------------------- run ----------------------------------*)
MCInit ==
  /\ cs = 0 /\ hist = <<>> /\ neutral = TRUE /\ said = FALSE
  /\ \E shape \in Shapes, o \in Opts : \E P \in [1..Size(shape) -> {Q0 \in Picks : ~Clash(Q0)}] :
       /\ doc = [shape |-> shape, picks |-> P, opts |-> o]
       /\ LET ps == ParseAll(ParseInit(Html, "", FALSE, [subs |-> <<>>, ia |-> <<>>]), Toks(doc), 1)
          IN st = IF ps.err # {} THEN [ph |-> "rejected", err |-> {e[1] : e \in ps.err}]
                  ELSE [macros |-> <<ps.macros>>] @@ RenderInit(Tree(ps), Html, "", doc.opts, "default")

Situation(s) == [len |-> Len(s.ctl) - 1, env |-> EnvOf([s EXCEPT !.glob = EmptyMap]), depth |-> Len(s.env), dom |-> s.dom, ms |-> s.ms, trs |-> s.trs,
                 inuse |-> s.inuse, out |-> s.out, bufs |-> s.bufs, trash |-> s.trash]
(* An element has been rendered: all is as before, and the output is longer.   *)
Uses(ms) == [i \in 1..Len(ms) |-> [nm |-> ms[i].nm, slots |-> ms[i].slots, ext |-> ms[i].ext]]
EnvSame(a, b) == \A n \in (DOMAIN a) \cup (DOMAIN b) : Get(a, n, "") = Get(b, n, "")
Restored(f, s) ==
  /\ Len(s.env) = f.depth /\ EnvSame(f.env, EnvOf([s EXCEPT !.glob = EmptyMap]))
  /\ s.dom = f.dom /\ Uses(s.ms) = Uses(f.ms) /\ s.inuse = f.inuse /\ s.bufs = f.bufs /\ s.trash = f.trash
  /\ Len(s.trs) = Len(f.trs) /\ \A i \in 1..Len(f.trs) : DOMAIN f.trs[i] \subseteq DOMAIN s.trs[i]
  /\ StartsAt(s.out, 1, f.out)
Below(q, n) == SelFrom(q, LAMBDA f : f.len < n, 1)
MCStep ==
  /\ st.ph = "run" /\ RenderStep
  /\ LET h1 == IF st.ctl # <<>> /\ Top(st).k = "el" THEN Append(hist, Situation(st)) ELSE hist
     IN /\ hist' = Below(h1, Len(st'.ctl))
        /\ neutral' = (st'.ph = "run" => \A i \in 1..Len(h1) : h1[i].len = Len(st'.ctl) => Restored(h1[i], st'))
  /\ UNCHANGED <<cs, doc, said>>
(* Documents that break a rule are reported as such.                           *)
MCReject ==
  /\ st.ph = "rejected" /\ ~said /\ said' = TRUE
  /\ PrintT(ToJson([toks |-> Toks(doc), html |-> Html, err |-> st.err]))
  /\ UNCHANGED <<cs, st, doc, hist, neutral>>
MCSay ==
  /\ st.ph = "done" /\ ~said /\ said' = TRUE
  /\ PrintT(ToJson([toks |-> Toks(doc), html |-> Html, opts |-> doc.opts, log |-> st.log, out |-> st.out, exc |-> st.ex]))
  /\ UNCHANGED <<cs, st, doc, hist, neutral>>
MCNext == MCStep \/ MCSay \/ MCReject
MCSpec == MCInit /\ [][MCNext]_<<cs, st, doc, hist, neutral, said>>

MCUnwound == st.ph # "rejected" => Unwound(st)
MCBalanced == st.ph # "rejected" => Balanced(st)
MCLimited == st.ph # "rejected" => Limited(st)
MCNeutral == neutral
=============================================================================
