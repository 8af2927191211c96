----------------------------- MODULE TalExtract ----------------------------
(* Message extraction: the same rendering machine with an engine for which   *)
(* every expression has the placeholder value, every condition holds, every  *)
(* loop runs once, and every translation is noted in a catalog.              *)
EXTENDS TalRender, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Which == IF "ONLY" \in DOMAIN IOEnv THEN {atoi(IOEnv.ONLY)} ELSE 1..Len(Cases)
VARIABLES no, doc, tok, ps, stage, step, cat
evars == <<cs, st, no, doc, tok, ps, stage, step, cat>>
ExtractView == <<no, step>>
C == Cases[no]

Placeholder == "${DYNAMIC_CONTENT}"
Note(s, x) == [dom |-> x.dom, id |-> x.msgid, def |-> IF Normalize(x.def) = x.msgid THEN "(none)" ELSE Normalize(x.def),
               loc |-> <<C.docs[doc].file, s.pos>>]
ExtractAsk(s, q) ==
  { CASE q.op \in {"text", "struct", "value"} -> [r |-> C.dyn, s |-> s]
      [] q.op = "bool" -> [r |-> [t |-> "b", id |-> "", s |-> "1"], s |-> s]
      [] q.op = "repeat" -> [r |-> [t |-> "it", id |-> ToString(s.k)], s |-> [s EXCEPT !.k = @ + 1]]
      [] q.op = "next" -> IF q.e \notin s.ran THEN [r |-> [t |-> "item", id |-> "0"], s |-> [s EXCEPT !.ran = @ \cup {q.e}]]
                          ELSE [r |-> [t |-> "end", id |-> ""], s |-> s]
      [] q.op = "eval" -> [r |-> [t |-> "map", id |-> "", map |-> EmptyMap], s |-> s]
      [] q.op = "tr" -> [r |-> [t |-> "s", id |-> "", s |-> "x", toks |-> C.x], s |-> [s EXCEPT !.log = Append(@, Note(s, q.x))]]
      [] OTHER -> [r |-> [t |-> "raise", id |-> "unexpected " \o q.op], s |-> s] }

(* The catalog: one entry per domain and message id, locations in order,      *)
(* the default text of the first occurrence.                                  *)
Keys(log) == {<<log[i].dom, log[i].id>> : i \in 1..Len(log)}
For(log, k) == LET P(r) == r.dom = k[1] /\ r.id = k[2] IN SelFrom(log, P, 1)
Entry(log, k) == LET q == For(log, k) IN [dom |-> k[1], id |-> k[2], def |-> q[1].def, locs |-> [i \in 1..Len(q) |-> q[i].loc]]
Catalog(log) == {Entry(log, k) : k \in Keys(log)}
Warnings(log) == Cardinality({i \in 1..Len(log) : LET q == For(SubSeq(log, 1, i), <<log[i].dom, log[i].id>>) IN q[1].def # log[i].def})

NoState == [ph |-> "-"]
Start(d) == ParseInit(C.html, C.docs[d].file, FALSE, [subs |-> <<>>, ia |-> <<>>])
Init ==
  /\ no \in Which
  /\ cs = 0 /\ st = NoState /\ stage = "parse" /\ doc = 1 /\ tok = 1 /\ step = 0 /\ cat = <<>>
  /\ ps = ParseInit(Cases[no].html, Cases[no].docs[1].file, FALSE, [subs |-> <<>>, ia |-> <<>>])
Tick == step' = step + 1 /\ UNCHANGED <<no, cs>>
X_Token ==
  /\ stage = "parse" /\ ps.err = {} /\ tok <= Len(C.docs[doc].toks)
  /\ ps' = ParseTok(ps, C.docs[doc].toks[tok])
  /\ tok' = tok + 1
  /\ Tick /\ UNCHANGED <<stage, doc, st, cat>>
X_Compiled ==
  /\ stage = "parse" /\ ps.err = {} /\ tok > Len(C.docs[doc].toks)
  /\ LET p == ParseEOF(ps) IN
     /\ Assert(p.err = {}, "does not compile")
     /\ st' = [macros |-> <<p.macros>>, ran |-> {}] @@ RenderInit(Tree(p), C.html, C.docs[doc].file, C.opts, "default")
  /\ stage' = "render"
  /\ Tick /\ UNCHANGED <<doc, tok, ps, cat>>
X_Render == stage = "render" /\ st.ph = "run" /\ RenderStep /\ Tick /\ UNCHANGED <<stage, doc, tok, ps, cat>>
Verdict(log) ==
  IF C.exc # st.ex THEN {"EXC"}
  ELSE (IF Catalog(log) # Range(C.cat) \/ Cardinality(Range(C.cat)) # Len(C.cat) THEN {"CATALOG"} ELSE {})
       \cup (IF Warnings(log) # C.warned THEN {"WARN"} ELSE {})
X_Done ==
  /\ stage = "render" /\ st.ph = "done"
  /\ IF doc < Len(C.docs) /\ st.ex = ""
     THEN doc' = doc + 1 /\ tok' = 1 /\ ps' = Start(doc + 1) /\ stage' = "parse" /\ cat' = cat \o st.log
     ELSE /\ LET log == cat \o st.log IN
             /\ PrintT(<<"VERDICT", no, Len(log), Verdict(log), {}>>)
             /\ IF "SHOW" \in DOMAIN IOEnv THEN PrintT(<<"EXPECTED", st.ex, Catalog(log), Warnings(log)>>) ELSE TRUE
          /\ stage' = "end" /\ UNCHANGED <<doc, tok, ps, cat>>
  /\ Tick /\ UNCHANGED st
X_Error == stage = "parse" /\ ps.err # {} /\ Assert(FALSE, <<"does not compile", no, ps.err>>) /\ UNCHANGED evars
Next == X_Token \/ X_Compiled \/ X_Render \/ X_Done \/ X_Error
Spec == Init /\ [][Next]_evars
ExtractUnwound == st.ph # "-" => Unwound(st)
ExtractBalanced == st.ph # "-" => Balanced(st)
=============================================================================
