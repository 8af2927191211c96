------------------------------ MODULE TalTrace -----------------------------
(* Validation of recorded executions.  Each case holds the documents, the   *)
(* options and everything observed while the implementation compiled and    *)
(* rendered them; the machine is driven with the recorded engine answers    *)
(* and must produce the same questions, in the same situation, and the same  *)
(* output.  The verdict of a case is the set of clauses it violates.        *)
EXTENDS TalRender, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Which == IF "ONLY" \in DOMAIN IOEnv THEN {atoi(IOEnv.ONLY)} ELSE 1..Len(Cases)

VARIABLES no, stage, doc, tok, ps, trees, step,
  seen    \* kinds of machine steps taken (for reporting what was exercised)

tvars == <<cs, st, no, stage, doc, tok, ps, trees, step, seen>>
TraceView == <<no, step>>

C == Cases[no]
Docs == C.docs
NoState == [ph |-> "-"]

(*------------------- answering from the recorded execution ----------------*)
Norm(m) == [x \in (DOMAIN m) \ {"_"} |-> m[x]]
EnvBad(s, ev) ==
  LET names == (VisNames(s) \cup DOMAIN ev.env) \ {"_", "attrs"}
  IN \/ \E n \in names : Lookup(s, n) # Get(ev.env, n, "")
     \/ LET a == Lookup(s, "attrs") IN
        IF "attrs" \in VisNames(s)
        THEN IF "attrs" \in DOMAIN ev THEN Norm(a) # Norm(ev.attrs) ELSE TRUE
        ELSE "attrs" \in DOMAIN ev
Clauses(s, q, ev) ==
  (IF q.op \notin {"tr", "err", "code", "next"} /\ EnvBad(s, ev) THEN {"ENV"} ELSE {})
  \cup (IF q.pc /\ q.op # "err" /\ C.files /\ ev.pos # s.pos THEN {"POS"} ELSE {})
  \cup (IF q.op \notin {"tr", "err", "next"} /\ C.files /\ ev.src # s.src THEN {"SRC"} ELSE {})
  \cup (IF q.op = "err" /\ q.pc /\ ev.pos # q.x.pos THEN {"ERRPOS"} ELSE {})
  \cup (IF q.op = "code" /\ ev.code # q.x.code THEN {"CODE"} ELSE {})
  \cup (IF q.op = "tr" /\ ev.msgid # q.x.msgid THEN {"MSGID"} ELSE {})
  \cup (IF q.op = "tr" /\ ev.dom # q.x.dom THEN {"DOMAIN"} ELSE {})
  \cup (IF q.op = "tr" /\ ev.def # q.x.def THEN {"MSGDEF"} ELSE {})
  \cup (IF q.op = "tr" /\ Norm(ev.map) # Norm(q.x.map) THEN {"MAPPING"} ELSE {})
TraceAsk(s, q) ==
  IF s.k >= Len(C.log) THEN { [r |-> [t |-> "-"], s |-> [s EXCEPT !.ph = "done", !.bad = @ \cup {"EVAL"}]] }
  ELSE LET ev == C.log[s.k + 1] IN
       IF ev.op # q.op \/ ev.e # q.e
       THEN { [r |-> [t |-> "-"], s |-> [s EXCEPT !.ph = "done", !.bad = @ \cup {"EVAL"}]] }
       ELSE { [r |-> ev.r, s |-> [s EXCEPT !.k = @ + 1, !.bad = @ \cup Clauses(s, q, ev)]] }

(*----------------------------------- run ----------------------------------*)
Init ==
  /\ no \in Which
  /\ cs = 0 /\ st = NoState /\ stage = "parse" /\ doc = 1 /\ tok = 1 /\ step = 0 /\ trees = <<>> /\ seen = {}
  /\ ps = ParseInit(Cases[no].html, Cases[no].docs[1].file, FALSE, [subs |-> <<>>, ia |-> <<>>])

Tick == step' = step + 1 /\ UNCHANGED <<no, cs>>
Same == UNCHANGED seen

T_Token ==
  /\ stage = "parse" /\ ps.err = {} /\ tok <= Len(Docs[doc].toks)
  /\ ps' = ParseTok(ps, Docs[doc].toks[tok])
  /\ tok' = tok + 1
  /\ Tick /\ Same /\ UNCHANGED <<stage, doc, trees, st>>

Say(bad) == PrintT(<<"VERDICT", no, IF st.ph = "-" THEN 0 ELSE st.k, bad, seen>>)

(* Compilation has failed: the same failure must have been reported.         *)
CompBad(o, err) ==
  IF o.ok THEN {"COMPILE"}
  ELSE IF ~\E e \in err : e[1] = o.c THEN {"COMPILE"}
  ELSE IF ~\E e \in err : e[1] = o.c /\ ((o.c = "parse" /\ ~C.html) \/ e[2] = o.pos) THEN {"COMPOS"}
  ELSE {}
T_CompileError ==
  /\ stage = "parse" /\ (ps.err # {} \/ (tok > Len(Docs[doc].toks) /\ ParseEOF(ps).err # {}))
  /\ LET e == IF ps.err # {} THEN ps.err ELSE ParseEOF(ps).err
     IN Say(CompBad(C.comp[doc], e))
  /\ stage' = "end"
  /\ Tick /\ Same /\ UNCHANGED <<doc, tok, ps, trees, st>>
T_Compiled ==
  /\ stage = "parse" /\ ps.err = {} /\ tok > Len(Docs[doc].toks)
  /\ LET p == ParseEOF(ps) IN
     /\ p.err = {}
     /\ IF ~C.comp[doc].ok
        THEN Say({"COMPILE"}) /\ stage' = "end" /\ UNCHANGED <<doc, tok, ps, trees, st>>
        ELSE /\ trees' = Append(trees, [kids |-> Tree(p), macros |-> p.macros])
             /\ IF doc < Len(Docs)
                THEN /\ doc' = doc + 1 /\ tok' = 1 /\ UNCHANGED <<stage, st>>
                     /\ ps' = ParseInit(C.html, Docs[doc + 1].file, FALSE, [subs |-> <<>>, ia |-> <<>>])
                ELSE /\ stage' = "render" /\ UNCHANGED <<doc, tok, ps>>
                     /\ st' = [macros |-> [i \in 1..Len(trees') |-> trees'[i].macros]]
                              @@ RenderInit(trees'[1].kids, C.html, Docs[1].file, C.opts, "default")
  /\ Tick /\ Same
T_Render == stage = "render" /\ st.ph = "run" /\ RenderStep /\ Tick /\ UNCHANGED <<stage, doc, tok, ps, trees>>
            /\ seen' = IF st.ctl = <<>> THEN seen ELSE seen \cup {Top(st).k}

Final ==
  (IF "EVAL" \in st.bad THEN {}
   ELSE (IF st.k < Len(C.log) THEN {"EVAL"} ELSE {})
        \cup (IF C.exc # st.ex THEN {"EXC"} ELSE {})
        \cup (IF C.exc = "" /\ st.ex = "" /\ Canon(st, C.out) # Canon(st, st.out) THEN {"OUT"} ELSE {})
        \cup (IF C.exc = "" /\ ~C.bal THEN {"BAL"} ELSE {}))
  \cup st.bad
T_Done ==
  /\ stage = "render" /\ st.ph = "done"
  /\ Say(Final)
  /\ IF "OUT" \in Final /\ "SHOW" \in DOMAIN IOEnv THEN PrintT(<<"EXPECTED", no, st.out, C.out>>) ELSE TRUE
  /\ IF "EVAL" \in Final /\ "SHOW" \in DOMAIN IOEnv THEN PrintT(<<"AT", no, st.k, IF st.ctl = <<>> THEN <<>> ELSE Top(st)>>) ELSE TRUE
  /\ stage' = "end"
  /\ Tick /\ Same /\ UNCHANGED <<doc, tok, ps, trees, st>>

Next == T_Token \/ T_CompileError \/ T_Compiled \/ T_Render \/ T_Done
Spec == Init /\ [][Next]_tvars

TraceUnwound == st.ph # "-" => Unwound(st)
TraceBalanced == st.ph # "-" => Balanced(st)
TraceLimited == st.ph # "-" => Limited(st)
=============================================================================
