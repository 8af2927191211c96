----------------------------- MODULE TalEngine ------------------------------
(* The bundled expression engine: scopes, variables, loops, expressions and  *)
(* message substitution.  Two uses:                                          *)
(*   Enum:   every history of operations up to a length; each is printed     *)
(*           with what must be observed after every operation, and replayed  *)
(*           into the implementation;                                        *)
(*   Trace:  long recorded histories are validated.                          *)
EXTENDS TalText, Json, IOUtils

(*--------------------------------- state ----------------------------------*)
Seqs == [s0 |-> <<>>, s1 |-> <<"i1">>, s2 |-> <<"i1", "i2">>, s3 |-> <<"i1", "i2", "i3">>, sn |-> <<"(None)", "", "i2", "(None)">>]
EInit == [loc |-> <<EmptyMap>>,    \* the variables set in each open scope, outermost first
          glob |-> EmptyMap, its |-> <<>>, res |-> "",
          file |-> "None", pos |-> <<"None", "None">>]

Known(e, n) == n \in DOMAIN e.glob \/ \E i \in 1..Len(e.loc) : n \in DOMAIN e.loc[i]
Value(e, n) == LET at == {i \in 1..Len(e.loc) : n \in DOMAIN e.loc[i]}
               IN IF at # {} THEN e.loc[CHOOSE i \in at : \A j \in at : j <= i][n]
                  ELSE Get(e.glob, n, "?")
(* variables present from the start, and the sequences                       *)
Std(n) == CASE n = "nothing" -> "(None)" [] n = "seven" -> "(7)" [] n = "default" -> "(Default)" [] n \in DOMAIN Seqs -> "(" \o n \o ")" [] OTHER -> "?"
Val(e, n) == IF Known(e, n) THEN Value(e, n) ELSE Std(n)

(*------------------------------ expressions -------------------------------*)
(* type prefix and rest; "path" without a prefix                             *)
ColonAt(x) == IF \E i \in 2..Len(x) : Ch(x, i) = ":" /\ IsName(SubSeq(x, 1, i - 1))
              THEN CHOOSE i \in 2..Len(x) : Ch(x, i) = ":" /\ IsName(SubSeq(x, 1, i - 1)) ELSE 0
Kind(x) == IF ColonAt(x) = 0 THEN "path" ELSE SubSeq(x, 1, ColonAt(x) - 1)
Body(x) == IF ColonAt(x) = 0 THEN x ELSE From(x, ColonAt(x) + 1)
Trim(s) == LET a == RunEnd(s, 1, WSChars) IN IF a > Len(s) THEN "" ELSE SubSeq(s, a, TrailFrom(s, Len(s), WSChars) - 1)
Falsy(v) == v \in {"", "(None)", "(s0)", "(False)"}
RECURSIVE Eval(_, _)
Eval(e, x) ==
  LET k == Kind(x)  b == Body(x) IN
  CASE k \in {"string", "str"} -> b
    [] k \in {"path", "var", "global", "local"} -> Val(e, Trim(b))
    [] k = "not" -> LET v == Eval(e, b) IN IF v = "?" THEN "?" ELSE IF Falsy(v) THEN "(True)" ELSE "(False)"
    [] k = "python" -> Val(e, b)
    [] k = "position" -> e.file \o " (" \o e.pos[1] \o "," \o e.pos[2] \o ")"
    [] k = "exists" -> IF Val(e, b) = "?" THEN "(False)" ELSE "(True)"
    [] OTHER -> "?"

(* the text of a value: itself, except that numbers are written out           *)
TextOf(v) == CASE v = "(7)" -> "7" [] v = "(True)" -> "True" [] v = "(False)" -> "False"
               [] v = "(s0)" -> "[]" [] v = "(s1)" -> "['i1']" [] v = "(s2)" -> "['i1', 'i2']" [] OTHER -> v

(*------------------------------- operations -------------------------------*)
Op(o, n, v) == [o |-> o, n |-> n, v |-> v]
SetL(e, n, v) == [e EXCEPT !.loc[Len(e.loc)] = Put(@, n, v)]
Apply(e, op) ==
  CASE op.o = "begin" -> [e EXCEPT !.loc = Append(@, EmptyMap), !.res = ""]
    [] op.o = "end" -> IF Len(e.loc) = 1 THEN [e EXCEPT !.res = "refused"]
                       ELSE [e EXCEPT !.loc = Front(@), !.res = ""]
    [] op.o \in {"local", "code"} -> [SetL(e, op.n, op.v) EXCEPT !.res = ""]
    [] op.o \in {"global", "gcode"} -> [e EXCEPT !.glob = Put(@, op.n, op.v), !.res = ""]
    [] op.o = "print" -> [e EXCEPT !.res = op.v \o "\n"]
    [] op.o = "file" -> [e EXCEPT !.file = op.n, !.res = ""]
    [] op.o = "pos" -> [e EXCEPT !.pos = <<op.n, op.v>>, !.res = ""]
    [] op.o = "repeat" -> [e EXCEPT !.its = Append(@, [n |-> op.n, q |-> Seqs[op.v], i |-> 1]), !.res = ""]
    [] op.o = "next" -> LET k == IF op.n = "" THEN Len(e.its) ELSE op.k
                        IN IF k = 0 \/ k > Len(e.its) THEN [e EXCEPT !.res = "no loop"]
                           ELSE LET it == e.its[k] IN
                                IF it.i > Len(it.q) THEN [e EXCEPT !.res = "0"]
                                ELSE [SetL(e, it.n, it.q[it.i]) EXCEPT !.its[k].i = @ + 1, !.res = "1"]
    [] op.o = "eval" -> [e EXCEPT !.res = Eval(e, op.n)]
    [] op.o = "text" -> [e EXCEPT !.res = TextOf(Eval(e, op.n))]
    [] OTHER -> e

(* What can be seen of the engine after an operation.                         *)
Seen(e) == << e.res, Val(e, "x"), Val(e, "y"), Val(e, "z") >>

(*------------------------------ translations ------------------------------*)
UpperOf(c) == IF c \in Lower THEN LET i == CHOOSE j \in 1..26 : Ch("abcdefghijklmnopqrstuvwxyz", j) = c IN Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) ELSE c
LowerOf(c) == IF c \in Upper THEN LET i == CHOOSE j \in 1..26 : Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", j) = c IN Ch("abcdefghijklmnopqrstuvwxyz", i) ELSE c
RECURSIVE MapCh(_, _, _)
MapCh(s, F(_), i) == IF i > Len(s) THEN "" ELSE F(Ch(s, i)) \o MapCh(s, F, i + 1)
NameEnd(s, i) == IF At(s, i) \in Letters \cup {"_"} THEN RunEnd(s, i + 1, AlNum \cup {"_", "-"}) ELSE i
(* names are compared without case; what stands for nothing is left alone    *)
ValueOf(n, all, m) == LET low == MapCh(n, LowerOf, 1)
                          K == {k \in DOMAIN m : MapCh(k, LowerOf, 1) = low}
                      IN IF K = {} THEN all ELSE m[CHOOSE k \in K : TRUE]
RECURSIVE SubstR(_, _, _)
SubstR(s, i, m) ==
  IF i > Len(s) THEN ""
  ELSE LET a == NameEnd(s, i + 1)  b == NameEnd(s, i + 2) IN
       IF Ch(s, i) = "$" /\ a > i + 1
       THEN ValueOf(SubSeq(s, i + 1, a - 1), SubSeq(s, i, a - 1), m) \o SubstR(s, a, m)
       ELSE IF Ch(s, i) = "$" /\ At(s, i + 1) = "{" /\ b > i + 2 /\ At(s, b) = "}"
       THEN ValueOf(SubSeq(s, i + 2, b - 1), SubSeq(s, i, b), m) \o SubstR(s, b + 1, m)
       ELSE Ch(s, i) \o SubstR(s, i + 1, m)
Transform(s, dom) == CASE dom = "lower" -> MapCh(s, LowerOf, 1)
                       [] dom = "swapcase" -> LET Swap(c) == IF c \in Upper THEN LowerOf(c) ELSE UpperOf(c) IN MapCh(s, Swap, 1)
                       [] OTHER -> MapCh(s, UpperOf, 1)
(* m: what the message itself says about its domain, mapping and default;    *)
(* <<>> for a plain string                                                   *)
Translate(msg, dom, map, def, m) ==
  IF m = <<>> THEN SubstR(IF msg = "don't translate me" THEN def ELSE Transform(msg, dom), 1, map)
  ELSE SubstR(IF msg = "don't translate me" THEN (IF m[1].def = "(none)" THEN msg ELSE m[1].def) ELSE Transform(msg, m[1].dom), 1, m[1].map)

(*---------------------------------- Enum ----------------------------------*)
EnumOps == { Op("begin", "", ""), Op("end", "", ""), Op("local", "x", "v1"), Op("local", "y", "v2"),
             Op("global", "x", "g1"), Op("global", "z", "g2"), Op("code", "x", "c1"), Op("repeat", "x", "s2"), Op("repeat", "y", "sn"), Op("next", "", "") }
Name(op) == op.o \o ":" \o op.n \o ":" \o op.v
Depth == atoi(IOEnv.DEPTH)

VARIABLES e, hist, seen, no, i
vars == <<e, hist, seen, no, i>>

EnumInit == e = EInit /\ hist = <<>> /\ seen = <<>> /\ no = 0 /\ i = 0
EnumNext ==
  /\ Len(hist) < Depth
  /\ \E op \in EnumOps :
       /\ op.o = "next" => e.its # <<>>
       /\ op.o = "repeat" => Len(e.its) < 2
       /\ LET e2 == Apply(e, op)
              h == Append(hist, Name(op))
              s == Append(seen, Seen(e2))
          IN /\ e' = e2 /\ hist' = h /\ seen' = s
             /\ IF Len(h) = Depth THEN PrintT(ToJson([h |-> h, s |-> s])) ELSE TRUE
  /\ UNCHANGED <<no, i>>
EnumSpec == EnumInit /\ [][EnumNext]_vars

(* Closing a scope brings back exactly the locals at its opening.             *)
ScopesNest == \A k \in 1..Len(e.loc) : DOMAIN e.loc[k] \subseteq {"x", "y", "z"}
NeverEmpty == Len(e.loc) >= 1

(*---------------------------------- Trace ---------------------------------*)
Runs == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == e = EInit /\ hist = <<>> /\ seen = <<>> /\ no \in 1..Len(Runs) /\ i = 0
Expected(op) == IF op.o = "translate" THEN <<Translate(op.msg, op.dom, op.map, op.def, op.m)>> ELSE Seen(Apply(e, op))
TraceNext ==
  /\ i < Len(Runs[no].ops) /\ seen = <<>>
  /\ LET op == Runs[no].ops[i + 1] IN
     IF Expected(op) = op.seen
     THEN /\ e' = Apply(e, op) /\ i' = i + 1
          /\ seen' = IF i' = Len(Runs[no].ops) THEN <<"ok">> ELSE seen
          /\ IF i' = Len(Runs[no].ops) THEN PrintT(<<"VERDICT", no, i', {}>>) ELSE TRUE
     ELSE /\ PrintT(<<"VERDICT", no, i, {"SEEN"}, Expected(op)>>) /\ seen' = <<"bad">> /\ UNCHANGED <<e, i>>
  /\ UNCHANGED <<hist, no>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == <<no, i, seen>>
=============================================================================
