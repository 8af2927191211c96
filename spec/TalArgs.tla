------------------------------ MODULE TalArgs ------------------------------
(* The argument grammar of the statements, character by character, and the  *)
(* validation of what the implementation makes of argument strings.         *)
(*   define, attributes   parts separated by single semicolons              *)
(*   content, replace, on-error   [text|structure] expression               *)
(*   repeat   name expression                                               *)
(*   i18n:attributes   attribute [message id], separated by semicolons      *)
EXTENDS TalText, Json, IOUtils

(*------------------------------- splitting --------------------------------*)
(* A doubled semicolon is a semicolon, a single one ends the part.          *)
RECURSIVE SplitR(_, _, _, _)
SplitR(s, i, part, parts) ==
  IF i > Len(s) THEN Append(parts, part)
  ELSE IF Ch(s, i) # ";" THEN SplitR(s, i + 1, part \o Ch(s, i), parts)
  ELSE IF At(s, i + 1) = ";" THEN SplitR(s, i + 2, part \o ";", parts)
  ELSE SplitR(s, i + 1, "", Append(parts, part))
Parts(s) == LET p == SplitR(s, 1, "", <<>>)
            IN IF Len(p) > 1 /\ Blank(Last(p)) THEN Front(p) ELSE p

(*--------------------------------- words ----------------------------------*)
NonWS(s, i) == RunEnd(s, i, WSChars)                 \* first non-blank at or after i
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ ~IsWS(Ch(s, i)) THEN WordEnd(s, i + 1) ELSE i
(* The first word, what follows it after white space, and whether there was  *)
(* any white space after the word.                                           *)
Word(s) ==
  LET a == NonWS(s, 1)  b == WordEnd(s, a)
  IN [w |-> SubSeq(s, a, b - 1), sp |-> b <= Len(s), rest |-> From(s, NonWS(s, b))]
Stripped(s) == From(s, NonWS(s, 1))

Bad == [ok |-> FALSE, q |-> <<>>]
Good(q) == [ok |-> TRUE, q |-> q]

(* [global|local] name expression *)
DefPart(p) ==
  LET w == Word(p)  v == Word(w.rest) IN
  IF w.w \in {"global", "local"} /\ w.sp /\ IsName(v.w) /\ v.sp
  THEN Good(<< <<w.w, v.w, v.rest>> >>)
  ELSE IF IsName(w.w) /\ w.sp THEN Good(<< <<"local", w.w, w.rest>> >>)
  ELSE Bad
(* name expression *)
AttPart(p) == LET w == Word(p) IN IF w.w # "" /\ w.sp /\ w.rest # "" THEN Good(<< <<"", w.w, w.rest>> >>) ELSE Bad
RECURSIVE All(_, _, _)
All(parts, F(_), i) ==
  IF i > Len(parts) THEN Good(<<>>)
  ELSE LET a == F(parts[i]) b == All(parts, F, i + 1)
       IN IF a.ok /\ b.ok THEN Good(a.q \o b.q) ELSE Bad

LowerMap == [x \in Upper |-> CHOOSE y \in Lower : \E i \in 1..26 :
              /\ Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) = x /\ Ch("abcdefghijklmnopqrstuvwxyz", i) = y]
RECURSIVE LowerR(_, _)
LowerR(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in Upper THEN LowerMap[Ch(s, i)] ELSE Ch(s, i)) \o LowerR(s, i + 1)
Distinct(r) == IF r.ok /\ \E i, j \in 1..Len(r.q) : i < j /\ r.q[i][2] = r.q[j][2] THEN Bad ELSE r
Names(r, F(_)) == IF r.ok THEN Good([i \in 1..Len(r.q) |-> <<r.q[i][1], F(r.q[i][2]), r.q[i][3]>>]) ELSE r

Define(s) == All(Parts(s), DefPart, 1)
Attributes(s, html) == LET F(n) == IF html THEN LowerR(n, 1) ELSE n IN Distinct(Names(All(Parts(s), AttPart, 1), F))
Subst(s) == LET w == Word(s) IN
            IF w.w \in {"text", "structure"} /\ w.sp THEN Good(<< <<w.w, "", w.rest>> >>)
            ELSE Good(<< <<"text", "", Stripped(s)>> >>)
Repeat(s) == LET w == Word(s) IN IF IsName(w.w) /\ w.sp THEN Good(<< <<"", w.w, w.rest>> >>) ELSE Bad

(* i18n:attributes: no doubling; blank parts are ignored *)
RECURSIVE ISplitR(_, _, _)
ISplitR(s, i, part) ==
  IF i > Len(s) THEN IF Blank(part) THEN <<>> ELSE <<part>>
  ELSE IF Ch(s, i) = ";" THEN (IF Blank(part) THEN <<>> ELSE <<part>>) \o ISplitR(s, i + 1, "")
  ELSE ISplitR(s, i + 1, part \o Ch(s, i))
IPart(p) == LET w == Word(p)  v == Word(w.rest) IN
            IF w.w # "" /\ v.rest = "" THEN Good(<< <<"", w.w, v.w>> >>) ELSE Bad
IAttributes(s, html) == LET F(n) == IF html THEN LowerR(n, 1) ELSE n IN Distinct(Names(All(ISplitR(s, 1, ""), IPart, 1), F))

Meaning(kind, s, html) ==
  IF s = "" THEN Bad       \* a statement needs an argument
  ELSE CASE kind = "define" -> Define(s)
         [] kind = "attributes" -> Attributes(s, html)
         [] kind \in {"content", "replace", "on-error"} -> Subst(s)
         [] kind = "repeat" -> Repeat(s)
         [] kind = "iattributes" -> IAttributes(s, html)

Unordered(kind) == kind \in {"attributes", "iattributes"}

(*------------------------- what was observed ------------------------------*)
Obs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES no, verdict
RTrim(s) == SubSeq(s, 1, TrailFrom(s, Len(s), WSChars) - 1)
(* declared meanings (trim) disregard white space after an expression        *)
Trimmed(m) == [m EXCEPT !.q = [i \in 1..Len(m.q) |-> <<m.q[i][1], m.q[i][2], RTrim(m.q[i][3])>>]]
Judge(o) ==
  LET m0 == Meaning(o.kind, o.s, o.html)
      m == IF o.trim THEN Trimmed(m0) ELSE m0 IN
  IF ~m.ok THEN IF o.ok THEN {"ACCEPTED"} ELSE IF o.c \notin {"TALError", "I18NError"} THEN {"ERROR"} ELSE {}
  ELSE IF ~o.ok THEN {"REFUSED"}
  ELSE IF Unordered(o.kind) THEN (IF Range(m.q) # Range(o.q) \/ Len(m.q) # Len(o.q) THEN {"MEANING"} ELSE {})
  ELSE IF m.q # o.q THEN {"MEANING"} ELSE {}
Init == no \in 1..Len(Obs) /\ verdict = {"-"}
Next == verdict = {"-"} /\ verdict' = Judge(Obs[no]) /\ no' = no
        /\ IF verdict' # {} THEN PrintT(<<"VERDICT", no, verdict', Meaning(Obs[no].kind, Obs[no].s, Obs[no].html)>>) ELSE TRUE
Spec == Init /\ [][Next]_<<no, verdict>>

(* every string over the alphabet up to the given length has been observed   *)
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN {""} ELSE LET S == Strings(A, n - 1) IN S \cup {x \o y : x \in A, y \in S}
Plan == ndJsonDeserialize(IOEnv.PLAN)
ASSUME \A i \in 1..Len(Plan) :
  LET p == Plan[i]
      have == {Obs[j].s : j \in {x \in 1..Len(Obs) : Obs[x].kind = p.kind /\ Obs[x].html = p.html}}
      want == Strings(Range(p.alphabet), p.len)
  IN /\ want \subseteq have
     /\ PrintT(<<"EXHAUSTIVE", p.kind, p.html, p.len, Cardinality(want)>>)
=============================================================================
