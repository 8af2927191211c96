------------------------------ MODULE TalText ------------------------------
(* Character-level facts about template text: escaping, quoting, white      *)
(* space.  Text is a TLA+ string; Ch(s, i) is its i-th character.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), Head(q))

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))

RECURSIVE JoinWith(_, _)
JoinWith(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1]
                    ELSE Head(q) \o sep \o JoinWith(Tail(q), sep)

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)

WSChars == {" ", "\n", "\t", "\r", "\f"}
IsWS(c) == c \in WSChars

Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == Upper \cup Lower
AlNum == Letters \cup Digits
Hex == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

Blank(s) == \A i \in 1..Len(s) : IsWS(Ch(s, i))

(* Text inserted into element content: markup characters are neutralised.   *)
EscTextCh(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] OTHER -> c
EscAttrCh(c) == IF c = "\"" THEN "&quot;" ELSE EscTextCh(c)

Special(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"&", "<", ">", "\""}

RECURSIVE EscTextR(_, _, _)
EscTextR(s, i, acc) == IF i > Len(s) THEN acc ELSE EscTextR(s, i + 1, acc \o EscTextCh(Ch(s, i)))
EscText(s) == IF Special(s) THEN EscTextR(s, 1, "") ELSE s

RECURSIVE EscAttrR(_, _, _)
EscAttrR(s, i, acc) == IF i > Len(s) THEN acc ELSE EscAttrR(s, i + 1, acc \o EscAttrCh(Ch(s, i)))
EscAttr(s) == IF Special(s) THEN EscAttrR(s, 1, "") ELSE s
Quote(s) == "\"" \o EscAttr(s) \o "\""

(* Reading back: what an HTML/XML reader makes of escaped text.             *)
Ents == {<<"&amp;", "&">>, <<"&lt;", "<">>, <<"&gt;", ">">>, <<"&quot;", "\"">>}
StartsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE UnEscR(_, _, _)
UnEscR(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF \E e \in Ents : StartsAt(s, i, e[1])
       THEN LET e == CHOOSE x \in Ents : StartsAt(s, i, x[1])
            IN UnEscR(s, i + Len(e[1]), acc \o e[2])
       ELSE UnEscR(s, i + 1, acc \o Ch(s, i))
UnEsc(s) == UnEscR(s, 1, "")
HasMarkupChar(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"<", ">", "\""}

(* Static attribute values are written back with "&" kept where it begins   *)
(* a terminated character or entity reference.                              *)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, set) == IF i <= Len(s) /\ Ch(s, i) \in set THEN RunEnd(s, i + 1, set) ELSE i
At(s, i) == IF i <= Len(s) THEN Ch(s, i) ELSE ""
RefAt(s, i) ==  \* s[i] = "&" : does a terminated reference start here?
  LET c == At(s, i + 1) IN
  IF c \in Letters THEN At(s, RunEnd(s, i + 1, AlNum)) = ";"
  ELSE IF c = "#"
       THEN LET d == At(s, i + 2) IN
            IF d \in {"x", "X"} THEN At(s, RunEnd(s, i + 3, Hex)) = ";"
            ELSE IF d \in Digits THEN At(s, RunEnd(s, i + 2, Digits)) = ";"
            ELSE FALSE
       ELSE FALSE
RECURSIVE AttrEscR(_, _, _)
AttrEscR(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i) IN
       AttrEscR(s, i + 1, acc \o (IF c = "&" /\ RefAt(s, i) THEN "&" ELSE EscAttrCh(c)))
AttrEscape(s) == IF Special(s) THEN AttrEscR(s, 1, "") ELSE s

(* White space collapsing: message ids and interpolation values.            *)
RECURSIVE NormR(_, _, _, _)
NormR(s, i, acc, gap) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i) IN
       IF IsWS(c) THEN NormR(s, i + 1, acc, TRUE)
       ELSE NormR(s, i + 1, acc \o (IF gap /\ acc # "" THEN " " ELSE "") \o c, FALSE)
Normalize(s) == NormR(s, 1, "", FALSE)

(* Trailing white space of a text (position of its first character).        *)
RECURSIVE TrailFrom(_, _, _)
TrailFrom(s, i, set) == IF i >= 1 /\ Ch(s, i) \in set THEN TrailFrom(s, i - 1, set) ELSE i + 1

(* "\r?\n[ \t]*" at the end of the text, or "" if the text does not end so. *)
NewlineTail(s) ==
  LET j == TrailFrom(s, Len(s), {" ", "\t"}) IN      \* s[j..] is blanks
  IF j >= 2 /\ Ch(s, j - 1) = "\n"
  THEN IF j >= 3 /\ Ch(s, j - 2) = "\r" THEN From(s, j - 2) ELSE From(s, j - 1)
  ELSE ""

(* Output column after writing s at column c.                               *)
RECURSIVE LastNL(_, _)
LastNL(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "\n" THEN i ELSE LastNL(s, i - 1)
ColAfter(c, s) == LET k == LastNL(s, Len(s)) IN IF k = 0 THEN c + Len(s) ELSE Len(s) - k

(* Finite maps with string keys.                                            *)
EmptyMap == [x \in {} |-> ""]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SelFrom(_, _, _)
SelFrom(q, P(_), i) == IF i > Len(q) THEN <<>>
                       ELSE IF P(q[i]) THEN <<q[i]>> \o SelFrom(q, P, i + 1)
                       ELSE SelFrom(q, P, i + 1)

(* names such as macro, slot and interpolation names                        *)
IsName(s) == /\ Len(s) > 0
             /\ Ch(s, 1) \in Letters \cup {"_"}
             /\ \A i \in 2..Len(s) : Ch(s, i) \in AlNum \cup {"_", "-"}
=============================================================================
