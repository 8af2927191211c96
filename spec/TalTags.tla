------------------------------ MODULE TalTags ------------------------------
(* The structure of HTML documents.  The machine reads a document tag by     *)
(* tag, with a piece of text after every tag, and at any point the document  *)
(* may end.  Every sequence of tags over the alphabet is explored; what the  *)
(* structure rules make of it is checked against the invariants below and    *)
(* written out so that it can be replayed in the implementation.             *)
(*                                                                           *)
(* IOEnv: ALPHA names the tags, LEN the number of tags in a document, CTL    *)
(* whether one of the elements may carry a statement.                        *)
EXTENDS TalRender, Json, IOUtils

VARIABLES
  toks,     \* what was read
  ps,       \* what the parser made of it
  gap,      \* the text between tags
  ctl,      \* the element (by position) that carries a statement; 0: none
  mode

Max == atoi(IOEnv.LEN)
Tags ==
  CASE IOEnv.ALPHA = "all" -> VoidTags \cup ParaTags \cup BlockTags \cup {"b"}
    [] IOEnv.ALPHA = "mixed" -> {"p", "h1", "h2", "li", "td", "tr", "dd", "div", "ul", "table", "b", "br"}
    [] IOEnv.ALPHA = "para" -> {"p", "h1", "div", "b"}
    [] IOEnv.ALPHA = "list" -> {"ul", "li", "p", "b"}
    [] IOEnv.ALPHA = "dl" -> {"dl", "dt", "dd", "p"}
    [] IOEnv.ALPHA = "table" -> {"table", "tr", "td", "th"}

Txt(s) == [k |-> "T", s |-> s]
Statement == [p |-> "tal", l |-> "condition", v |-> "c", h |-> TRUE, d |-> "c", f |-> ""]
Start(l, i) == [k |-> "S", p |-> "", l |-> l, attrs |-> IF i = ctl THEN <<Statement>> ELSE <<>>, pos |-> ToString(i), epos |-> NoPos, sc |-> FALSE]
End(l, i) == [k |-> "E", p |-> "", l |-> l, pos |-> ToString(i)]
Started == {toks[i].l : i \in {j \in 1..Len(toks) : toks[j].k = "S"}}
Count == Cardinality({j \in 1..Len(toks) : toks[j].k # "T"})

TagsAsk(s, q) == { [r |-> [t |-> "b", id |-> "", s |-> "1", toks |-> <<>>, def |-> "(none)"], s |-> [s EXCEPT !.k = @ + 1]] }
Opts == [tal |-> TRUE, metal |-> TRUE, showtal |-> FALSE, strict |-> TRUE, limit |-> 3, wrap |-> 0, interp |-> TRUE, annot |-> FALSE]

TagsInit ==
  /\ cs = 0 /\ st = [ph |-> "-"] /\ toks = <<>> /\ mode = "read"
  /\ gap \in {"~", " \n "}
  /\ ctl \in IF IOEnv.CTL = "1" THEN 1..Max ELSE {0}
  /\ ps = ParseInit(TRUE, "", FALSE, [subs |-> <<>>, ia |-> <<>>])

Read ==
  /\ mode = "read" /\ Count < Max /\ ps.err = {}
  /\ \E t \in {Start(l, Count + 1) : l \in Tags} \cup {End(l, Count + 1) : l \in Started \cup {"i"}} :
       /\ Count + 1 = ctl => t.k = "S"
       /\ toks' = toks \o <<t, Txt(gap)>>
       /\ ps' = LET p == ParseTok(ps, t) IN IF p.err # {} THEN p ELSE ParseTok(p, Txt(gap))
  /\ UNCHANGED <<cs, st, gap, ctl, mode>>

Refuse ==
  /\ mode = "read" /\ ps.err # {} /\ mode' = "said"
  /\ PrintT(ToJson([toks |-> toks, err |-> ps.err]))
  /\ UNCHANGED <<cs, st, toks, ps, gap, ctl>>

(* The document ends here. *)
Finish ==
  /\ mode = "read" /\ ps.err = {} /\ toks # <<>> /\ Count >= ctl
  /\ LET q == ParseEOF(ps) IN
     /\ ps' = q
     /\ IF q.err # {} THEN mode' = "read" /\ st' = st
        ELSE mode' = "write" /\ st' = RenderInit(Tree(q), TRUE, "", Opts, "default")
  /\ UNCHANGED <<cs, toks, gap, ctl>>

WriteOn == mode = "write" /\ st.ph = "run" /\ RenderStep /\ UNCHANGED <<cs, toks, ps, gap, ctl, mode>>

Say ==
  /\ mode = "write" /\ st.ph = "done" /\ mode' = "said"
  /\ PrintT(ToJson([toks |-> toks, out |-> st.out, exc |-> st.ex]))
  /\ UNCHANGED <<cs, st, toks, ps, gap, ctl>>

TagsNext == Read \/ Refuse \/ Finish \/ WriteOn \/ Say
TagsSpec == TagsInit /\ [][TagsNext]_<<cs, st, toks, ps, gap, ctl, mode>>

(*------------------------------- invariants -------------------------------*)
Open == Names(ps)
(* Some block keeps two open elements apart.                                  *)
Apart(i, j, not) == \E k \in (i+1)..(j-1) : Open[k] \in BlockTags \ not
NoVoidOpen == \A i \in 1..Len(Open) : Open[i] \notin VoidTags
NoNestedParagraphs ==
  \A i, j \in 1..Len(Open) : i < j /\ {Open[i], Open[j]} \subseteq ParaTags => Apart(i, j, {})
NoNestedItems ==
  \A i, j \in 1..Len(Open) : i < j /\ Open[j] \in DOMAIN ClosesMap /\ Open[i] \in ClosesMap[Open[j]]
      => Apart(i, j, ClosesMap[Open[j]])
(* A paragraph contains no block.                                             *)
NoBlockInParagraph ==
  \A i \in 1..Len(Open)-1 : Open[i] \in ParaTags => Open[i+1] \notin (BlockTags \ DOMAIN ClosesMap)
(* Nothing is lost: all the tags read and texts between them are written, and *)
(* there is an end tag for every element that has content.                    *)
Occurs(s, t) == Cardinality({i \in 1..Len(s) : StartsAt(s, i, t)})
NothingLost ==
  (mode = "said" /\ ps.err = {}) =>
    /\ \A l \in Started :
         LET n == Cardinality({j \in 1..Len(toks) : toks[j].k = "S" /\ toks[j].l = l}) IN
         /\ Occurs(st.out, "<" \o l \o ">") = n
         /\ Occurs(st.out, "</" \o l \o ">") = IF l \in VoidTags THEN 0 ELSE n
    /\ Occurs(st.out, gap) = Count
    /\ st.ex = "" /\ st.bufs = <<>>
=============================================================================
