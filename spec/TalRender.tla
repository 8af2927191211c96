----------------------------- MODULE TalRender -----------------------------
(* Rendering of a template tree against an expression engine: a small-step  *)
(* abstract machine.  The machine state is one record; ctl is the stack of  *)
(* things still to do (last element first).                                 *)
(*                                                                          *)
(* Everything the machine asks of the engine goes through Ask: the engine's *)
(* answer is nondeterministic (any value, or an error).  A module that       *)
(* extends this one decides where the answers come from: from a recorded    *)
(* execution of the implementation (TalTrace) or from finite sets (TalMC).  *)
EXTENDS TalParse

VARIABLES
  cs,     \* the case: documents, options (and, for traces, what was observed)
  st      \* the machine

CONSTANTS AskR(_, _)   \* AskR(s, q): set of [r |-> answer, s |-> state] for question q

opt(s) == s.opts

(*------------------------------ stack helpers -----------------------------*)
Top(s) == Last(s.ctl)
Pop(s) == [s EXCEPT !.ctl = Front(@)]
Push(s, fs) == [s EXCEPT !.ctl = @ \o Rev(fs)]            \* fs[1] runs first
Go(s, fs) == [s EXCEPT !.ctl = Front(@) \o Rev(fs)]       \* replace the top
SetTop(s, f) == [s EXCEPT !.ctl = Append(Front(@), f)]

RenderInit(kids, html, file, opts, dom) ==
  [ctl |-> << [k |-> "nodes", ns |-> kids, i |-> 1, fv |-> TRUE] >>
             \o (IF file # "" THEN <<[k |-> "src0", file |-> file]>> ELSE <<>>),
   out |-> "", bufs |-> <<>>, trash |-> 0, env |-> <<EmptyMap>>, glob |-> EmptyMap,
   ms |-> <<>>, inuse |-> FALSE, dom |-> dom, trs |-> <<>>,
   pos |-> NoPos, src |-> "", pend |-> FALSE, col |-> 0,
   html |-> html, opts |-> opts,
   ex |-> "", expc |-> FALSE, k |-> 0, log |-> <<>>, bad |-> {}, ph |-> "run"]

(*--------------------------------- output ---------------------------------*)
RECURSIVE UpTo(_, _, _)
UpTo(t, i, c) == IF i > Len(t) \/ Ch(t, i) = c THEN SubSeq(t, 1, i - 1) ELSE UpTo(t, i + 1, c)
LineOf(p) == UpTo(p, 1, ":")
Marker(s) == "{@" \o s.src \o "|" \o LineOf(s.pos) \o "@}"
(* An annotation belongs to the next non-blank text: white space between the *)
(* two is of no account.                                                     *)
RECURSIVE FindAt(_, _, _)
FindAt(t, i, w) == IF i + Len(w) - 1 > Len(t) THEN 0 ELSE IF StartsAt(t, i, w) THEN i ELSE FindAt(t, i + 1, w)
RECURSIVE FloatR(_, _)
FloatR(t, acc) ==
  LET i == FindAt(t, 1, "{@") IN
  IF i = 0 THEN acc \o t
  ELSE LET j == FindAt(t, i, "@}") + 2
           k == RunEnd(t, j, WSChars)
       IN FloatR(From(t, k), acc \o SubSeq(t, 1, i - 1) \o SubSeq(t, j, k - 1) \o SubSeq(t, i, j - 1))
Canon(s, t) == IF s.opts.annot THEN FloatR(t, "") ELSE t
CountK(s, K) == Cardinality({i \in 1..Len(s.ctl) : s.ctl[i].k \in K})
(* Captured text (a message, the value of a name, inline code) is never      *)
(* annotated; the annotation waits for the next text that is output.         *)
Captured(s) == CountK(s, {"evar", "etr", "ecode"}) > 0
Write(s, t) ==
  IF t = "" THEN s
  ELSE LET annotate == s.pend /\ s.trash = 0 /\ ~Captured(s) /\ ~Blank(t) /\ ~(StartsAt(t, 1, "<?xml") /\ IsWS(At(t, 6)))
       IN [s EXCEPT !.out = @ \o (IF annotate THEN Marker(s) ELSE "") \o t,
                    !.pend = IF annotate THEN FALSE ELSE @,
                    !.col = ColAfter(@, t)]
PushBuf(s) == [s EXCEPT !.bufs = Append(@, s.out), !.out = ""]
PopBuf(s) == [s EXCEPT !.out = Last(s.bufs), !.bufs = Front(@)]

(*--------------------------------- variables ------------------------------*)
BeginScope(s) == [s EXCEPT !.env = Append(@, EmptyMap)]
EndScope(s) == [s EXCEPT !.env = Front(@)]
SetLocal(s, n, v) == [s EXCEPT !.env[Len(s.env)] = Put(@, n, v)]
SetGlobal(s, n, v) == [s EXCEPT !.glob = Put(@, n, v)]
VisNames(s) == UNION {DOMAIN s.env[i] : i \in 1..Len(s.env)} \cup DOMAIN s.glob
Lookup(s, n) ==
  LET at == {i \in 1..Len(s.env) : n \in DOMAIN s.env[i]}
  IN IF at # {} THEN s.env[CHOOSE i \in at : \A j \in at : j <= i][n]
     ELSE IF n \in DOMAIN s.glob THEN s.glob[n] ELSE ""
AttrsVar(n) == [x \in {n.attrs[i].n : i \in 1..Len(n.attrs)} \cup {"_"} |->
                 IF x = "_" THEN ""
                 ELSE LET i == CHOOSE j \in 1..Len(n.attrs) : n.attrs[j].n = x
                      IN IF n.attrs[i].h THEN n.attrs[i].v ELSE "(none)"]

(*--------------------------------- errors ---------------------------------*)
(* An error unwinds to the innermost handler, which finds the machine as it  *)
(* was when the handler was installed -- except for global variables and     *)
(* variables of scopes that are still open.                                  *)
Handlers(s) == {i \in 1..Len(s.ctl) : s.ctl[i].k = "onE"}
Raise(s, x, pc) ==
  IF Handlers(s) = {} THEN [s EXCEPT !.ex = x, !.ph = "done"]
  ELSE
  LET h == CHOOSE i \in Handlers(s) : \A j \in Handlers(s) : j <= i
      f == s.ctl[h]
      v == f.sv
  IN SetLocal([s EXCEPT !.ctl = SubSeq(@, 1, h - 1) \o <<[k |-> "hnd", n |-> f.n, x |-> x, epos |-> s.pos, pc |-> pc]>>,
               !.out = v.out, !.bufs = v.bufs, !.trash = v.trash, !.col = v.col,
               !.env = SubSeq(@, 1, v.depth), !.dom = v.dom, !.ms = v.ms, !.inuse = v.inuse,
               !.trs = v.trs, !.pos = v.pos, !.src = v.src, !.pend = v.pend],
              "macroname", v.mn)

Snapshot(s) == [out |-> s.out, bufs |-> s.bufs, trash |-> s.trash, col |-> s.col, depth |-> Len(s.env),
                dom |-> s.dom, ms |-> s.ms, inuse |-> s.inuse, trs |-> s.trs, pos |-> s.pos, src |-> s.src, pend |-> s.pend,
                mn |-> Lookup(s, "macroname")]

(*-------------------------- element structure -----------------------------*)
(* METAL wrappers, outermost first.                                          *)
Fr(k, n, fv) == [k |-> k, n |-> n, fv |-> fv]
InF(n) == << Fr("ctx", n, TRUE) >>
SlotF(n) == IF n.M.defs # "" THEN << Fr("slot", n, TRUE) >> ELSE InF(n)
UseF(n) == IF n.M.usem # "" THEN << Fr("use", n, TRUE) >> ELSE SlotF(n)
MacF(n) == << Fr("src", n, TRUE) >> \o UseF(n)
DefF(n) == IF n.M.defm # "" THEN << Fr("dfm", n, TRUE) >> ELSE UseF(n)
FilF(n) == << Fr("src", n, TRUE) >> \o DefF(n)
ElF(n) == (IF n.M.fill # "" THEN FilF(n) ELSE DefF(n))
          \o (IF n.M.usem # "" \/ n.M.defs # "" THEN << Fr("aft", n, TRUE) >> ELSE <<>>)

(*--------------------------- attribute planning ---------------------------*)
RECURSIVE SortByO(_)
SortByO(q) == IF q = <<>> THEN <<>>
              ELSE LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i].o <= q[j].o
                   IN <<q[m]>> \o SortByO(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
NamesOf(q) == {q[i].n : i \in 1..Len(q)}
Pick(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
ReplItem(subs, ia, n) ==
  [e |-> IF n \in NamesOf(subs) THEN Pick(subs, n).e ELSE "",
   x |-> n \in NamesOf(ia), m |-> IF n \in NamesOf(ia) THEN Pick(ia, n).m ELSE ""]
(* source attributes in place, then new ones in alphabetical order           *)
Plan(attrs, subs, ia) ==
  LET named == NamesOf(subs) \cup NamesOf(ia)
      have == NamesOf(attrs)
      old == [i \in 1..Len(attrs) |->
               LET a == attrs[i] IN
               IF a.n \in named
               THEN LET r == ReplItem(subs, ia, a.n) IN [n |-> a.n, v |-> a.v, h |-> a.h, a |-> "replace", e |-> r.e, x |-> r.x, m |-> r.m]
               ELSE [n |-> a.n, v |-> a.v, h |-> a.h, a |-> a.k, e |-> "", x |-> FALSE, m |-> ""]]
      NewS(u) == u.n \notin have
      NewI(u) == u.n \notin have /\ u.n \notin NamesOf(subs)
      S == [i \in 1..Len(subs) |-> [n |-> subs[i].n, o |-> subs[i].o]]
      J == [i \in 1..Len(ia) |-> [n |-> ia[i].n, o |-> ia[i].o]]
      fresh == SortByO(SelFrom(S, NewS, 1) \o SelFrom(J, NewI, 1))
  IN old \o [i \in 1..Len(fresh) |->
               LET r == ReplItem(subs, ia, fresh[i].n)
               IN [n |-> fresh[i].n, v |-> "", h |-> FALSE, a |-> "insert", e |-> r.e, x |-> r.x, m |-> r.m]]

BoolAttrs == {"compact","nowrap","ismap","declare","noshade","checked","disabled","readonly","multiple","selected","noresize","defer"}

RECURSIVE LastColon(_, _)
LastColon(t, i) == IF i = 0 THEN 0 ELSE IF Ch(t, i) = ":" THEN i ELSE LastColon(t, i - 1)

(* METAL attributes shown in macro-expansion mode.                           *)
ShowAttr(s, it) ==     \* [s |-> state, q |-> sequence of rendered attributes]
  LET plain == [s |-> s, q |-> << IF it.h THEN it.n \o "=" \o Quote(it.v) ELSE it.n >>]
      none == [s |-> s, q |-> <<>>]
  IN
  IF it.a = "insert" THEN none
  ELSE IF it.a = "metal" /\ opt(s).metal /\ s.ms # <<>>
  THEN IF \E i \in 2..Len(s.ms) : ~s.ms[i].ext THEN none
       ELSE IF ~Last(s.ms).entering THEN none
       ELSE LET s1 == [s EXCEPT !.ms[Len(s.ms)].entering = FALSE]
                c == LastColon(it.n, Len(it.n))
                pre == SubSeq(it.n, 1, c)
                suf == From(it.n, c + 1)
            IN IF suf = "define-macro"
               THEN [s |-> s1, q |-> (IF s.ms[1].dn # "" THEN <<pre \o "define-macro=" \o Quote(s.ms[1].dn)>> ELSE <<>>)
                                     \o (IF s.ms[1].nm # "" THEN <<pre \o "use-macro=" \o Quote(s.ms[1].nm)>> ELSE <<>>)]
               ELSE IF suf = "define-slot" THEN [s |-> s1, q |-> <<pre \o "fill-slot=" \o Quote(it.v)>>]
               ELSE IF suf = "fill-slot" THEN [plain EXCEPT !.s = s1]
               ELSE [none EXCEPT !.s = s1]
  ELSE plain

(* Write a start tag from rendered attributes, wrapping at the given width.  *)
FirstLine(t) == LET at == {i \in 1..Len(t) : Ch(t, i) = "\n"} IN IF at = {} THEN Len(t) ELSE (CHOOSE i \in at : \A j \in at : i <= j) - 1
RECURSIVE WrapR(_, _, _, _, _, _)
WrapR(q, i, col, align, wrap, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET n == FirstLine(q[i]) IN
       IF wrap > 0 /\ col >= align /\ col + 1 + n > wrap
       THEN WrapR(q, i + 1, ColAfter(align, q[i]), align, wrap, acc \o "\n" \o Spaces(align) \o q[i])
       ELSE WrapR(q, i + 1, ColAfter(col + 1, q[i]), align, wrap, acc \o " " \o q[i])
TagText(s, nm, q, sep) ==
  LET col == s.col + Len(nm) + 1
      al == IF 2 * (col + 1) >= opt(s).wrap THEN 4 ELSE col + 1
  IN "<" \o nm \o (IF opt(s).wrap = 0 THEN Cat([i \in 1..Len(q) |-> " " \o q[i]]) ELSE WrapR(q, 1, col, al, opt(s).wrap, "")) \o sep

(* A start tag nothing of which is computed.                                 *)
RECURSIVE ShowAll(_, _, _, _)
ShowAll(s, plan, i, acc) ==
  IF i > Len(plan) THEN [s |-> s, q |-> acc]
  ELSE LET it == plan[i] IN
       IF it.a = "" THEN ShowAll(s, plan, i + 1, Append(acc, StaticAttr(it)))
       ELSE IF ~opt(s).showtal THEN ShowAll(s, plan, i + 1, acc)
       ELSE LET r == ShowAttr(s, it) IN ShowAll(r.s, plan, i + 1, acc \o r.q)
StaticTag(s, nm, attrs, sep) ==
  LET r == ShowAll(s, Plan(attrs, <<>>, <<>>), 1, <<>>)
  IN Write(r.s, TagText(r.s, nm, r.q, sep))

(*================================ the actions =============================*)
Running(s) == s.ph = "run"
Is(s, k) == Running(s) /\ s.ctl # <<>> /\ Top(s).k = k

RECURSIVE TextRun(_, _, _)
TextRun(s, ns, i) == IF i <= Len(ns) /\ ns[i].t = "tx" THEN TextRun(Write(s, ns[i].s), ns, i + 1) ELSE [s |-> s, i |-> i]

(* A run of static text, then the next element.                              *)
DoNodes(s) ==
  LET f == Top(s) IN
  IF f.i > Len(f.ns) THEN Pop(s)
  ELSE LET r == TextRun(s, f.ns, f.i)
           s1 == SetTop(r.s, [f EXCEPT !.i = r.i + 1])
       IN IF r.i > Len(f.ns) THEN Pop(r.s)
          ELSE IF f.ns[r.i].t = "tg"
          THEN StaticTag(s1, f.ns[r.i].nm, f.ns[r.i].attrs, f.ns[r.i].sep)
          ELSE Push(s1, << Fr("el", f.ns[r.i], TRUE) >>)

DoEl(s) == LET n == Top(s).n IN [Go(s, ElF(n)) EXCEPT !.pos = n.pos]

SetSrc(s, n, p) == IF n.file = "" THEN s ELSE [s EXCEPT !.pos = p, !.src = n.file, !.pend = IF opt(s).annot THEN TRUE ELSE @]
DoSrc(s) == Pop(SetSrc(s, Top(s).n, Top(s).n.pos))
DoAft(s) == Pop(SetSrc(s, Top(s).n, Top(s).n.epos))
DoSrc0(s) == Pop([s EXCEPT !.src = Top(s).file, !.pend = opt(s).annot])

(* define-macro met in place: rendered like ordinary markup.                 *)
DoDefineMacro(s) ==
  LET n == Top(s).n IN
  [Go(s, MacF(n) \o << [k |-> "inu", v |-> s.inuse] >>) EXCEPT !.inuse = FALSE]
DoInUse(s) == Pop([s EXCEPT !.inuse = Top(s).v])

RECURSIVE AfterSlash(_, _)
AfterSlash(e, i) == IF i = 0 THEN e ELSE IF Ch(e, i) = "/" THEN From(e, i + 1) ELSE AfterSlash(e, i - 1)
ShortName(e) == AfterSlash(e, Len(e))

(* use-macro / extend-macro once the engine has produced the macro.          *)
EnterMacro(s, n, body) ==
  IF Len(s.ms) >= opt(s).limit THEN Raise(s, "METALError", FALSE)
  ELSE SetLocal(
        [Go(s, body \o << [k |-> "eus", inuse |-> s.inuse, src |-> s.src, mn |-> Lookup(s, "macroname")] >>)
           EXCEPT !.ms = Append(@, [nm |-> n.M.usem, slots |-> n.slots, dn |-> IF n.M.ext THEN n.M.defv ELSE "",
                                    ext |-> n.M.ext /\ s.inuse, entering |-> TRUE]),
                  !.inuse = TRUE],
        "macroname", ShortName(n.M.usem))
DoEndUse(s) ==
  LET f == Top(s) IN
  SetLocal([Pop(s) EXCEPT !.inuse = f.inuse, !.src = f.src, !.ms = Front(@)], "macroname", f.mn)

(* define-slot: who fills it?                                                *)
RECURSIVE ChainStart(_, _)
ChainStart(ms, i) == IF i > 1 /\ ms[i].ext THEN ChainStart(ms, i - 1) ELSE i
FillerAt(ms, name) ==   \* index of the macro use that fills the slot, or 0
  IF ms = <<>> THEN 0
  ELSE LET lo == ChainStart(ms, Len(ms))
           c == {i \in lo..Len(ms) : name \in DOMAIN ms[i].slots}
       IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
DoSlot(s) ==
  LET n == Top(s).n
      i == IF opt(s).metal THEN FillerAt(s.ms, n.M.defs) ELSE 0
  IN IF i = 0 THEN Go(s, InF(n))
     ELSE [Go(s, FilF(s.ms[i].slots[n.M.defs]) \o << [k |-> "unc", ch |-> SubSeq(s.ms, i, Len(s.ms))] >>)
             EXCEPT !.ms = SubSeq(@, 1, i - 1)]
DoEndSlot(s) ==
  LET ch == Top(s).ch IN
  [Pop(s) EXCEPT !.ms = @ \o [j \in 1..Len(ch) |-> [ch[j] EXCEPT !.entering = FALSE]]]

(* translation context, variable scope, error handler                        *)
DoCtx(s) ==
  LET n == Top(s).n
      scope == n.hasT \/ n.hasI
      s1 == IF n.I.ictx # "" THEN [s EXCEPT !.dom = n.I.ictx] ELSE s
      s2 == IF scope THEN (IF opt(s).tal THEN SetLocal(BeginScope(s1), "attrs", AttrsVar(n)) ELSE BeginScope(s1)) ELSE s1
      hasE == n.D.onerr.m # "" /\ opt(s).tal
      inner == << [k |-> "def", n |-> n, i |-> 1, fv |-> Top(s).fv /\ ~n.frag] >>
      s3 == IF hasE THEN PushBuf(s2) ELSE s2
  IN Go(s3, inner
            \o (IF hasE THEN << [k |-> "onE", n |-> n, sv |-> Snapshot(s2)] >> ELSE <<>>)
            \o (IF scope THEN << [k |-> "esc"] >> ELSE <<>>)
            \o (IF n.I.ictx # "" THEN << [k |-> "ectx", dom |-> s.dom] >> ELSE <<>>))
DoEndScope(s) == Pop(EndScope(s))
DoEndCtx(s) == Pop([s EXCEPT !.dom = Top(s).dom])
DoNoError(s) ==   \* the block succeeded: its output counts
  LET p == PopBuf(s) IN Pop([p EXCEPT !.out = @ \o s.out])

LoopF(n, fv) == IF n.D.rep.n # "" THEN << Fr("loop", n, fv) >> ELSE << Fr("var", n, fv) >>
CondF(n, fv) == IF n.D.cond # "" THEN << Fr("cond", n, fv) >> ELSE LoopF(n, fv)

(*------------------------ questions to the engine -------------------------*)
NoX == [msgid |-> "", dom |-> "", map |-> EmptyMap, def |-> "", pos |-> "", code |-> ""]
Q(op, e, pc) == [op |-> op, e |-> e, pc |-> pc, x |-> NoX]
(* The states after the engine has answered question q: F handles a value.   *)
Asked(s, q, F(_, _)) ==
  { IF a.s.ph # "run" THEN a.s
    ELSE IF a.r.t = "raise" THEN Raise(a.s, a.r.id, q.pc)
    ELSE F(a.s, a.r) : a \in AskR(s, q) }
PC(n, fv) == fv /\ n.file # ""

QTr(s, msgid, map, def) == [op |-> "tr", e |-> "", pc |-> FALSE, x |-> [NoX EXCEPT !.msgid = msgid, !.dom = s.dom, !.map = map, !.def = def]]
(* Translation; with interpolation off the message id stands for itself.     *)
Translated(s, msgid, map, def, toks, F(_, _)) ==
  IF opt(s).interp THEN Asked(s, QTr(s, msgid, map, def), F)
  ELSE { F(s, [t |-> "s", id |-> "", s |-> msgid, toks |-> toks]) }

(* define *)
DoDefine(s) ==
  LET f == Top(s)  n == f.n IN
  IF ~opt(s).tal \/ f.i > Len(n.D.defs) THEN { Go(s, CondF(n, f.fv)) }
  ELSE LET d == n.D.defs[f.i]
           F(s1, r) == LET s2 == SetTop(s1, [f EXCEPT !.i = @ + 1])
                       IN IF d.sc = "global" THEN SetGlobal(s2, d.n, r.id) ELSE SetLocal(s2, d.n, r.id)
       IN Asked(s, Q("value", d.e, PC(n, f.fv)), F)

(* condition *)
DoCondition(s) ==
  LET f == Top(s)
      F(s1, r) == IF r.s = "1" THEN Go(s1, LoopF(f.n, f.fv)) ELSE Pop(s1)
  IN IF ~opt(s).tal THEN { Go(s, LoopF(f.n, f.fv)) }
     ELSE Asked(s, Q("bool", f.n.D.cond, PC(f.n, f.fv)), F)

(* repeat *)
DoLoop(s) ==
  LET f == Top(s)
      F(s1, r) == SetTop(s1, [k |-> "nxt", n |-> f.n, it |-> r.id, fv |-> f.fv])
  IN IF ~opt(s).tal THEN { Go(Write(s, f.n.ws), << Fr("var", f.n, f.fv) >>) }
     ELSE Asked(s, Q("repeat", f.n.D.rep.e, PC(f.n, f.fv)), F)
DoNext(s) ==
  LET f == Top(s)
      F(s1, r) == IF r.t = "end" THEN Pop(s1)
                  ELSE LET s2 == SetLocal(SetTop(s1, [f EXCEPT !.fv = FALSE]), f.n.D.rep.n, r.id)
                       IN Push(Write(s2, f.n.ws), << Fr("var", f.n, f.fv) >>)
  IN Asked(s, Q("next", f.it, FALSE), F)

(* i18n:name: the rendered element becomes a value of the enclosing unit     *)
DoVar(s) ==
  LET f == Top(s)  n == f.n IN
  IF n.I.nm = "" \/ ~opt(s).tal \/ s.trs = <<>> THEN SetTop(s, Fr("tag", n, f.fv))
  ELSE Go(PushBuf(s), << Fr("tag", n, f.fv), [k |-> "evar", n |-> n, pos |-> s.pos, col |-> s.col] >>)
DoEndVar(s) ==
  LET f == Top(s)
      v == IF s.html /\ f.n.nm = "pre" THEN s.out ELSE Normalize(s.out)
      s1 == [Pop(PopBuf(s)) EXCEPT !.pos = f.pos, !.col = f.col]
  IN Write([s1 EXCEPT !.trs[Len(s.trs)] = Put(@, f.n.I.nm, v)], "${" \o f.n.I.nm \o "}")

(* use-macro *)
DoUse(s) ==
  LET f == Top(s)  n == f.n
      F(s1, r) == IF r.t = "d" THEN EnterMacro(s1, n, SlotF(n))
                  ELSE IF r.t = "macro" THEN EnterMacro(s1, n, MacF(s1.macros[r.doc][r.name]))
                  ELSE Raise(s1, "METALError", FALSE)     \* wrong version, wrong mode, not a macro
  IN IF ~opt(s).metal THEN { Go(s, SlotF(n)) }
     ELSE Asked(s, Q("macro", n.M.usem, PC(n, TRUE)), F)

(* the element's own tags *)
KidsF(n) == << [k |-> "nodes", ns |-> n.kids, i |-> 1, fv |-> TRUE] >>
InnerF(n) == IF n.D.script # "" THEN << Fr("code", n, TRUE) >> ELSE KidsF(n)
ValF(n, v, tr, subs, ia, inner, fv) ==
  << [k |-> "val", n |-> n, m |-> v.m, e |-> v.e, tr |-> tr, subs |-> subs, ia |-> ia, inner |-> inner, fv |-> fv] >>
ContF(s, n, fv) ==
  IF n.D.cont.m # ""
  THEN IF opt(s).tal
       THEN ValF(n, n.D.cont, n.I.tr, IF n.D.repl THEN n.D.subs ELSE <<>>, IF n.D.repl THEN n.I.ia ELSE <<>>, InnerF(n), fv)
       ELSE InnerF(n)
  ELSE IF n.I.tr /\ opt(s).tal THEN << Fr("trn", n, fv) >> ELSE InnerF(n)
TagBody(s, n, fv, omitted) ==
  LET optional == n.D.omit.h \/ n.D.ttag # ""
      plan == IF n.D.repl THEN Plan(n.attrs, <<>>, <<>>) ELSE Plan(n.attrs, n.D.subs, n.I.ia)
      s1 == IF omitted THEN [PushBuf(s) EXCEPT !.trash = @ + 1] ELSE s
  IN Go(s1, << [k |-> "atr", n |-> n, plan |-> plan, i |-> 1, acc |-> <<>>, trash |-> omitted, col |-> s.col, fv |-> fv,
                w |-> [on |-> FALSE, msg |-> "", def |-> ""]] >>
            \o (IF optional /\ n.isend /\ ~omitted THEN <<>> ELSE ContF(s, n, fv))
            \o (IF ~omitted /\ ~n.isend THEN << Fr("etag", n, fv) >> ELSE <<>>))
DoTag(s) ==
  LET f == Top(s)  n == f.n
      nstag == n.D.ttag # "" /\ ~opt(s).showtal
      F(s1, r) == TagBody(s1, n, f.fv, nstag \/ r.s = "1")
  IN IF opt(s).tal /\ n.D.omit.h /\ n.D.omit.e # ""
     THEN Asked(s, Q("bool", n.D.omit.e, PC(n, f.fv)), F)
     ELSE { TagBody(s, n, f.fv, nstag \/ (opt(s).tal /\ n.D.omit.h)) }
DoEndTag(s) == Pop(Write(s, "</" \o Top(s).n.nm \o ">"))

(* start tag attributes, one at a time *)
Dynamic(it) == it.a \in {"replace", "insert"}
NextAttr(s, f, q) == SetTop(s, [f EXCEPT !.i = @ + 1, !.acc = @ \o q, !.w = [on |-> FALSE, msg |-> "", def |-> ""]])
Rendered(it, has, v) == << it.n \o "=" \o Quote(IF has THEN v ELSE it.n) >>
AttrValue(s, f, it, has, v, isMsg, mdef) ==   \* the attribute stays, with value v
  IF it.x /\ ~has /\ it.m = "" THEN NextAttr(s, f, Rendered(it, FALSE, ""))     \* nothing to translate
  ELSE IF it.x
  THEN LET m == IF it.m # "" THEN it.m ELSE v
       IN SetTop(s, [f EXCEPT !.w = [on |-> TRUE, msg |-> m, def |-> IF has THEN v ELSE m]])
  ELSE IF isMsg THEN SetTop(s, [f EXCEPT !.w = [on |-> TRUE, msg |-> v, def |-> mdef]])
  ELSE NextAttr(s, f, Rendered(it, has, v))
LowerCase(n) == n   \* attribute names of HTML documents are lower case already
DoAttr(s) ==
  LET f == Top(s)  n == f.n IN
  IF f.i > Len(f.plan)
  THEN LET sep == CloseSep(s.html, n.sc)
       IN { IF f.trash THEN [Pop(PopBuf(s)) EXCEPT !.trash = @ - 1, !.col = f.col]
            ELSE Pop(Write(s, TagText(s, n.nm, f.acc, sep))) }
  ELSE
  LET it == f.plan[f.i] IN
  IF it.a = "" THEN { NextAttr(s, f, << StaticAttr(it) >>) }
  ELSE IF ~Dynamic(it)
  THEN IF opt(s).showtal THEN LET r == ShowAttr(s, it) IN { NextAttr(r.s, f, r.q) } ELSE { NextAttr(s, f, <<>>) }
  ELSE IF ~opt(s).tal THEN LET r == ShowAttr(s, it) IN { NextAttr(r.s, f, r.q) }
  ELSE IF f.w.on
  THEN LET F(s1, r) == NextAttr(s1, f, Rendered(it, TRUE, r.s))
       IN Translated(s, f.w.msg, EmptyMap, f.w.def, <<>>, F)
  ELSE IF it.e = "" THEN { AttrValue(s, f, it, it.h, it.v, FALSE, "") }
  ELSE IF s.html /\ it.n \in BoolAttrs
  THEN LET F(s1, r) == IF r.t = "d" THEN (IF it.a = "insert" THEN NextAttr(s1, f, <<>>) ELSE AttrValue(s1, f, it, it.h, it.v, FALSE, ""))
                       ELSE IF r.s = "1" THEN AttrValue(s1, f, it, FALSE, "", FALSE, "") ELSE NextAttr(s1, f, <<>>)
       IN Asked(s, Q("bool", it.e, PC(n, f.fv)), F)
  ELSE LET F(s1, r) == IF r.t = "d" THEN (IF it.a = "insert" THEN NextAttr(s1, f, <<>>) ELSE AttrValue(s1, f, it, it.h, it.v, FALSE, ""))
                       ELSE IF r.t = "n" THEN NextAttr(s1, f, <<>>)
                       ELSE AttrValue(s1, f, it, TRUE, r.s, r.t = "m", IF r.t = "m" THEN r.def ELSE "")
       IN Asked(s, Q("text", it.e, PC(n, f.fv)), F)

(* content / replace / on-error value *)
PutStruct(s, f, text, toks) ==
  IF f.subs = <<>> /\ f.ia = <<>> /\ ~opt(s).strict THEN Pop(Write(s, text))
  ELSE LET ps == ParseAll(ParseInit(s.html, "", TRUE, [subs |-> f.subs, ia |-> f.ia]), toks, 1)
       IN IF ps.err # {} THEN Raise(s, (CHOOSE e \in ps.err : TRUE)[1], FALSE)
          ELSE Go(s, << [k |-> "nodes", ns |-> Tree(ps), i |-> 1, fv |-> FALSE] >>)
DoVal(s) ==
  LET f == Top(s)
      ToTr(s1, r, def) == SetTop(s1, [k |-> "vtr", f |-> f, msg |-> r.s, def |-> def, toks |-> r.toks])
      FT(s1, r) == CASE r.t = "n" -> Pop(s1)
                     [] r.t = "d" -> Go(s1, f.inner)
                     [] r.t = "m" -> ToTr(s1, r, r.def)
                     [] OTHER -> IF f.tr THEN ToTr(s1, r, r.s) ELSE Pop(Write(s1, EscText(r.s)))
      FS(s1, r) == CASE r.t = "n" -> Pop(s1)
                     [] r.t = "d" -> Go(s1, f.inner)
                     [] r.t = "m" -> ToTr(s1, r, r.def)
                     [] OTHER -> IF f.tr THEN ToTr(s1, r, r.s) ELSE PutStruct(s1, f, r.s, r.toks)
  IN IF f.m = "text" THEN Asked(s, Q("text", f.e, PC(f.n, f.fv)), FT)
     ELSE Asked(s, Q("struct", f.e, PC(f.n, f.fv)), FS)
DoValTr(s) ==
  LET g == Top(s)
      F(s1, r) == IF g.f.m = "text" THEN Pop(Write(s1, EscText(r.s)))
                  ELSE PutStruct(s1, g.f, r.s, r.toks)
  IN Translated(s, g.msg, EmptyMap, g.def, g.toks, F)

(* translation units *)
DoUnit(s) ==
  LET n == Top(s).n IN
  [Go(PushBuf(s), InnerF(n) \o << [k |-> "etr", n |-> n, pos |-> s.pos, col |-> s.col, fv |-> Top(s).fv] >>) EXCEPT !.trs = Append(@, EmptyMap)]
DoEndUnit(s) ==
  LET f == Top(s)  n == f.n
      def == s.out
      msg == IF n.I.msgid # "" THEN n.I.msgid ELSE IF s.html /\ n.nm = "pre" THEN def ELSE Normalize(def)
      s1 == [PopBuf(s) EXCEPT !.trs = Front(@), !.pos = f.pos, !.col = f.col]
      nxt(map) == [k |-> "etr2", n |-> n, map |-> map, msg |-> msg, def |-> def]
      mine == Last(s.trs)
      F(s2, r) == SetTop(s2, nxt([x \in (DOMAIN mine) \cup ((DOMAIN r.map) \ {"_"}) |->
                                    IF x \in DOMAIN r.map THEN r.map[x] ELSE mine[x]]))
  IN IF n.I.data # "" THEN Asked(s1, Q("eval", n.I.data, PC(n, f.fv)), F)
     ELSE { SetTop(s1, nxt(mine)) }
DoUnitTr(s) ==
  LET f == Top(s)
      F(s1, r) == Pop(Write(s1, r.s))
  IN Translated(s, f.msg, f.map, f.def, <<>>, F)

(* inline code *)
DoCode(s) == LET n == Top(s).n IN Go(PushBuf(s), KidsF(n) \o << [k |-> "ecode", n |-> n, col |-> s.col] >>)
DoEndCode(s) ==
  LET n == Top(s).n
      F(s1, r) == Write(Pop(s1), r.s)
  IN Asked([PopBuf(s) EXCEPT !.col = Top(s).col], [Q("code", n.D.script, FALSE) EXCEPT !.x.code = s.out], F)

(* the error handler *)
DoHandler(s) ==
  LET f == Top(s)  n == f.n
      hide == n.D.ttag # "" /\ ~opt(s).showtal
      v == ValF(n, n.D.onerr, FALSE, <<>>, <<>>, <<>>, TRUE)
      mark(s2) == IF hide THEN s2 ELSE StaticTag(s2, n.nm, n.attrs, ">")
      F(s1, r) == mark(SetLocal(Go(s1, (IF hide THEN v
                                        ELSE IF n.D.ttag # "" /\ n.isend THEN <<>>
                                        ELSE v \o << Fr("etag", n, TRUE) >>) \o << [k |-> "esc"] >>), "error", r.id))
  IN Asked(BeginScope(s), [Q("err", f.x, f.pc) EXCEPT !.x.pos = f.epos], F)

(*------------------------------- next-state -------------------------------*)
Det(k, F(_)) == Is(st, k) /\ st' = F(st)
Non(k, F(_)) == Is(st, k) /\ st' \in F(st)

A_Nodes == Det("nodes", DoNodes)
A_Element == Det("el", DoEl)
A_SetSource == Det("src", DoSrc)
A_FirstSource == Det("src0", DoSrc0)
A_AfterMetal == Det("aft", DoAft)
A_DefineMacro == Det("dfm", DoDefineMacro)
A_EndDefineMacro == Det("inu", DoInUse)
A_UseMacro == Non("use", DoUse)
A_EndUseMacro == Det("eus", DoEndUse)
A_DefineSlot == Det("slot", DoSlot)
A_EndFilledSlot == Det("unc", DoEndSlot)
A_Context == Det("ctx", DoCtx)
A_EndScope == Det("esc", DoEndScope)
A_EndContext == Det("ectx", DoEndCtx)
A_NoError == Det("onE", DoNoError)
A_Define == Non("def", DoDefine)
A_Condition == Non("cond", DoCondition)
A_Repeat == Non("loop", DoLoop)
A_RepeatNext == Non("nxt", DoNext)
A_Named == Det("var", DoVar)
A_EndNamed == Det("evar", DoEndVar)
A_Tag == Non("tag", DoTag)
A_EndTag == Det("etag", DoEndTag)
A_Attribute == Non("atr", DoAttr)
A_Value == Non("val", DoVal)
A_ValueTranslated == Non("vtr", DoValTr)
A_Unit == Det("trn", DoUnit)
A_EndUnit == Non("etr", DoEndUnit)
A_UnitTranslated == Non("etr2", DoUnitTr)
A_Code == Det("code", DoCode)
A_EndCode == Non("ecode", DoEndCode)
A_Handler == Non("hnd", DoHandler)
A_Finish == Running(st) /\ st.ctl = <<>> /\ st' = [st EXCEPT !.ph = "done"]

RenderStep ==
  \/ A_Nodes \/ A_Element \/ A_SetSource \/ A_FirstSource \/ A_AfterMetal \/ A_DefineMacro \/ A_EndDefineMacro
  \/ A_UseMacro \/ A_EndUseMacro \/ A_DefineSlot \/ A_EndFilledSlot \/ A_Context \/ A_EndScope \/ A_EndContext
  \/ A_NoError \/ A_Define \/ A_Condition \/ A_Repeat \/ A_RepeatNext \/ A_Named \/ A_EndNamed
  \/ A_Tag \/ A_EndTag \/ A_Attribute \/ A_Value \/ A_ValueTranslated \/ A_Unit \/ A_EndUnit
  \/ A_UnitTranslated \/ A_Code \/ A_EndCode \/ A_Handler \/ A_Finish

(*----------------------- invariants of the machine ------------------------*)
(* A completed rendering leaves no trace in the machine's context.           *)
Unwound(s) == (s.ph = "done" /\ s.ex = "" /\ s.bad = {}) =>
  /\ s.ctl = <<>> /\ s.bufs = <<>> /\ s.trash = 0 /\ Len(s.env) = 1
  /\ s.ms = <<>> /\ s.trs = <<>> /\ ~s.inuse /\ s.dom = "default"
(* Buffers, scopes and units are matched by what is still to be done.        *)
Balanced(s) == s.ph = "run" =>
  /\ Len(s.bufs) = CountK(s, {"onE", "evar", "etr", "ecode"}) + CountK(s, {"atr"}) - Cardinality({i \in 1..Len(s.ctl) : s.ctl[i].k = "atr" /\ ~s.ctl[i].trash})
  /\ Len(s.env) = 1 + CountK(s, {"esc"})
  /\ Len(s.trs) = CountK(s, {"etr"})
(* The nesting limit is never exceeded.                                      *)
Limited(s) == Len(s.ms) <= s.opts.limit
=============================================================================
