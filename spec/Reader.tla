------------------------------- MODULE Reader -------------------------------
(* The pull reader as a state machine.                                      *)
(*                                                                          *)
(* The environment is a document, given as the tokens a namespace-aware     *)
(* parser produces:                                                         *)
(*   S  start tag   [p, l, d: declarations, a: attributes, r, c: position]  *)
(*   E  end tag     [r, c]          (0,0 = position unspecified)            *)
(*   T  all character data up to the next tag  [s: code points, positions,  *)
(*      opt: TRUE if the parser may fail before delivering all of it]       *)
(*   Z  proper end of the document                                          *)
(*   X  the parser (or its source) fails here, now and ever after [r, c]    *)
(* and the handlers: at each callback they choose what to do.               *)
(*                                                                          *)
(* The state mirrors the call stack between library and handlers:           *)
(*   V  handler holds a child  (st: new, fresh, ok, err)                    *)
(*   R  the child is being read (attributes, then content)                  *)
(*   A, C  an attribute / character data callback is outstanding            *)
(*   G  the child is being read as a string                                 *)
(*   K, F  a read succeeded / failed, about to be reported to the handler   *)
(*   SK skipping to the end of whatever the handler left unread             *)
(*                                                                          *)
(* `stack` is what errors report; it keeps the element which just ended     *)
(* until its handler has returned.                                          *)
(* `saved` is the last error a handler discarded; any handler may return it  *)
(* later, just as one from a document of its own ("foreign").               *)
EXTENDS Names, TLC

CONSTANT DocOf(_)   \* the tokens of a document, by its number
D(st) == DocOf(st.doc)

NoPos == <<0, 0>>
NoErr == [kind |-> "none", stack |-> <<>>, urls |-> <<>>, lo |-> 0, pos |-> NoPos, pos2 |-> NoPos, msg |-> "", o |-> NoPos]

Init0(d) ==
  [doc |-> d, pc |-> 1, rem |-> <<>>, open |-> <<>>, stack |-> <<>>, urls |-> <<>>, scopes |-> <<>>,
   frames |-> <<>>, status |-> "start", err |-> NoErr, saved |-> NoErr]

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Tok(st) == D(st)[st.pc]
Top(st) == Last(st.frames)
SetTop(st, f) == [st EXCEPT !.frames = Append(Front(@), f)]
PopF(st) == [st EXCEPT !.frames = Front(@)]
PushF(st, f) == [st EXCEPT !.frames = Append(@, f)]
ScopeNow(st) == IF st.scopes = <<>> THEN NoScope ELSE Last(st.scopes)

Advance(st) ==
  LET n == D(st)[st.pc + 1]
  IN  [st EXCEPT !.pc = @ + 1, !.rem = IF n.k = "T" THEN n.s ELSE <<>>]

EnterTag(st) ==   \* consume S
  LET t == Tok(st)
      sc == Declare(ScopeNow(st), t.d)
      st2 == [st EXCEPT !.open = Append(@, st.pc), !.stack = Append(@, st.pc),
                        !.urls = Append(@, ElementUrl(sc, t.p)), !.scopes = Append(@, sc)]
  IN  Advance(st2)
LeaveTag(st) ==   \* consume E; the stack is trimmed later
  Advance([st EXCEPT !.open = Front(@), !.scopes = Front(@)])
Trim(st) == [st EXCEPT !.stack = SubSeq(@, 1, Len(st.open)), !.urls = SubSeq(@, 1, Len(st.open))]

PosOf(st, i) == <<D(st)[i].r, D(st)[i].c>>
\* The parser fails: X may bound where from below (0,0 = unspecified).
XmlErr(st) ==
  LET e == [NoErr EXCEPT !.kind = "xml", !.stack = st.open, !.urls = SubSeq(st.urls, 1, Len(st.open)), !.lo = Len(st.open)]
  IN  IF Tok(st).k = "X" /\ Tok(st).r # 0 THEN [e EXCEPT !.pos = PosOf(st, st.pc), !.pos2 = <<1000000, 1>>] ELSE e
\* An error raised by a handler while it works on the element at depth `lo`.
UserErr(st, lo, pos, pos2, m) ==
  [kind |-> "user", stack |-> st.stack, urls |-> st.urls, lo |-> lo, pos |-> pos, pos2 |-> pos2, msg |-> m, o |-> NoPos]

Attrs(st, f) == D(st)[f.i].a

Finish(st, e) == [st EXCEPT !.status = "done", !.err = e, !.frames = <<>>]

---------------------------------------------------------------------------
(* Steps of the library which nobody observes.                             *)

RNext(st) == Top(st).k = "R" /\ Top(st).ai > Len(Attrs(st, Top(st)))

CanSilent(st) ==
  \/ st.status = "start"
  \/ st.status = "end"
  \/ /\ st.status = "run"
     /\ \/ Top(st).k \in {"SK", "G"}
        \/ RNext(st) /\ (Tok(st).k # "T" \/ st.rem = <<>>)

Begin(st) ==
  IF Tok(st).k = "S"
  THEN PushF([EnterTag(st) EXCEPT !.status = "run"],
             [k |-> "V", i |-> st.pc, st |-> "new", root |-> TRUE, e |-> NoErr])
  ELSE Finish(st, [XmlErr(st) EXCEPT !.kind = "any"])

ReadStep(st) ==
  LET f == Top(st)  t == Tok(st)
  IN CASE t.k = "T" -> Advance(st)
       [] t.k = "S" -> PushF(EnterTag(st), [k |-> "V", i |-> st.pc, st |-> "new", root |-> FALSE, e |-> NoErr])
       [] t.k = "E" -> SetTop(LeaveTag(st), [k |-> "K", i |-> f.i, sc |-> ScopeNow(st), r |-> t.r, c |-> t.c])
       [] OTHER     -> SetTop(st, [k |-> "F", e |-> XmlErr(st)])

SkipStep(st) ==
  LET f == Top(st)  t == Tok(st)
  IN IF Len(st.open) = f.d THEN PopF(st)
     ELSE CASE t.k = "T" -> Advance(st)
            [] t.k = "S" -> EnterTag(st)
            [] t.k = "E" -> Trim(LeaveTag(st))
            [] OTHER     -> SetTop(PopF(st), [k |-> "F", e |-> XmlErr(st)])  \* the R frame below fails

StringStep(st) ==
  LET f == Top(st)  t == Tok(st)
  IN CASE t.k = "T" -> SetTop(Advance(st), [f EXCEPT !.acc = @ \o t.s])
       [] t.k = "S" -> LET st2 == EnterTag(st)
                       IN SetTop(st2, [k |-> "GF", e |-> [NoErr EXCEPT !.kind = "str", !.stack = st2.stack, !.urls = st2.urls,
                                                 !.lo = Len(st2.stack) - 1, !.pos = <<t.r, t.c>>, !.pos2 = <<t.r, t.c>>]])
       [] t.k = "E" -> SetTop(LeaveTag(st), [k |-> "GK", s |-> f.acc])
       [] OTHER     -> SetTop(st, [k |-> "GF", e |-> XmlErr(st)])

EndStep(st) ==
  LET t == Tok(st)
  IN IF st.open = <<>>
     THEN IF t.k = "Z" THEN Finish([st EXCEPT !.stack = <<>>, !.urls = <<>>], NoErr)
          ELSE Finish(st, [XmlErr(st) EXCEPT !.kind = "any"])
     ELSE CASE t.k = "T" -> Advance(st)
            [] t.k = "S" -> EnterTag(st)
            [] t.k = "E" -> Trim(LeaveTag(st))
            [] OTHER     -> Finish(st, XmlErr(st))

DoSilent(st) ==
  CASE st.status = "start" -> Begin(st)
    [] st.status = "end"   -> EndStep(st)
    [] Top(st).k = "SK"    -> SkipStep(st)
    [] Top(st).k = "G"     -> StringStep(st)
    [] OTHER               -> ReadStep(st)

\* A parser that fails inside a text need not have delivered the part before.
CanAbandon(st) == st.status = "run" /\ RNext(st) /\ Tok(st).k = "T" /\ Tok(st).opt /\ st.rem # <<>>
Abandon(st) == [st EXCEPT !.rem = <<>>]

---------------------------------------------------------------------------
(* Observable steps.  `e` is an event; its handler's choices are part of it. *)

AttrAt(st) == Attrs(st, Top(st))[Top(st).ai]

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

\* What an observed error must look like. o.stack: a sequence of [p, n, l, r, c]; o.lines: the same
\* as displayed; o.hr, o.hc: the displayed position; o.src: where the cause leads to.
StackOK(st, err, o) ==
  /\ Len(o.stack) >= err.lo /\ Len(o.stack) <= Len(err.stack)
  /\ \A j \in DOMAIN o.stack :
       LET t == D(st)[err.stack[j]]  x == o.stack[j]
       IN  x.p = t.p /\ x.l = t.l /\ (t.r # 0 => x.r = t.r /\ x.c = t.c) /\ x.n = err.urls[j]
  /\ Len(o.lines) = Len(o.stack)
  /\ \A j \in DOMAIN o.lines :
       LET t == D(st)[err.stack[j]]
       IN  /\ o.lines[j].q = (IF t.p = "" THEN t.l ELSE t.p \o ":" \o t.l)
           /\ o.lines[j].r = o.stack[j].r /\ o.lines[j].c = o.stack[j].c
           /\ (j <= 10 => o.lines[j].i = ToString(j - 1))

PosLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

ErrOK(st, err, o, fault) ==
  IF err.kind = "foreign" THEN o = err.o ELSE
  /\ o.ok
  /\ StackOK(st, err, o)
  /\ err.pos # NoPos => PosLE(err.pos, <<o.hr, o.hc>>) /\ PosLE(<<o.hr, o.hc>>, err.pos2)
  /\ err.kind = "user" => o.msg = err.msg /\ o.src = "user:" \o err.msg
  /\ err.kind = "xml" => o.src # "none"
  /\ (err.kind = "xml" /\ fault # "") => o.src = fault

Accepts(st, e, fault) ==
  CASE st.status = "done" -> FALSE
    [] st.status # "run" -> FALSE
    [] e.t = "elem" ->
         /\ Top(st).k = "V" /\ Top(st).st = "new"
         /\ LET t == D(st)[Top(st).i]  sc == ScopeNow(st)
            IN  /\ e.p = t.p /\ e.ql = t.l /\ e.l = t.l
                /\ e.n = ElementUrl(sc, t.p)
                /\ e.dep = Len(st.open)
                /\ {e.ns[j] : j \in DOMAIN e.ns} = Mappings(sc)
    [] e.t = "attr" ->
         /\ Top(st).k = "R" /\ Top(st).ai <= Len(Attrs(st, Top(st)))
         /\ LET a == AttrAt(st)
            IN  e.l = a[2] /\ e.s = a[3] /\ e.n = AttributeUrl(ScopeNow(st), a[1])
    [] e.t = "chars" ->
         /\ RNext(st) /\ Tok(st).k = "T" /\ IsPrefixOf(e.s, st.rem)
         /\ PosLE(<<Tok(st).r, Tok(st).c>>, <<e.r, e.c>>) /\ PosLE(<<e.r, e.c>>, <<Tok(st).r2, Tok(st).c2>>)
    [] e.t = "rd" -> Top(st).k = "V" /\ Top(st).st = "fresh"
    [] e.t = "rs" -> Top(st).k = "V" /\ Top(st).st = "fresh"
    [] e.t = "rdok" ->
         /\ Top(st).k = "K"
         /\ LET f == Top(st)  t == D(st)[f.i]
            IN  /\ e.p = t.p /\ e.l = t.l /\ e.n = ElementUrl(f.sc, t.p)
                /\ {e.ns[j] : j \in DOMAIN e.ns} = Mappings(f.sc)
                /\ (f.r # 0 => e.r = f.r /\ e.c = f.c)
    [] e.t = "rderr" -> Top(st).k = "F" /\ e.ctx /\ ErrOK(st, Top(st).e, e.o, fault)
    [] e.t = "rsok"  -> Top(st).k = "GK" /\ e.s = Top(st).s
    [] e.t = "rserr" -> Top(st).k = "GF" /\ e.ctx /\ ErrOK(st, Top(st).e, e.o, fault)
    [] e.t = "ret" ->
         \/ Top(st).k \in {"A", "C"} /\ e.d \in {"some", "none", "wrap"}
         \/ Top(st).k \in {"A", "V"} /\ e.d = "foreign"
         \/ Top(st).k \in {"A", "V"} /\ e.d = "late" /\ st.saved.kind # "none"
         \/ /\ Top(st).k = "V"
            /\ \/ Top(st).st = "fresh" /\ e.d \in {"some", "none", "wrap"}
               \/ Top(st).st = "ok" /\ e.d \in {"none", "wrap"}
               \/ Top(st).st = "err" /\ e.d \in {"prop", "none", "wrap"}
    [] OTHER -> FALSE

\* An error which this element has nothing to do with.
Elsewhere(st, e) == IF e.d = "late" THEN st.saved ELSE [NoErr EXCEPT !.kind = "foreign", !.o = e.o]

\* The handler holding a child returns successfully.
ReturnOk(st) ==
  LET v == Top(st)  st2 == PopF(st)
  IN IF v.root THEN [Trim(st2) EXCEPT !.status = "end"]
     ELSE PushF(Trim(st2), [k |-> "SK", d |-> Top(st2).d])

\* The handler holding a child returns an error: its parent's read fails.
ReturnErr(st, err) ==
  LET v == Top(st)  st2 == PopF(st)
  IN IF v.root THEN Finish(st2, err)
     ELSE SetTop(st2, [k |-> "F", e |-> err])

Apply(st, e) ==
  LET f == Top(st)
  IN CASE e.t = "elem"  -> SetTop(st, [f EXCEPT !.st = "fresh"])
       [] e.t = "attr"  -> PushF(SetTop(st, [f EXCEPT !.ai = @ + 1]), [k |-> "A"])
       [] e.t = "chars" -> PushF([st EXCEPT !.rem = SubSeq(@, Len(e.s) + 1, Len(@))],
                                 [k |-> "C", r |-> e.r, c |-> e.c])
       [] e.t = "rd"    -> PushF(st, [k |-> "R", i |-> f.i, d |-> Len(st.open), ai |-> 1])
       [] e.t = "rs"    -> PushF(st, [k |-> "G", acc |-> <<>>])
       [] e.t = "rdok"  -> LET s2 == PopF(st) IN SetTop(s2, [Top(s2) EXCEPT !.st = "ok"])
       [] e.t = "rsok"  -> LET s2 == PopF(st) IN SetTop(s2, [Top(s2) EXCEPT !.st = "ok"])
       [] e.t = "rderr" -> LET s2 == PopF(st) IN SetTop(s2, [Top(s2) EXCEPT !.st = "err", !.e = f.e])
       [] e.t = "rserr" -> LET s2 == PopF(st) IN SetTop(s2, [Top(s2) EXCEPT !.st = "err", !.e = f.e])
       [] e.t = "ret" ->
            CASE f.k = "A" ->
                   LET s2 == PopF(st)  r == Top(s2)
                   IN IF e.d = "wrap"
                      THEN SetTop(s2, [k |-> "F", e |-> UserErr(st, Len(st.open), PosOf(st, r.i), PosOf(st, r.i), e.m)])
                      ELSE IF e.d \in {"late", "foreign"} THEN SetTop(s2, [k |-> "F", e |-> Elsewhere(st, e)])
                      ELSE s2
              [] f.k = "C" ->
                   LET s2 == PopF(st)
                   IN IF e.d = "wrap"
                      THEN SetTop(s2, [k |-> "F", e |-> UserErr(st, Len(st.open), <<f.r, f.c>>, <<f.r, f.c>>, e.m)])
                      ELSE s2
              [] e.d = "wrap" ->
                   \* The path ends at the child (which may have ended by now) or below it.
                   LET d == IF f.root THEN 1 ELSE st.frames[Len(st.frames) - 1].d + 1
                       p == IF f.root THEN NoPos ELSE PosOf(st, f.i)
                   IN ReturnErr(st, UserErr(st, d, p, p, e.m))
              [] e.d = "prop" -> ReturnErr(st, f.e)
              [] e.d \in {"late", "foreign"} -> ReturnErr(st, Elsewhere(st, e))
              [] OTHER        -> ReturnOk(IF f.st = "err" THEN [st EXCEPT !.saved = f.e] ELSE st)

DoneOK(st, e, fault) ==
  /\ st.status = "done"
  /\ e.t = "done"
  /\ IF st.err.kind = "none" THEN e.ok
     ELSE ~e.ok /\ (IF st.err.kind = "any" THEN e.o.ok /\ (fault # "" => e.o.src = fault)
                    ELSE ErrOK(st, st.err, e.o, fault))

---------------------------------------------------------------------------
(* Invariants of the machine itself.                                       *)
IsChain(st) ==  \* open elements are nested: each is an ancestor of the next
  \A j \in DOMAIN st.open : D(st)[st.open[j]].k = "S" /\ (j > 1 => st.open[j - 1] < st.open[j])
StackInv(st) ==
  /\ IsPrefixOf(st.open, st.stack)
  /\ Len(st.scopes) = Len(st.open)
  /\ Len(st.urls) = Len(st.stack)
  /\ IsChain(st)
\* Whenever a handler is being told about content, it is content of the element it reads.
FocusInv(st) ==
  st.status = "run" /\ st.frames # <<>> =>
    /\ Top(st).k \in {"R", "A", "C"} =>
         LET r == IF Top(st).k = "R" THEN Top(st) ELSE st.frames[Len(st.frames) - 1]
         IN  Len(st.open) = r.d /\ Last(st.open) = r.i /\ st.stack = st.open
    /\ Top(st).k = "V" /\ Top(st).st \in {"new", "fresh"} => Last(st.open) = Top(st).i /\ st.stack = st.open
\* Success means everything was consumed and nothing failed.
ResultInv(st) ==
  st.status = "done" =>
    /\ st.err.kind = "none" => st.pc = Len(D(st)) /\ Tok(st).k = "Z"
    /\ (\E j \in DOMAIN D(st) : D(st)[j].k = "X") => st.err.kind # "none"
ErrPathInv(st) ==
  st.status = "done" /\ st.err.kind \in {"user", "str", "xml"} =>
    \A j \in DOMAIN st.err.stack : j > 1 => st.err.stack[j - 1] < st.err.stack[j]
=============================================================================
