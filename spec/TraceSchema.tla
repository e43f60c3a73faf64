----------------------------- MODULE TraceSchema -----------------------------
(* Checks recorded runs of derived types against Schema.  One line per case:  *)
(*   [id, k: "de", ty, doc, ev]: a document was read.  The machine takes its   *)
(*     tokens one at a time; then the recorded life of the values constructed  *)
(*     is followed: new, drop, ret (the call returned) or unwound (user code         *)
(*     panicked and the call was unwound), drop, end.                      *)
(*   [id, k: "ser", ty, v, n, l, ev]: a value was written and read back; one   *)
(*     event per way of writing it.                                          *)
(* A case can fail in several ways, which different properties are about:     *)
(*   crash; value (what was read); error (how the error describes itself);    *)
(*   own (a value lost, dropped twice, or never constructed); out (what was    *)
(*   written); back (what was read back); options (writing options matter).   *)
EXTENDS Schema, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Types == ndJsonDeserialize(IOEnv.TYPES)[1].types
TypeAt(i) == Types[i]
Clear == {i \in DOMAIN Types : ~IsText(i) /\ Unambiguous(i)} \cup {i \in DOMAIN Types : IsText(i)}

VARIABLES ci, ti, li, st, alive, made, wrong
vars == <<ci, ti, li, st, alive, made, wrong>>

NoRun == [status |-> "none"]
StartOf(i) == IF i <= Len(Cases) /\ Cases[i].k = "de" THEN Start(Cases[i].ty) ELSE NoRun
Init == ci = 1 /\ ti = 1 /\ li = 1 /\ st = StartOf(1) /\ alive = {} /\ made = {} /\ wrong = {}

Active == ci <= Len(Cases)
Case == Cases[ci]
Doc == Case.doc
HasEvent == li <= Len(Case.ev)
Event == Case.ev[li]

Reading == Active /\ Case.k = "de" /\ ti <= Len(Doc) /\ st.status = "run"
Token(k) == Reading /\ Doc[ti].k = k /\ st' = Step1(st, Doc[ti]) /\ ti' = ti + 1 /\ UNCHANGED <<ci, li, alive, made, wrong>>
ElementStarts == Token("S")
TextArrives == Token("T")
ElementEnds == Token("E")
DocumentEnds == Token("Z")
InputBreaks == Token("X")

Read == Active /\ Case.k = "de" /\ ~Reading
Ev(t) == Read /\ HasEvent /\ Event.t = t /\ li' = li + 1 /\ UNCHANGED <<ci, ti, st>>
Also(c) == wrong \cup c

Constructs == Ev("new") /\ alive' = alive \cup {Event.i} /\ made' = made \cup {Event.i}
              /\ wrong' = Also(IF Event.i \in made THEN {"own"} ELSE {})
Drops == Ev("drop") /\ alive' = alive \ {Event.i} /\ made' = made
         /\ wrong' = Also(IF Event.i \in alive THEN {} ELSE {"own"})
Garbage == Ev("bad") /\ wrong' = Also({"own"}) /\ UNCHANGED <<alive, made>>

\* The path of an error: the elements open where it arose.  (Only positions which the parser reports are known.)
SameEntry(a, b) == a.p = b.p /\ a.n = b.n /\ a.l = b.l /\ (a.r # 0 => a.r = b.r /\ a.c = b.c)
StackFits(o) ==
  /\ o.ok
  /\ Len(o.stack) = Len(st.err.stack)
  /\ \A j \in DOMAIN o.stack : SameEntry(st.err.stack[j], o.stack[j])
  /\ Len(o.lines) = Len(o.stack)
  /\ \A j \in DOMAIN o.lines : /\ o.lines[j].q = (IF o.stack[j].p = "" THEN o.stack[j].l ELSE o.stack[j].p \o ":" \o o.stack[j].l)
                               /\ o.lines[j].r = o.stack[j].r /\ o.lines[j].c = o.stack[j].c
  /\ st.err.pos[1] # 0 => o.hr = st.err.pos[1] /\ o.hc = st.err.pos[2]
Described(o) == st.err.kind \in {"xml", "none"} \/ StackFits(o)

Range1(s) == {s[j] : j \in DOMAIN s}
Want == Result(st)
RetWrong ==
  (IF Event.ok # Want.ok \/ (Event.ok /\ Event.v # Want.v) THEN {"value"} ELSE {})
  \cup (IF ~Event.ok /\ ~Want.ok /\ ~Described(Event.o) THEN {"error"} ELSE {})
  \cup (IF Event.ok THEN (IF Range1(Event.ids) = alive /\ Cardinality(alive) = Len(Event.ids) THEN {} ELSE {"own"})
        ELSE IF alive = {} THEN {} ELSE {"own"})
Returns == Ev("ret") /\ wrong' = Also(RetWrong) /\ UNCHANGED <<alive, made>>
\* User code panicked: the call has been unwound, and nothing constructed is left.
Unwinds == Ev("unwound") /\ wrong' = Also(IF alive = {} THEN {} ELSE {"own"}) /\ UNCHANGED <<alive, made>>
Ends == Ev("end") /\ wrong' = Also(IF alive = {} /\ Event.leak = 0 THEN {} ELSE {"own"}) /\ UNCHANGED <<alive, made>>
Crashes == Read /\ HasEvent /\ Event.t \in {"panic", "hang", "crash", "endless"} /\ li' = Len(Case.ev) + 1
           /\ wrong' = Also({"crash"}) /\ UNCHANGED <<ci, ti, st, alive, made>>

---------------------------------------------------------------------------
(* Writing.                                                               *)
Expected == Out(Case.n, Case.l, Case.ty, Case.v)

\* Reading back what was written, whatever the type.
SameRead(e) == LET r == Result(RunAll(Case.ty, e.toks)) IN IF r.ok THEN e.back = r.v ELSE e.back = <<"none">>

\* o: what is expected; m: what was written.
SaysWrong(o, m, ind) ==
  IF ind = 0 THEN (IF m # o THEN {"out"} ELSE {})
  ELSE IF ~SameButIndent(o, m) THEN {"options"} ELSE {}
WriteWrong(o, e) ==
  IF e.t # "out" THEN {"crash"}
  ELSE (IF e.ok # Writable(o) THEN {"out"}
        ELSE IF ~e.ok THEN {}
        ELSE (IF ~e.wf THEN {"wf"}
              ELSE (UNION {SaysWrong(o, m, e.ind) : m \in {Meaning(e.toks)}})
                   \cup (IF ~SameRead(e) THEN {"value"} ELSE {}))
             \cup (IF Case.ty \in Clear /\ e.ind = 0 /\ Readable(Case.ty, Case.v) /\ e.back # Case.v THEN {"back"} ELSE {}))
       \cup (IF e.opt THEN {} ELSE {"options"})
Writes == /\ Active /\ Case.k = "ser" /\ HasEvent
          /\ li' = li + 1
          /\ wrong' = Also(UNION {WriteWrong(o, Event) : o \in {Expected}})
          /\ UNCHANGED <<ci, ti, st, alive, made>>

---------------------------------------------------------------------------
RECURSIVE Names1(_, _)
Names1(s, all) == IF all = <<>> THEN "" ELSE IF all[1] \in s THEN all[1] \o "_" \o Names1(s, Tail(all)) ELSE Names1(s, Tail(all))
Classes == <<"crash", "value", "error", "own", "out", "wf", "back", "options">>
Incomplete == IF Case.k = "de" /\ "crash" \notin wrong /\ (Len(Case.ev) = 0 \/ Case.ev[Len(Case.ev)].t # "end") THEN {"crash"} ELSE {}
Finishes ==
  /\ Active /\ ~HasEvent /\ ~Reading
  /\ IF wrong \cup Incomplete = {} THEN TRUE ELSE PrintT(<<"REJECT", Case.id, 1, Names1(wrong \cup Incomplete, Classes)>>)
  /\ ci' = ci + 1 /\ ti' = 1 /\ li' = 1 /\ st' = StartOf(ci + 1) /\ alive' = {} /\ made' = {} /\ wrong' = {}

Next == \/ ElementStarts \/ TextArrives \/ ElementEnds \/ DocumentEnds \/ InputBreaks
        \/ Constructs \/ Drops \/ Garbage \/ Returns \/ Unwinds \/ Ends \/ Crashes \/ Writes \/ Finishes
Spec == Init /\ [][Next]_vars

Inv == st.status # "none" => /\ Len(st.open) = Len(st.scopes)
                             /\ st.status = "run" => Len(st.frames) = Len(st.open)
                             /\ st.err.kind # "none" => st.status = "done"
                             /\ alive \subseteq made
=============================================================================
