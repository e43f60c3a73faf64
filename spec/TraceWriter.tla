----------------------------- MODULE TraceWriter -----------------------------
(* Checks recorded serializations against Writer.  One line per case:        *)
(*   [id, ind, ev], where ev is the sequence of                              *)
(*     c   a call begins                   r   it returns [ok, m: message]     *)
(*     w   the sink accepted n bytes       x   the sink failed                 *)
(*     i   the sink was interrupted        f   the sink was flushed [ok]       *)
(*     ret serialization returned [ok, m, wf, toks, opt]                      *)
(* Failures: crash; result (success or error of a call or of the whole);     *)
(*   first (another error than the first); adds (output after a failure);    *)
(*   flush; wf; out (text or structure); names (of elements and attributes);  *)
(*   prefix; options.                                                        *)
EXTENDS Writer, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ci, li, w, pend, first, fault, dirty, wrong
vars == <<ci, li, w, pend, first, fault, dirty, wrong>>
None == [op |-> "none"]
Init == ci = 1 /\ li = 1 /\ w = Begin /\ pend = None /\ first = "" /\ fault = FALSE /\ dirty = FALSE /\ wrong = {}

Active == ci <= Len(Cases)
Case == Cases[ci]
HasEvent == li <= Len(Case.ev)
Event == Case.ev[li]
Ev(t) == Active /\ HasEvent /\ Event.t = t /\ li' = li + 1 /\ ci' = ci
Also(c) == wrong \cup c
If(b, c) == IF b THEN {c} ELSE {}

Calls == Ev("c") /\ UNCHANGED <<first, dirty, wrong>> /\ fault' = FALSE
         /\ IF Event.op \in {"ns", "elem", "drop"} THEN w' = Now(w, Event) /\ pend' = None
            ELSE w' = w /\ pend' = Event

Knows == first # ""   \* the first error's message is known
Returns ==
  /\ Ev("r")
  /\ wrong' = Also(If(Event.ok = Fails(w, pend, fault), "result")
                   \cup If(~Event.ok /\ w.poisoned /\ Knows /\ Writing(pend.op) /\ ~Unfit(w, pend) /\ Event.m # first, "first"))
  /\ first' = IF ~Event.ok /\ ~Knows /\ (~w.poisoned \/ (Writing(pend.op) /\ ~Unfit(w, pend))) THEN Event.m ELSE first
  /\ w' = IF Event.ok THEN Done(w, pend) ELSE Failed(w, pend)
  /\ pend' = None /\ fault' = FALSE /\ UNCHANGED dirty

Accepts == Ev("w") /\ dirty' = TRUE /\ wrong' = Also(If(w.poisoned \/ fault, "adds")) /\ UNCHANGED <<w, pend, first, fault>>
SinkFails == Ev("x") /\ fault' = TRUE /\ UNCHANGED <<w, pend, first, dirty, wrong>>
Interrupted == Ev("i") /\ UNCHANGED <<w, pend, first, fault, dirty, wrong>>
Flushes == Ev("f") /\ (IF Event.ok THEN dirty' = FALSE /\ fault' = fault ELSE fault' = TRUE /\ dirty' = dirty)
           /\ UNCHANGED <<w, pend, first, wrong>>

\* The root's end is written before everything returns.
AtEnd == pend.op = "finish" /\ Len(w.frames) = 1
Finished == Done(w, pend)
Good == AtEnd /\ ~w.poisoned /\ ~fault

SaysWrong(o, m) ==
  If(Names1(m) # Names1(o), "names")
  \cup (IF Case.ind = 0 THEN If(m # o, "out") ELSE If(~SameButIndent(o, m), "options"))
PrefixWrong(fs, els) ==
  If(~AllDeclared(els) \/ ~NoDoubles(els), "prefix")
  \cup If(Len(els) = Len(fs) /\ ~AllHonoured(fs, els), "prefix")
OutputWrong ==
  IF ~Event.wf THEN {"wf"}
  ELSE UNION {SaysWrong(o, m) : o \in {Merge(Finished.out)}, m \in {Meaning(Event.toks)}}
       \cup UNION {PrefixWrong(fs, els) : fs \in {AsFrames(Finished)}, els \in {Elements(Event.toks)}}

Ends ==
  /\ Ev("ret")
  /\ wrong' = Also(If(Event.ok # Good, "result")
                   \cup If(Event.ok /\ dirty, "flush")
                   \cup If(~Event.ok /\ AtEnd /\ w.poisoned /\ Knows /\ Event.m # first, "first")
                   \cup If(~Event.opt, "options")
                   \cup (IF Event.ok /\ Good THEN OutputWrong ELSE {}))
  /\ UNCHANGED <<w, pend, first, fault, dirty>>
Crashes == Active /\ HasEvent /\ Event.t \in {"panic", "hang", "crash", "endless"} /\ li' = Len(Case.ev) + 1 /\ ci' = ci
           /\ wrong' = Also({"crash"}) /\ UNCHANGED <<w, pend, first, fault, dirty>>

RECURSIVE Join(_, _)
Join(s, all) == IF all = <<>> THEN "" ELSE IF all[1] \in s THEN all[1] \o "_" \o Join(s, Tail(all)) ELSE Join(s, Tail(all))
Classes == <<"crash", "result", "first", "adds", "flush", "wf", "out", "names", "prefix", "options">>
Incomplete == If("crash" \notin wrong /\ (Len(Case.ev) = 0 \/ Case.ev[Len(Case.ev)].t # "ret"), "crash")
Finishes ==
  /\ Active /\ ~HasEvent
  /\ IF wrong \cup Incomplete = {} THEN TRUE ELSE PrintT(<<"REJECT", Case.id, 1, Join(wrong \cup Incomplete, Classes)>>)
  /\ ci' = ci + 1 /\ li' = 1 /\ w' = Begin /\ pend' = None /\ first' = "" /\ fault' = FALSE /\ dirty' = FALSE /\ wrong' = {}

Next == Calls \/ Returns \/ Accepts \/ SinkFails \/ Interrupted \/ Flushes \/ Ends \/ Crashes \/ Finishes
Spec == Init /\ [][Next]_vars
=============================================================================
