---------------------------- MODULE TraceReader ----------------------------
(* Checks recorded runs of the real reader against Reader: one line per     *)
(* case, with the document's tokens and the events logged by the handlers.  *)
EXTENDS Reader, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

DocNo(i) == Cases[i].doc

VARIABLES ci, li, st
vars == <<ci, li, st>>

Init == ci = 1 /\ li = 1 /\ st = Init0(1)

Active == ci <= Len(Cases)
Case == Cases[ci]
HasEvent == li <= Len(Case.ev)
Event == Case.ev[li]

\* What a rejected event gets wrong: the run itself, the outcome, an error's description, the division into
\* reads showing through, or the content.
Class ==
  CASE ~HasEvent -> "content"
    [] Event.t \in {"panic", "hang", "crash", "endless"} -> "crash"
    [] \E j \in DOMAIN Case.alts : Case.alts[j] # Case.ev -> "chunks"
    [] st.status = "done" /\ Event.t = "done" /\ Event.ok # (st.err.kind = "none") -> "result"
    [] st.status = "done" /\ Event.t # "done" -> "result"
    [] st.status = "done" -> "error"
    [] st.status = "run" /\ Event.t = "rderr" /\ Top(st).k = "F" -> "error"
    [] st.status = "run" /\ Event.t = "rserr" /\ Top(st).k = "GF" -> "error"
    [] st.status = "run" /\ Event.t = "chars" /\ RNext(st) /\ Tok(st).k = "T" /\ IsPrefixOf(Event.s, st.rem) -> "error"
    [] st.status = "run" /\ Event.t = "rdok" /\ Top(st).k = "K"
         /\ Accepts(st, [Event EXCEPT !.r = Top(st).r, !.c = Top(st).c], Case.fault) -> "error"
    [] OTHER -> "content"

NextCase(ok) ==
  /\ ci' = ci + 1 /\ li' = 1
  /\ st' = IF ci < Len(Cases) THEN Init0(ci + 1) ELSE st
  /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", Case.id, li, Class>>)

Silent == Active /\ CanSilent(st) /\ st' = DoSilent(st) /\ UNCHANGED <<ci, li>>

Drop == Active /\ ~CanSilent(st) /\ CanAbandon(st) /\ HasEvent /\ Event.t # "chars"
        /\ st' = Abandon(st) /\ UNCHANGED <<ci, li>>

Quiet == Active /\ ~CanSilent(st) /\ ~(CanAbandon(st) /\ HasEvent /\ Event.t # "chars")

Step(t) == Quiet /\ HasEvent /\ Event.t = t /\ Accepts(st, Event, Case.fault)
           /\ st' = Apply(st, Event) /\ li' = li + 1 /\ UNCHANGED ci

AttributeCallback == Step("attr")
ElementCallback == Step("elem")
CharactersCallback == Step("chars")
ReadTo == Step("rd")
ReadString == Step("rs")
ReadOk == Step("rdok")
ReadErr == Step("rderr")
StringOk == Step("rsok")
StringErr == Step("rserr")
HandlerReturns == Step("ret")

Accepted == HasEvent /\ (\A j \in DOMAIN Case.alts : Case.alts[j] = Case.ev) /\ li = Len(Case.ev) /\ DoneOK(st, Event, Case.fault)
Accept == Quiet /\ Accepted /\ NextCase(TRUE)
Reject == Quiet /\ ~Accepted /\ ~(HasEvent /\ Accepts(st, Event, Case.fault)) /\ NextCase(FALSE)

Next == \/ Silent \/ Drop \/ AttributeCallback \/ ElementCallback \/ CharactersCallback
        \/ ReadTo \/ ReadString \/ ReadOk \/ ReadErr \/ StringOk \/ StringErr \/ HandlerReturns
        \/ Accept \/ Reject

Spec == Init /\ [][Next]_vars

Inv == Active => StackInv(st) /\ FocusInv(st) /\ ResultInv(st)
=============================================================================
