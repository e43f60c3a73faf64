------------------------------ MODULE TraceText ------------------------------
(* Checks recorded results of the real text functions against Text: one line  *)
(* per case [id, op, ty, m, ins, ev], one event per text or value given.      *)
EXTENDS Text, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Types == ndJsonDeserialize(IOEnv.TYPES)[1].types
TypeAt(i) == Types[i]

VARIABLES ci, li
vars == <<ci, li>>
Init == ci = 1 /\ li = 1

Active == ci <= Len(Cases)
Case == Cases[ci]
HasEvent == li <= Len(Case.ev)
Event == Case.ev[li]
Given == Case.ins[li]

Panicked == Event.t \in {"panic", "hang", "crash", "endless"}

\* Numbers may be written in any form that denotes them.
Denotes(i, s, v) == IF TypeOf(i).k \in {"int", "bool"} THEN TextParse(i, s) = Good(v) ELSE s = TextPrint(i, v)

NormOk == Event.t = "n" /\ Event.ok /\ Event.s = Normalize(Case.m, Given)
ParseOk == Event.t = "r" /\ LET p == TextParse(Case.ty, Given) IN Event.ok = p.ok /\ (p.ok => Event.v = p.v)
PrintOk == Event.t = "p" /\ Event.ok /\ Denotes(Case.ty, Event.s, Given)

Next1 == li' = li + 1 /\ UNCHANGED ci
Normalizes == Active /\ HasEvent /\ li <= Len(Case.ins) /\ Case.op = "norm" /\ NormOk /\ Next1
Parses == Active /\ HasEvent /\ li <= Len(Case.ins) /\ Case.op = "parse" /\ ~Panicked /\ ParseOk /\ Next1
Prints == Active /\ HasEvent /\ li <= Len(Case.ins) /\ Case.op = "print" /\ ~Panicked /\ PrintOk /\ Next1

NextCase == ci' = ci + 1 /\ li' = 1
Accept == Active /\ li = Len(Case.ins) + 1 /\ li = Len(Case.ev) + 1 /\ NextCase
Fits == CASE Case.op = "norm" -> NormOk [] Case.op = "parse" -> ParseOk [] Case.op = "print" -> PrintOk
Reject == /\ Active
          /\ IF li <= Len(Case.ins) /\ HasEvent THEN Panicked \/ ~Fits ELSE li # Len(Case.ins) + 1 \/ li # Len(Case.ev) + 1
          /\ PrintT(<<"REJECT", Case.id, li, IF HasEvent /\ Panicked THEN "crash" ELSE Case.op>>)
          /\ NextCase

Next == Normalizes \/ Parses \/ Prints \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
