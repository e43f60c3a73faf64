------------------------------ MODULE MCWriter ------------------------------
(* All small serializations: every sequence of calls that content may make    *)
(* from a pool of names, requests, attributes and texts, with every way of   *)
(* going wrong: content that drops a builder or writer, fails by itself, or  *)
(* ignores errors, and a sink that fails once.  Every complete one is        *)
(* printed, to be replayed on the real code.                                *)
(*                                                                          *)
(* POOL: [locals, reqs: <<prefix, URL>>, attrs: <<URL, local, value>>, texts, *)
(*   els, maxreqs, maxattrs, kids, txs: bounds (in total; requests and        *)
(*   attributes per element), sw: ways to treat errors {0: pass on, 1: ignore},*)
(*   bad: number of misdeeds, faults: number of sink failures, urls]          *)
EXTENDS Prefixes, Json, IOUtils

Pool == ndJsonDeserialize(IOEnv.POOL)[1]
Urls == Pool.urls

VARIABLES w,       \* the serialization (see Writer)
          maps,    \* the mappings inside each started element, outermost first
          usable,  \* for each started element: URLs requested or used there
          sws,     \* for each frame: does its content ignore errors?
          toks,    \* what a sink would have got
          mode,    \* "run", or "unwind": an error is on its way out, or "over"
          els, txs, bad, faults, writes,
          script
vars == <<w, maps, usable, sws, toks, mode, els, txs, bad, faults, writes, script>>

\* The root is in no namespace, or in one that is requested at once.
Root(n) == Now(Begin, [op |-> "elem", n |-> n, l |-> "r"])
Init == /\ maps = <<>> /\ toks = <<>> /\ mode = "run" /\ els = 0 /\ txs = 0 /\ bad = 0 /\ faults = 0 /\ writes = 0
        /\ \E x \in DOMAIN Pool.sw :
             /\ sws = <<Pool.sw[x]>>
             /\ \/ w = Root("") /\ usable = <<{}>> /\ script = <<Pool.sw[x], "">>
                \/ \E q \in DOMAIN Pool.reqs :
                     LET r == Pool.reqs[q] IN
                     /\ w = Now(Root(r[2]), [op |-> "ns", p |-> r[1], u |-> r[2]]) /\ usable = <<{r[2]}>>
                     /\ script = <<Pool.sw[x], r[2], "ns", r[1], r[2]>>

Log(x) == script' = script \o x
Running == mode = "run" /\ w.frames # <<>>
Building == Running /\ ~Top(w).on
Filling == Running /\ Top(w).on
Last1(s) == s[Len(s)]
Outer == IF maps = <<>> THEN NoMap ELSE Last1(maps)
Front1(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)

\* Calls that return nothing.
Element ==
  /\ Filling /\ els < Pool.els
  /\ \E n \in {""} \cup Last1(usable), l \in DOMAIN Pool.locals, s \in DOMAIN Pool.sw :
       /\ w' = Now(w, [op |-> "elem", n |-> n, l |-> Pool.locals[l]])
       /\ sws' = Append(sws, Pool.sw[s])
       /\ Log(<<"elem", n, Pool.locals[l], Pool.sw[s]>>)
  /\ usable' = Append(usable, {}) /\ els' = els + 1
  /\ UNCHANGED <<maps, toks, mode, txs, bad, faults, writes>>
\* (A name may be in a namespace requested by its own element as well.)
ElementIn ==
  /\ Filling /\ els < Pool.els
  /\ \E q \in DOMAIN Pool.reqs, l \in DOMAIN Pool.locals :
       LET r == Pool.reqs[q] IN
       /\ r[2] \notin Last1(usable) \cup {""}
       /\ w' = Now(Now(w, [op |-> "elem", n |-> r[2], l |-> Pool.locals[l]]), [op |-> "ns", p |-> r[1], u |-> r[2]])
       /\ sws' = Append(sws, 0)
       /\ Log(<<"elem", r[2], Pool.locals[l], 0, "ns", r[1], r[2]>>)
       /\ usable' = Append(usable, {r[2]})
  /\ els' = els + 1
  /\ UNCHANGED <<maps, toks, mode, txs, bad, faults, writes>>
Namespace ==
  /\ Building /\ Top(w).attrs = <<>> /\ Len(Top(w).reqs) < Pool.maxreqs
  /\ \E q \in DOMAIN Pool.reqs :
       LET r == Pool.reqs[q] IN
       /\ w' = Now(w, [op |-> "ns", p |-> r[1], u |-> r[2]])
       /\ usable' = Append(Front1(usable), Last1(usable) \cup {r[2]})
       /\ Log(<<"ns", r[1], r[2]>>)
  /\ UNCHANGED <<maps, sws, toks, mode, els, txs, bad, faults, writes>>

\* What a call that fails leads to.
After(c, fails, popped) ==
  /\ w' = IF fails THEN Failed(w, c) ELSE Done(w, c)
  /\ mode' = IF ~fails THEN (IF Len(w.frames) = 1 /\ c.op = "finish" THEN "over" ELSE "run")
             ELSE IF popped THEN (IF Len(w.frames) = 1 THEN "over" ELSE "caller")
             ELSE IF Last1(sws) = 1 THEN "run" ELSE "unwind"
Attribute ==
  /\ Building /\ Len(Top(w).attrs) < Pool.maxattrs
  /\ \E a \in DOMAIN Pool.attrs :
       LET x == Pool.attrs[a]
           c == [op |-> "attr", n |-> x[1], l |-> x[2], v |-> x[3]]
       IN /\ x[1] \in {"", XmlUrl} \cup Last1(usable)
          /\ (DoubleAttr(Top(w), c) \/ ~Representable(c.v)) => bad < Pool.bad
          /\ bad' = bad + (IF DoubleAttr(Top(w), c) \/ ~Representable(c.v) THEN 1 ELSE 0)
          /\ After(c, Fails(w, c, FALSE), FALSE)
          /\ Log(<<"attr", a>>)
  /\ UNCHANGED <<maps, usable, sws, toks, els, txs, faults, writes>>
\* The sink fails during this write, once.
Faulty == {FALSE} \cup (IF faults < Pool.faults /\ ~w.poisoned THEN {TRUE} ELSE {})
FaultLog(f) == IF f THEN <<"fault", writes>> ELSE <<>>
Write(c, popped, f) ==
  /\ After(c, Fails(w, c, f), popped)
  /\ writes' = writes + 1 /\ faults' = faults + (IF f THEN 1 ELSE 0)
StartTag ==
  /\ Building /\ Top(w).n \in {"", XmlUrl} \cup Last1(usable) \cup (IF Len(usable) > 1 THEN usable[Len(usable) - 1] ELSE {})
  /\ \E f \in Faulty :
       LET fails == Fails(w, [op |-> "start"], f)
           m == Assign(Outer, Top(w))
       IN /\ Write([op |-> "start"], TRUE, f)
          /\ Log(FaultLog(f) \o <<IF fails THEN "start-fails" ELSE "start">>)
          /\ IF fails THEN /\ sws' = Front1(sws) /\ usable' = Front1(usable) /\ UNCHANGED <<maps, toks>>
             ELSE /\ maps' = Append(maps, m) /\ toks' = Append(toks, Tag(Outer, Top(w)))
                  /\ usable' = Append(Front1(usable), Last1(usable) \cup ({Top(w).n} \ {"", XmlUrl}))
                  /\ sws' = sws
  /\ UNCHANGED <<els, txs, bad>>
Text ==
  /\ Filling /\ txs < Pool.txs
  /\ \E t \in DOMAIN Pool.texts, f \in Faulty :
       LET c == [op |-> "text", s |-> Pool.texts[t]]
       IN /\ ~Representable(c.s) => bad < Pool.bad /\ ~f
          /\ bad' = bad + (IF Representable(c.s) THEN 0 ELSE 1)
          /\ Write(c, FALSE, f)
          /\ Log(FaultLog(f) \o <<"text", t>>)
          /\ toks' = IF Fails(w, c, f) THEN toks ELSE Append(toks, [k |-> "T", s |-> c.s])
  /\ txs' = txs + 1 /\ UNCHANGED <<maps, usable, sws, els>>
Finish ==
  /\ Filling
  /\ \E f \in Faulty :
       /\ Write([op |-> "finish"], TRUE, f)
       /\ Log(FaultLog(f) \o <<"finish">>)
       /\ toks' = IF Fails(w, [op |-> "finish"], f) THEN toks ELSE Append(toks, [k |-> "E"])
  /\ maps' = Front1(maps) /\ usable' = Front1(usable) /\ sws' = Front1(sws)
  /\ UNCHANGED <<els, txs, bad>>
\* Content leaves an element unstarted or unfinished; without an error of its own, or with one.
Leave(m, word) ==
  /\ w' = Now(w, [op |-> "drop"])
  /\ maps' = (IF Top(w).on THEN Front1(maps) ELSE maps) /\ usable' = Front1(usable) /\ sws' = Front1(sws)
  /\ mode' = IF Len(w.frames) = 1 THEN "over" ELSE m
  /\ Log(<<word>>) /\ UNCHANGED <<toks, els, txs, faults, writes>>
Drops == Running /\ bad < Pool.bad /\ Len(w.frames) > 1 /\ bad' = bad + 1 /\ Leave("run", "leave")
OwnError == Running /\ bad < Pool.bad /\ bad' = bad + 1 /\ Leave("caller", "error")
Unwinds == mode = "unwind" /\ bad' = bad /\ Leave("caller", "unwind")
\* An error arrives at the content of the parent.
Caller == /\ mode = "caller"
          /\ mode' = IF Last1(sws) = 1 THEN "run" ELSE "unwind"
          /\ UNCHANGED <<w, maps, usable, sws, toks, els, txs, bad, faults, writes, script>>
Emit == mode = "over" /\ mode' = "printed" /\ PrintT(<<"PROGRAM", script>>)
        /\ UNCHANGED <<w, maps, usable, sws, toks, els, txs, bad, faults, writes, script>>

Next == Element \/ ElementIn \/ Namespace \/ Attribute \/ StartTag \/ Text \/ Finish \/ Drops \/ OwnError \/ Unwinds \/ Caller \/ Emit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C11: a failure is forever, and nothing is written after it.
Forever == [][(w.poisoned => w'.poisoned /\ w'.out = w.out) /\ (mode = "over" => w'.frames = <<>>)]_vars
\* Success means that everything which was begun has been written.
Nest == FoldLeft(LAMBDA n, t : IF n < 0 THEN n ELSE IF t[1] = "S" THEN n + 1 ELSE IF t[1] = "E" THEN n - 1 ELSE IF n = 0 THEN -1 ELSE n, 0, w.out)
SuccessInv == mode = "over" /\ Complete(w) => Nest = 0 /\ Len(Starts(w.out)) = els + 1 /\ faults = 0 /\ bad = 0
OrderInv == Running => Len(maps) = Cardinality({x \in DOMAIN w.frames : w.frames[x].on}) /\ Len(usable) = Len(w.frames) /\ Len(sws) = Len(w.frames)
\* C09, C12: the document chosen by Prefixes says what was written, and is as Writer demands.
Says == mode = "over" /\ Complete(w) => Meaning(toks) = Merge(w.out)
PrefixesInv == mode = "over" /\ Complete(w) =>
  LET es == Elements(toks)
  IN AllDeclared(es) /\ NoDoubles(es) /\ AllHonoured(AsFrames(w), es)
=============================================================================
