------------------------------ MODULE MCReader ------------------------------
(* All behaviours of the reader over small documents, with every            *)
(* combination of handler decisions that deviates from the plain reading at  *)
(* most MaxDev times.  Checks the machine against a declarative reading of   *)
(* the document, and prints every complete behaviour as a script to replay   *)
(* on the real code.                                                         *)
EXTENDS Reader, Json, IOUtils

CONSTANT MaxDev

Docs == ndJsonDeserialize(IOEnv.DOCS)

VARIABLES di,      \* the document
          st,
          script,  \* decisions so far, as the scripted handlers take them
          dev,     \* how many of them are deviations
          got      \* what the handler of each element has been given
vars == <<di, st, script, dev, got>>

DocNo(i) == Docs[i].doc
Doc == Docs[di].doc

---------------------------------------------------------------------------
(* The declarative reading.                                                *)
RECURSIVE OpenBefore(_, _)   \* elements open just before token i
OpenBefore(d, i) ==
  IF i = 1 THEN <<>>
  ELSE LET o == OpenBefore(d, i - 1)
       IN CASE d[i - 1].k = "S" -> Append(o, i - 1)
            [] d[i - 1].k = "E" -> Front(o)
            [] OTHER -> o
Path(d, i) == Append(OpenBefore(d, i), i)
RECURSIVE Collect(_, _, _)
Collect(d, i, j) ==
  IF j > Len(d) THEN <<>>
  ELSE (IF d[j].k \in {"S", "T"} /\ OpenBefore(d, j) = Path(d, i) THEN << <<d[j].k, j>> >> ELSE <<>>)
       \o Collect(d, i, j + 1)
Direct(d, i) == [j \in DOMAIN d[i].a |-> <<"A", j>>] \o Collect(d, i, i + 1)

---------------------------------------------------------------------------
Init == di \in DOMAIN Docs /\ st = Init0(di) /\ script = <<>> /\ dev = 0
        /\ got = [i \in {} |-> <<>>]

Give(i, x) == got' = [j \in DOMAIN got \cup {i} |-> IF j = i THEN Append(IF i \in DOMAIN got THEN got[i] ELSE <<>>, x) ELSE got[j]]

Silent == CanSilent(st) /\ st' = DoSilent(st) /\ UNCHANGED <<di, script, dev, got>>

Running == ~CanSilent(st) /\ st.status = "run"

\* A decision: digit 0 is the plain reading.
Decide(n) == /\ script' = Append(script, n)
             /\ dev' = dev + (IF n = 0 THEN 0 ELSE 1)
             /\ dev' <= MaxDev

Ret(d) == [t |-> "ret", d |-> d, m |-> "u"]
Other == [t |-> "ret", d |-> IF st.saved.kind = "none" THEN "foreign" ELSE "late", m |-> "", o |-> NoPos]

AttributeCallback ==
  /\ Running /\ Top(st).k = "R" /\ Top(st).ai <= Len(Attrs(st, Top(st)))
  /\ Give(Top(st).i, <<"A", Top(st).ai>>)
  /\ st' = Apply(st, [t |-> "attr"])
  /\ UNCHANGED <<di, script, dev>>
CharactersCallback ==
  /\ Running /\ RNext(st)
  /\ Give(Top(st).i, <<"T", st.pc>>)
  /\ st' = Apply(st, [t |-> "chars", s |-> st.rem, r |-> 0, c |-> 0])
  /\ UNCHANGED <<di, script, dev>>
LeafReturns ==
  /\ Running /\ Top(st).k \in {"A", "C"}
  /\ \E n \in 0 .. (IF Top(st).k = "A" THEN 3 ELSE 2) :
        Decide(n) /\ st' = Apply(st, IF n = 3 THEN Other ELSE Ret(<<"some", "none", "wrap">>[n + 1]))
  /\ UNCHANGED <<di, got>>
ElementCallback ==
  /\ Running /\ Top(st).k = "V" /\ Top(st).st = "new"
  /\ IF Top(st).root THEN UNCHANGED got ELSE Give(st.frames[Len(st.frames) - 1].i, <<"S", Top(st).i>>)
  /\ st' = Apply(st, [t |-> "elem"])
  /\ UNCHANGED <<di, script, dev>>
ElementChoice ==
  /\ Running /\ Top(st).k = "V" /\ Top(st).st = "fresh"
  /\ \E n \in 0 .. 5 :
        Decide(n) /\ st' = Apply(st, CASE n = 0 -> [t |-> "rd"] [] n = 1 -> Ret("some") [] n = 2 -> Ret("none")
                                      [] n = 3 -> [t |-> "rs"] [] n = 4 -> Ret("wrap") [] n = 5 -> Other)
  /\ UNCHANGED <<di, got>>
Report ==
  /\ Running /\ Top(st).k \in {"K", "F", "GK", "GF"}
  /\ st' = Apply(st, [t |-> CASE Top(st).k = "K" -> "rdok" [] Top(st).k = "F" -> "rderr"
                               [] Top(st).k = "GK" -> "rsok" [] Top(st).k = "GF" -> "rserr"])
  /\ UNCHANGED <<di, script, dev, got>>
AfterOk ==
  /\ Running /\ Top(st).k = "V" /\ Top(st).st = "ok"
  /\ \E n \in 0 .. 2 : Decide(n) /\ st' = Apply(st, IF n = 2 THEN Other ELSE Ret(<<"none", "wrap">>[n + 1]))
  /\ UNCHANGED <<di, got>>
AfterErr ==
  /\ Running /\ Top(st).k = "V" /\ Top(st).st = "err"
  /\ \E n \in 0 .. 3 : Decide(n) /\ st' = Apply(st, IF n = 3 THEN Other ELSE Ret(<<"prop", "none", "wrap">>[n + 1]))
  /\ UNCHANGED <<di, got>>
Emit ==
  /\ st.status = "done"
  /\ PrintT(<<"BEHAVIOUR", di, script>>)
  /\ st' = [st EXCEPT !.status = "printed"]
  /\ UNCHANGED <<di, script, dev, got>>

Next == \/ Silent \/ AttributeCallback \/ CharactersCallback \/ LeafReturns \/ ElementCallback
        \/ ElementChoice \/ Report \/ AfterOk \/ AfterErr \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Inv == StackInv(st) /\ FocusInv(st) /\ ResultInv(st) /\ ErrPathInv(st)

\* C01: what the handler of an element has been given is always a beginning of its content, and all of it
\* once the element has been read.
ContentInv ==
  /\ \A i \in DOMAIN got : IsPrefixOf(got[i], Direct(Doc, i))
  /\ st.status = "run" /\ st.frames # <<>> /\ Top(st).k = "K" =>
       Direct(Doc, Top(st).i) = (IF Top(st).i \in DOMAIN got THEN got[Top(st).i] ELSE <<>>)
\* C02: an error's path is the path of one element, and the passing on does not change it.
PathOf(e) == e.kind \in {"user", "str", "xml"} =>
               e.stack = <<>> \/ e.stack = Path(Doc, Last(e.stack))
ErrorInv ==
  /\ st.status \in {"done", "printed"} => PathOf(st.err)
  /\ \A j \in DOMAIN st.frames : st.frames[j].k \in {"F", "GF"} => PathOf(st.frames[j].e)
\* C03: a document that breaks off never yields a value.
BrokenInv == st.status \in {"done", "printed"} /\ (\E j \in DOMAIN Doc : Doc[j].k = "X") => st.err.kind # "none"
\* No behaviour gets stuck.
Progress == <>(st.status = "printed" \/ dev > MaxDev)
Terminates == ENABLED Next \/ st.status = "printed"
CallDepth == \A j \in DOMAIN st.frames : Len(st.frames) <= 2 * Len(D(st)) + 2
=============================================================================
