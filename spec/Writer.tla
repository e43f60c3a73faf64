------------------------------- MODULE Writer -------------------------------
(* Serialization as its content uses it: elements are built (namespaces and   *)
(* attributes requested), started, filled with texts and elements, and        *)
(* finished; what is written goes to a sink which may fail.                   *)
(*                                                                          *)
(* State of a serialization:                                                 *)
(*   frames   unfinished elements, innermost last: [n, l, reqs, attrs, on]     *)
(*            (on: started)                                                  *)
(*   poisoned it has failed, whatever its content does from now on             *)
(*   out      what has been written (see Tree)                                *)
(*   reqs     the namespaces requested for each element of out                 *)
(* A call is a record [op, ...].                                             *)
EXTENDS Tree, TLC

NewFrame(n, l) == [n |-> n, l |-> l, reqs |-> <<>>, attrs |-> <<>>, on |-> FALSE]
Begin == [frames |-> <<>>, poisoned |-> FALSE, out |-> <<>>, reqs |-> <<>>]
Top(w) == LastOf(w.frames)
WithTop(w, f) == [w EXCEPT !.frames = Append(AllButLast(@), f)]
Pop(w) == [w EXCEPT !.frames = AllButLast(@)]
Poison(w) == [w EXCEPT !.poisoned = TRUE]

\* Calls that write.
Writing(op) == op \in {"start", "text", "finish"}

DoubleAttr(f, c) == \E j \in DOMAIN f.attrs : f.attrs[j][1] = c.n /\ f.attrs[j][2] = c.l
\* Calls that fail for a reason of their own.
Unfit(w, c) ==
  CASE c.op = "attr" -> ~Representable(c.v) \/ DoubleAttr(Top(w), c)
    [] c.op = "text" -> ~Representable(c.s)
    [] OTHER -> FALSE
\* Must the call fail?  fault: the sink failed during it.
Fails(w, c, fault) == Unfit(w, c) \/ (Writing(c.op) /\ (w.poisoned \/ fault))

\* Nothing is returned by these.
Now(w, c) ==
  CASE c.op = "elem" -> [w EXCEPT !.frames = Append(@, NewFrame(c.n, c.l))]
    [] c.op = "ns" -> WithTop(w, [Top(w) EXCEPT !.reqs = Append(@, <<c.p, c.u>>)])
    [] c.op = "drop" -> Poison(Pop(w))
Done(w, c) ==
  CASE c.op = "attr" -> WithTop(w, [Top(w) EXCEPT !.attrs = Append(@, <<c.n, c.l, c.v>>)])
    [] c.op = "start" -> LET f == Top(w) IN
                         [WithTop(w, [f EXCEPT !.on = TRUE]) EXCEPT !.out = Append(@, <<"S", f.n, f.l, f.attrs>>), !.reqs = Append(@, f.reqs)]
    [] c.op = "text" -> [w EXCEPT !.out = Append(@, <<"T", c.s>>)]
    [] c.op = "finish" -> [Pop(w) EXCEPT !.out = Append(@, <<"E">>)]
Failed(w, c) == Poison(IF c.op \in {"start", "finish"} THEN Pop(w) ELSE w)

Complete(w) == w.frames = <<>> /\ ~w.poisoned /\ w.out # <<>>

---------------------------------------------------------------------------
(* What the namespaces of a written document must be like.  toks: its tags   *)
(* as written.                                                              *)
Tags(toks) == SelectSeq(toks, LAMBDA t : t.k \in {"S", "E"})
\* The scopes outside and inside each element.
ScopeStep(a, t) ==
  IF t.k = "E" THEN [a EXCEPT !.stack = AllButLast(@)]
  ELSE LET o == LastOf(a.stack)  i == Declare(o, t.d)
       IN  [stack |-> Append(a.stack, i), els |-> Append(a.els, [t |-> t, outer |-> o, inner |-> i])]
Elements(toks) == FoldLeft(ScopeStep, [stack |-> <<NoScope>>, els |-> <<>>], Tags(toks)).els

AllDeclared(els) ==
  \A j \in DOMAIN els :
    /\ IsDeclared(els[j].inner, els[j].t.p)
    /\ \A x \in DOMAIN els[j].t.a : IsDeclared(els[j].inner, els[j].t.a[x][1])
    /\ \A x \in DOMAIN els[j].t.d : els[j].t.d[x][1] # "" => els[j].t.d[x][2] # ""
NoDoubles(els) ==
  \A j \in DOMAIN els :
    LET a == els[j].t.a
        nm(x) == <<AttributeUrl(els[j].inner, a[x][1]), a[x][2]>>
    IN  \A x, y \in DOMAIN a : x # y => nm(x) # nm(y)

\* A request <<p, u>> of an element that nothing competes with: every prefix and URL requested there is
\* requested once, no such prefix means something else outside, and nothing there needs a prefix nobody asked
\* for.  A URL that has another prefix outside competes if the element itself is named in it.
Uncontested(f, e) ==
  /\ \A x, y \in DOMAIN f.reqs : f.reqs[x] # f.reqs[y] => f.reqs[x][1] # f.reqs[y][1] /\ f.reqs[x][2] # f.reqs[y][2]
  /\ \A x \in DOMAIN f.reqs : \A q \in DOMAIN e.outer :
       /\ (q = f.reqs[x][1] => e.outer[q] = f.reqs[x][2])
       /\ (e.outer[q] = f.reqs[x][2] => (q = f.reqs[x][1] \/ f.n # f.reqs[x][2]))
  /\ \A x \in DOMAIN f.reqs : f.reqs[x][1] = "" => f.n # "" /\ ~\E y \in DOMAIN f.attrs : f.attrs[y][1] = f.reqs[x][2]
  /\ \A y \in DOMAIN f.attrs :
       LET u == f.attrs[y][1] IN
       \/ u \in {"", XmlUrl}
       \/ \E x \in DOMAIN f.reqs : f.reqs[x][2] = u
       \/ \E q \in DOMAIN e.outer \ {""} : e.outer[q] = u
Honoured(f, e, j) ==
  LET p == f.reqs[j][1]  u == f.reqs[j][2]
  IN /\ f.n = u => e.t.p = p
     /\ \A x \in DOMAIN e.t.a : AttributeUrl(e.inner, e.t.a[x][1]) = u => e.t.a[x][1] = p
     /\ Lookup(e.inner, p) = u
\* fs: the elements as requested, in the same order.
AllHonoured(fs, els) ==
  \A i \in DOMAIN els : \A j \in DOMAIN fs[i].reqs :
    fs[i].reqs[j][2] \notin {"", XmlUrl} /\ Uncontested(fs[i], els[i]) => Honoured(fs[i], els[i], j)

Starts(out) == SelectSeq(out, LAMBDA t : t[1] = "S")
Names1(out) == LET s == Starts(out) IN [j \in DOMAIN s |-> <<s[j][2], s[j][3], [x \in DOMAIN s[j][4] |-> <<s[j][4][x][1], s[j][4][x][2]>>]>>]
AsFrames(w) == LET s == Starts(w.out) IN [j \in DOMAIN s |-> [n |-> s[j][2], l |-> s[j][3], attrs |-> s[j][4], reqs |-> w.reqs[j]]]
=============================================================================
