------------------------------ MODULE MCSchema ------------------------------
(* All small documents for some types.  The machine of Schema, which takes   *)
(* one token at a time, is checked against a declarative reading of the      *)
(* document as a tree; the result must not depend on what it is said not to  *)
(* depend on (prefixes, unknown content, the division of text); and what was *)
(* read must be read again from its written form.  Every complete document   *)
(* is printed, to be replayed on the real code.                              *)
(*                                                                          *)
(* ALPHA: one record per type: [ty, roots, starts: start tags to choose     *)
(* from, texts, els: at most so many elements, txs: at most so many texts].  *)
EXTENDS Schema, Json, IOUtils

Types == ndJsonDeserialize(IOEnv.TYPES)[1].types
TypeAt(i) == Types[i]
Alphas == ndJsonDeserialize(IOEnv.ALPHA)

VARIABLES ai, doc, st, depth, els, txs, script, done
vars == <<ai, doc, st, depth, els, txs, script, done>>

A == Alphas[ai]
Init == /\ ai \in DOMAIN Alphas /\ doc = <<>> /\ st = Start(Alphas[ai].ty) /\ depth = 0 /\ els = 0 /\ txs = 0
        /\ script = <<>> /\ done = FALSE

Take(tok, choice) == /\ doc' = Append(doc, tok) /\ st' = Step1(st, tok) /\ script' = Append(script, choice)
                     /\ UNCHANGED <<ai, done>>
End == [k |-> "E"]

\* Where the machine has failed, the rest of the document only closes what is open.
RootStarts == /\ doc = <<>> /\ \E x \in DOMAIN A.roots : Take(A.roots[x], x)
              /\ depth' = 1 /\ els' = els /\ txs' = txs
ElementStarts == /\ depth > 0 /\ st.status = "run" /\ els < A.els
                 /\ \E x \in DOMAIN A.starts : Take(A.starts[x], x)
                 /\ depth' = depth + 1 /\ els' = els + 1 /\ txs' = txs
TextArrives == /\ depth > 0 /\ st.status = "run" /\ txs < A.txs /\ doc[Len(doc)].k # "T"
               /\ \E x \in DOMAIN A.texts : Take([k |-> "T", s |-> A.texts[x]], 0 - x)
               /\ txs' = txs + 1 /\ UNCHANGED <<depth, els>>
ElementEnds == depth > 0 /\ Take(End, 0) /\ depth' = depth - 1 /\ UNCHANGED <<els, txs>>
Finished == depth = 0 /\ doc # <<>> /\ ~done
Emit == /\ Finished /\ done' = TRUE /\ PrintT(<<"DOC", ai, script>>)
        /\ UNCHANGED <<ai, doc, st, depth, els, txs, script>>
Next == RootStarts \/ ElementStarts \/ TextArrives \/ ElementEnds \/ Emit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The declarative reading.                                                *)
\* Element at doc position a, ended at b.
RECURSIVE EndOf(_, _, _)
EndOf(d, j, n) == IF d[j].k = "E" /\ n = 1 THEN j
                  ELSE EndOf(d, j + 1, CASE d[j].k = "S" -> n + 1 [] d[j].k = "E" -> n - 1 [] OTHER -> n)
\* Its direct content.
RECURSIVE Kids(_, _, _)
Kids(d, j, b) == IF j >= b THEN <<>>
                 ELSE IF d[j].k = "S" THEN <<j>> \o Kids(d, EndOf(d, j, 0) + 1, b)
                 ELSE IF d[j].k = "T" THEN <<j>> \o Kids(d, j + 1, b)
                 ELSE Kids(d, j + 1, b)
\* The mappings at an element: the nearest declaration of each prefix, on it or around it.
Around(d, j) == {x \in 1 .. j : d[x].k = "S" /\ EndOf(d, x, 0) > j}
UrlOf(d, j, p) ==
  LET ds == {x \in Around(d, j) : \E y \in DOMAIN d[x].d : d[x].d[y][1] = p}
      near == CHOOSE x \in ds : \A y \in ds : y <= x
  IN IF p = "xml" THEN XmlUrl ELSE IF ds = {} THEN ""
     ELSE d[near].d[CHOOSE y \in DOMAIN d[near].d : d[near].d[y][1] = p][2]

\* Of the places with some name, the one that takes it: own before flattened, then in order of declaration.
PlacesOf == [i \in Reach({Alphas[x].ty : x \in DOMAIN Alphas}, {}) |-> Places(i)]
RECURSIVE Before(_, _)
Before(p, q) == IF p[1] = q[1] THEN Before(Tail(p), Tail(q))
                ELSE IF (Len(p) > 1) = (Len(q) > 1) THEN p[1] < q[1] ELSE Len(p) = 1
Taker(i, kind, n, l) ==
  LET ps == {x[1] : x \in {y \in PlacesOf[i] : y[2] = kind /\ (kind = "text" \/ (y[3] = n /\ y[4] = l))}}
  IN IF ps = {} THEN <<>> ELSE CHOOSE p \in ps : \A q \in ps : p = q \/ Before(p, q)

Select(s, P(_)) == SelectSeq(s, P)
AllGood(rs) == \A x \in DOMAIN rs : rs[x].ok
Vals(rs) == [x \in DOMAIN rs |-> rs[x].v]

\* One field, given the results of what it takes.
FieldOf(c, def, ty, rs) ==
  CASE c = "first" -> (IF rs = <<>> THEN Good(<<"v", <<>>>>) ELSE IF rs[1].ok THEN Good(<<"v", <<rs[1].v>>>>) ELSE Bad)
    [] ~AllGood(rs) -> Bad
    [] c = "last" -> Good(<<"v", IF rs = <<>> THEN <<>> ELSE <<Last1(rs).v>>>>)
    [] c = "two" -> IF Len(rs) > 2 THEN Bad ELSE Good(<<"v", Vals(rs)>>)
    [] c = "nil" -> IF Len(rs) > 1 \/ (rs = <<>> /\ ~def) THEN Bad ELSE IF rs = <<>> THEN Good(<<"o", <<>>>>) ELSE rs[1]
    [] c = "vec" -> Good(<<"v", Vals(rs)>>)
    [] Len(rs) > 1 -> Bad
    [] c = "opt" -> Good(<<"o", Vals(rs)>>)
    [] Len(rs) = 1 -> rs[1]
    [] def -> Good(TypeOf(ty).dv)
    [] OTHER -> Bad

RECURSIVE Read1(_, _, _), Part(_, _, _, _, _)
\* Type i, part of the type whole (reached by the path at), read from element j.
Part(d, j, whole, i, at) ==
  LET t == TypeOf(i)
      kids == Kids(d, j + 1, EndOf(d, j, 0))
      name(k) == <<UrlOf(d, k, d[k].p), d[k].l>>
      elems(p) == Select(kids, LAMBDA k : d[k].k = "S" /\ Taker(whole, "elem", name(k)[1], name(k)[2]) = p)
      text == FoldLeft(LAMBDA a, k : IF d[k].k = "T" THEN a \o d[k].s ELSE a, <<>>, kids)
      anm(x) == <<AttributeUrl([q \in {d[j].a[x][1]} |-> UrlOf(d, j, d[j].a[x][1])], d[j].a[x][1]), d[j].a[x][2]>>
      attrs(p) == Select([x \in DOMAIN d[j].a |-> x], LAMBDA x : Taker(whole, "attr", anm(x)[1], anm(x)[2]) = p)
      readAll(ks, ty) == [x \in DOMAIN ks |-> Read1(d, ks[x], ty)]
      field(f, p) ==
        CASE f.m = "flat" -> Part(d, j, whole, f.ty, p)
          [] f.m = "text" -> TextParse(f.ty, IF Taker(whole, "text", "", "") = p THEN text ELSE <<>>)
          [] f.m = "attr" -> FieldOf(f.c, f.def, f.ty, [x \in DOMAIN attrs(p) |->
               LET s == d[j].a[attrs(p)[x]][3]  r == TextParse(f.ty, s)
               IN  IF f.c # "nil" THEN r ELSE IF s = <<>> THEN Good(<<"o", <<>>>>) ELSE IF r.ok THEN Good(<<"o", <<r.v>>>>) ELSE Bad])
          [] f.m = "elem" -> FieldOf(f.c, f.def, f.ty, readAll(elems(p), f.ty))
  IN IF t.k = "struct"
     THEN LET rs == [x \in DOMAIN t.fields |-> field(t.fields[x], Append(at, x))]
          IN IF AllGood(rs) THEN Good(<<"st", Vals(rs)>>) ELSE Bad
     ELSE \* exactly one variant has been given something
          LET got == {x \in DOMAIN t.vars : elems(Append(at, x)) # <<>>}
              v == CHOOSE x \in got : TRUE
              ks == elems(Append(at, v))
              rs == readAll(ks, t.vars[v].ty)
          IN IF Cardinality(got) # 1 THEN Bad
             ELSE CASE t.vars[v].c = "unit" -> Good(<<"e", v, <<"u">>>>)
                    [] OTHER -> LET r == FieldOf(t.vars[v].c, FALSE, 0, rs)
                                IN IF r.ok THEN Good(<<"e", v, r.v>>) ELSE Bad
Read1(d, j, i) ==
  IF IsText(i)
  THEN LET kids == Kids(d, j + 1, EndOf(d, j, 0))
       IN IF \E x \in DOMAIN kids : d[kids[x]].k = "S" THEN Bad
          ELSE TextParse(i, FoldLeft(LAMBDA a, k : a \o d[k].s, <<>>, kids))
  ELSE Part(d, j, i, i, <<>>)

Whole == Append(doc, [k |-> "Z"])
DenotationInv == Finished => Result(Step1(st, [k |-> "Z"])) = Read1(doc, 1, A.ty)

---------------------------------------------------------------------------
(* What the result does not depend on.                                     *)
\* Other prefixes: every name gets a prefix of its own, all declared on the spot.
Respelled(d) ==
  [j \in DOMAIN d |->
     IF d[j].k # "S" THEN d[j]
     ELSE LET a == d[j].a
              au(x) == IF a[x][1] = "" THEN "" ELSE UrlOf(d, j, a[x][1])
              u == UrlOf(d, j, d[j].p)
              qs == SelectSeq([x \in DOMAIN a |-> x], LAMBDA x : a[x][1] \notin {"", "xml"})
          IN [d[j] EXCEPT !.p = IF u = "" THEN "" ELSE "e" \o ToString(j),
                          !.d = (IF u = "" THEN <<<<"", "">>>> ELSE <<<<"e" \o ToString(j), u>>, <<"", "urn:other">>>>)
                                \o [x \in DOMAIN qs |-> <<"q" \o ToString(qs[x]), au(qs[x])>>],
                          !.a = [x \in DOMAIN a |-> IF a[x][1] \in {"", "xml"} THEN a[x] ELSE <<"q" \o ToString(x), a[x][2], a[x][3]>>]]]
PrefixInv == Finished => Result(RunAll(A.ty, Respelled(Whole))) = Result(RunAll(A.ty, Whole))

\* The division of text: every text in single characters, with empty ones between.
Divided(d) == FoldLeft(LAMBDA o, t : IF t.k = "T" THEN o \o [x \in 1 .. 2 * Len(t.s) |-> [k |-> "T", s |-> IF x % 2 = 1 THEN <<>> ELSE <<t.s[x \div 2]>>]]
                                     ELSE Append(o, t), <<>>, d)
TextInv == Finished => Result(RunAll(A.ty, Divided(Whole))) = Result(RunAll(A.ty, Whole))

\* Something unknown at the end of every element that is not read as text.
Noise == <<[k |-> "S", p |-> "", l |-> "no-such", d |-> <<<<"", "urn:no-such">>>>, a |-> <<<<"", "no", <<33>>>>>>, r |-> 0, c |-> 0],
           [k |-> "T", s |-> <<33>>], [k |-> "S", p |-> "", l |-> "a", d |-> <<<<"", "">>>>, a |-> <<>>, r |-> 0, c |-> 0], [k |-> "E"], [k |-> "E"]>>
RECURSIVE Noisy(_, _)
Noisy(s, d) ==
  IF d = <<>> THEN <<>>
  ELSE (IF d[1].k = "E" /\ s.status = "run" /\ TopF(s).k # "X" THEN Noise ELSE <<>>) \o <<d[1]>> \o Noisy(Step1(s, d[1]), Tail(d))
NoiseInv == Finished => Result(RunAll(A.ty, Noisy(Start(A.ty), Whole))) = Result(RunAll(A.ty, Whole))

\* What was read is read again from its written form.
Clear == {i \in {Alphas[x].ty : x \in DOMAIN Alphas} : ~IsText(i) => Unambiguous(i)}
ReadAgain(i, v) == LET o == Out("", "r", i, v) IN Writable(o) => Result(RunAll(i, AsTokens(o))) = Good(v)
RoundTripInv == Finished /\ A.ty \in Clear => LET r == Result(Step1(st, [k |-> "Z"])) IN r.ok /\ Readable(A.ty, r.v) => ReadAgain(A.ty, r.v)

Inv == /\ st.status = "run" => Len(st.frames) = depth /\ Len(st.open) = depth /\ Len(st.scopes) = depth
       /\ st.err.kind # "none" => st.status = "done" /\ ~Result(st).ok
=============================================================================
