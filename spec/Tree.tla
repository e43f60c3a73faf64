-------------------------------- MODULE Tree --------------------------------
(* What a document says: its elements with expanded names, attributes and   *)
(* texts, as a sequence of <<"S", n, l, attributes>>, <<"T", text>>, <<"E">>  *)
(* with attributes a sequence of <<n, l, value>>.                            *)
EXTENDS Names, SequencesExt

White == {9, 10, 13, 32}
XmlChar(c) == c \in {9, 10, 13} \/ (c >= 32 /\ c # 65534 /\ c # 65535)
Representable(s) == \A j \in DOMAIN s : XmlChar(s[j])

LastOf(s) == s[Len(s)]
AllButLast(s) == SubSeq(s, 1, Len(s) - 1)

\* Adjacent texts are one; empty ones are none.
Merge(ts) ==
  FoldLeft(LAMBDA o, t : IF t[1] = "T" /\ t[2] = <<>> THEN o
                         ELSE IF o # <<>> /\ t[1] = "T" /\ LastOf(o)[1] = "T"
                         THEN Append(AllButLast(o), <<"T", LastOf(o)[2] \o t[2]>>) ELSE Append(o, t),
           <<>>, ts)

\* A document given as tokens (see Reader), by the namespace rules.
ResolveStep(a, t) ==
  CASE t.k = "S" ->
         LET sc == Declare(LastOf(a.scopes), t.d)
         IN [scopes |-> Append(a.scopes, sc),
             out |-> Append(a.out, <<"S", ElementUrl(sc, t.p), t.l, [x \in DOMAIN t.a |-> <<AttributeUrl(sc, t.a[x][1]), t.a[x][2], t.a[x][3]>>]>>)]
    [] t.k = "T" -> [a EXCEPT !.out = Append(@, <<"T", t.s>>)]
    [] t.k = "E" -> [scopes |-> AllButLast(a.scopes), out |-> Append(a.out, <<"E">>)]
    [] OTHER -> a
Meaning(toks) == Merge(FoldLeft(ResolveStep, [scopes |-> <<NoScope>>, out |-> <<>>], toks).out)

---------------------------------------------------------------------------
(* Indentation: texts between tags, of white space only, in elements which   *)
(* hold elements and no other text.                                         *)
Blank(t) == t[1] = "T" /\ \A x \in DOMAIN t[2] : t[2][x] \in White
\* The whole content of its element; such a text stays.
OnlyText(ts, j) == j > 1 /\ j < Len(ts) /\ ts[j - 1][1] = "S" /\ ts[j + 1][1] = "E"
Without(ts, P(_)) == SelectSeq([j \in DOMAIN ts |-> IF P(j) THEN <<"B">> ELSE ts[j]], LAMBDA t : t # <<"B">>)
Unindent(ts) == Without(ts, LAMBDA j : Blank(ts[j]) /\ ~OnlyText(ts, j))
\* Elements, attributes, and texts of elements that hold nothing else.
Skeleton(ts) == Without(ts, LAMBDA j : ts[j][1] = "T" /\ ~OnlyText(ts, j))
\* Is there an element with both text and elements?
Mixed(ts) == \E j \in DOMAIN ts : ts[j][1] = "T" /\ ~OnlyText(ts, j)
SameButIndent(o, m) == IF Mixed(o) THEN Skeleton(m) = Skeleton(o) ELSE Unindent(m) = o
=============================================================================
