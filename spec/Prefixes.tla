------------------------------ MODULE Prefixes ------------------------------
(* A way of choosing prefixes which satisfies what Writer demands of the     *)
(* namespaces of a document.  (Other ways may, too: documents are held to    *)
(* the demands, not to this.)                                               *)
EXTENDS Writer

\* The URLs, in the order in which they are served.
CONSTANT UrlOrder

\* What an element needs, from the mappings around it (inh), its requests and names.
First(s, P(_)) == s[CHOOSE x \in DOMAIN s : P(s[x]) /\ \A y \in 1 .. x - 1 : ~P(s[y])]
Inherited(inh, u) == {p \in DOMAIN inh : inh[p] = u}
Least(ps) == CHOOSE p \in ps : TRUE   \* no URL has two
Requests(f, u) == SelectSeq(f.reqs, LAMBDA q : q[2] = u)
ByAttribute(f, u) == \E x \in DOMAIN f.attrs : f.attrs[x][1] = u
Required(f, u) == Requests(f, u) # <<>> \/ f.n = u \/ ByAttribute(f, u)
\* The inherited prefix comes first for the URL of the element's name, else the first requested one.
Wanted(inh, f, u) ==
  IF f.n = u /\ Inherited(inh, u) # {} THEN Least(Inherited(inh, u))
  ELSE IF Requests(f, u) # <<>> THEN Requests(f, u)[1][1] ELSE Least(Inherited(inh, u))

RECURSIVE Fresh(_, _, _)
Fresh(base, i, taken) == LET p == base \o ToString(i) IN IF p \in taken THEN Fresh(base, i + 1, taken) ELSE p

Map(m, p, u) == [q \in DOMAIN m \cup {p} |-> IF q = p THEN u ELSE m[q]]
Unsuitable(f, u, p) == p = "" /\ (f.n = "" \/ ByAttribute(f, u))
Serve(inh, f, m, u) ==
  LET p == Wanted(inh, f, u)
  IN IF ~Required(f, u) THEN m
     ELSE IF p \notin DOMAIN m /\ ~Unsuitable(f, u, p) THEN Map(m, p, u)
     ELSE Map(m, IF p = "" THEN Fresh("ns", 1, DOMAIN m) ELSE Fresh(p, 2, DOMAIN m), u)
Keep(inh, f, m, u) ==
  IF Required(f, u) \/ Inherited(inh, u) = {} THEN m
  ELSE LET p == Least(Inherited(inh, u))
       IN IF p \in DOMAIN m \/ (p = "" /\ f.n = "") THEN m ELSE Map(m, p, u)
NoMap == [p \in {} |-> ""]
Assign(inh, f) ==
  LET a == FoldLeft(LAMBDA m, u : Serve(inh, f, m, u), NoMap, UrlOrder)
  IN FoldLeft(LAMBDA m, u : Keep(inh, f, m, u), a, UrlOrder)

SetToOrder(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : \A x, y \in DOMAIN s : x # y => s[x] # s[y]
Declarations(inh, m) ==
  (IF "" \in DOMAIN inh /\ "" \notin DOMAIN m THEN <<<<"", "">>>> ELSE <<>>)
  \o LET ps == SetToOrder({p \in DOMAIN m : p \notin DOMAIN inh \/ inh[p] # m[p]})
     IN [x \in DOMAIN ps |-> <<ps[x], m[ps[x]]>>]
PrefixFor(m, u) == IF u = "" THEN "" ELSE IF u = XmlUrl THEN "xml" ELSE CHOOSE p \in DOMAIN m : m[p] = u

\* The start tag of an element.
Tag(inh, f) ==
  LET m == Assign(inh, f)
  IN [k |-> "S", p |-> PrefixFor(m, f.n), l |-> f.l, d |-> Declarations(inh, m),
      a |-> [x \in DOMAIN f.attrs |-> <<PrefixFor(m, f.attrs[x][1]), f.attrs[x][2], f.attrs[x][3]>>], r |-> 0, c |-> 0]
=============================================================================
