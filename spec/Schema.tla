------------------------------- MODULE Schema -------------------------------
(* What a derived type reads from a document, and what it writes.           *)
(*                                                                          *)
(* Besides the text types of Text, TypeOf(i) may be                          *)
(*   struct [n, l: root name, ns: declared mappings, fields]                 *)
(*     fields: sequence of [m: elem/attr/text/flat, n, l, c: how often,      *)
(*                          ty, def: TRUE if a default is declared]          *)
(*   enum   [n, l, ns, vars: sequence of [n, l, c: how often, ty, skip]]     *)
(* How often: one, opt, vec; unit (variants); and the field types of a user  *)
(* who implements the traits for fields: last (what comes later replaces),   *)
(* first (what comes later is not even read), two (a third is an error), and *)
(* nil for attributes (which must be there, but may be empty).               *)
(* and every type has a default value dv.                                   *)
(* Values: <<"st", fields>>, <<"e", variant, payload>>, <<"o", 0 or 1 item>>, *)
(* <<"v", items>>.                                                          *)
(*                                                                          *)
(* Reading is a machine that takes one token of the document at a time       *)
(* (see Reader for tokens), with one frame per open element:                 *)
(*   C  read by a struct or enum: [ty, vis: what it has so far, to]          *)
(*   X  read as text: [ty, acc, to]                                         *)
(*   I  ignored                                                             *)
(* `to` is the path of the field in the parent's vis that gets the value.    *)
EXTENDS Names, Text, Tree

Last1(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)

Absent == [p |-> FALSE, v |-> <<"none">>]
Present(v) == [p |-> TRUE, v |-> v]

---------------------------------------------------------------------------
(* Which field takes an item: own fields first, then the flattened ones in   *)
(* declaration order; <<>> if none does.                                    *)
OwnField(t, m, n, l) ==
  FirstIndex(Len(t.fields), LAMBDA x : t.fields[x].m = m /\ t.fields[x].n = n /\ t.fields[x].l = l)

RECURSIVE PathOf(_, _, _, _)
PathOf(i, m, n, l) ==
  LET t == TypeOf(i)
  IN CASE t.k = "struct" ->
            LET j == OwnField(t, m, n, l)
                f == FirstIndex(Len(t.fields), LAMBDA x : t.fields[x].m = "flat" /\ PathOf(t.fields[x].ty, m, n, l) # <<>>)
            IN  IF j # 0 THEN <<j>> ELSE IF f # 0 THEN <<f>> \o PathOf(t.fields[f].ty, m, n, l) ELSE <<>>
       [] t.k = "enum" /\ m = "elem" ->
            LET j == FirstIndex(Len(t.vars), LAMBDA x : ~t.vars[x].skip /\ t.vars[x].n = n /\ t.vars[x].l = l)
            IN  IF j # 0 THEN <<j>> ELSE <<>>
       [] OTHER -> <<>>
RECURSIVE TextPath(_)
TextPath(i) ==
  LET t == TypeOf(i)
  IN IF t.k # "struct" THEN <<>>
     ELSE LET j == FirstIndex(Len(t.fields), LAMBDA x : t.fields[x].m = "text")
              f == FirstIndex(Len(t.fields), LAMBDA x : t.fields[x].m = "flat" /\ TextPath(t.fields[x].ty) # <<>>)
          IN  IF j # 0 THEN <<j>> ELSE IF f # 0 THEN <<f>> \o TextPath(t.fields[f].ty) ELSE <<>>

\* The declaration at the end of a path: a field or a variant.
RECURSIVE DeclAt(_, _)
DeclAt(i, p) ==
  LET t == TypeOf(i)
  IN IF t.k = "enum" THEN t.vars[p[1]]
     ELSE IF Len(p) = 1 THEN t.fields[p[1]] ELSE DeclAt(t.fields[p[1]].ty, Tail(p))

---------------------------------------------------------------------------
(* What has been read of a struct (one entry per field) or an enum (the      *)
(* variant, 0 if none yet).                                                 *)
RECURSIVE Empty(_)
Empty(i) ==
  LET t == TypeOf(i)
  IN IF t.k = "enum" THEN [i |-> 0, v |-> <<"none">>]
     ELSE [j \in DOMAIN t.fields |->
             CASE t.fields[j].m = "flat" -> Empty(t.fields[j].ty)
               [] t.fields[j].m = "text" -> <<>>
               [] OTHER -> Absent]

RECURSIVE Get(_, _, _)
Get(i, vis, p) ==   \* what a path holds (for a variant: the enum)
  LET t == TypeOf(i)
  IN IF t.k = "enum" THEN vis
     ELSE IF Len(p) = 1 THEN vis[p[1]] ELSE Get(t.fields[p[1]].ty, vis[p[1]], Tail(p))
RECURSIVE Set(_, _, _, _)
Set(i, vis, p, x) ==
  LET t == TypeOf(i)
  IN IF t.k = "enum" THEN x
     ELSE IF Len(p) = 1 THEN [vis EXCEPT ![p[1]] = x]
     ELSE [vis EXCEPT ![p[1]] = Set(t.fields[p[1]].ty, @, Tail(p), x)]


Several == {"vec", "last", "first", "two"}
Wrap(c, v) == CASE c = "one" -> v [] c = "opt" -> <<"o", <<v>>>> [] c \in Several -> <<"v", <<v>>>>
More(c, old, v) == IF c = "last" THEN <<"v", <<v>>>> ELSE <<"v", Append(old[2], v)>>
MoreFits(c, old) == c \in {"vec", "last", "first"} \/ (c = "two" /\ Len(old[2]) < 2)

\* May the element at the end of path p be taken now?
RECURSIVE EndsInEnum(_, _)
EndsInEnum(i, p) ==
  LET t == TypeOf(i)
  IN IF t.k = "enum" THEN TRUE ELSE IF Len(p) = 1 THEN FALSE ELSE EndsInEnum(t.fields[p[1]].ty, Tail(p))

MayTake(i, vis, p) ==
  LET d == DeclAt(i, p)  cur == Get(i, vis, p)
  IN IF EndsInEnum(i, p)
     THEN cur.i = 0 \/ (cur.i = Last1(p) /\ (d.c = "unit" \/ MoreFits(d.c, cur.v)))
     ELSE ~cur.p \/ MoreFits(d.c, cur.v)
Taken(i, vis, p) == IF EndsInEnum(i, p) THEN Get(i, vis, p).i # 0 ELSE Get(i, vis, p).p

\* A value for the end of path p arrives.
Put(i, vis, p, v) ==
  LET d == DeclAt(i, p)  cur == Get(i, vis, p)
  IN IF EndsInEnum(i, p)
     THEN Set(i, vis, p, [i |-> Last1(p), v |-> IF cur.i = 0 THEN Wrap(d.c, v) ELSE More(d.c, cur.v, v)])
     ELSE Set(i, vis, p, Present(IF cur.p THEN More(d.c, cur.v, v) ELSE Wrap(d.c, v)))
PutUnit(i, vis, p) == Set(i, vis, p, [i |-> Last1(p), v |-> <<"u">>])

Missing(f) ==
  CASE f.m = "elem" /\ f.c \in Several -> Good(<<"v", <<>>>>)
    [] f.c = "nil" -> IF f.def THEN Good(<<"o", <<>>>>) ELSE Bad
    [] f.c = "opt" -> Good(<<"o", <<>>>>)
    [] f.def -> Good(TypeOf(f.ty).dv)
    [] OTHER -> Bad

RECURSIVE Finalize(_, _)
Finalize(i, vis) ==
  LET t == TypeOf(i)
  IN IF t.k = "enum" THEN (IF vis.i = 0 THEN Bad ELSE Good(<<"e", vis.i, vis.v>>))
     ELSE LET r == [j \in DOMAIN t.fields |->
                      LET f == t.fields[j]
                      IN CASE f.m = "flat" -> Finalize(f.ty, vis[j])
                           [] f.m = "text" -> TextParse(f.ty, vis[j])
                           [] OTHER -> IF vis[j].p THEN Good(vis[j].v) ELSE Missing(f)]
          IN IF \A j \in DOMAIN r : r[j].ok THEN Good(<<"st", [j \in DOMAIN r |-> r[j].v]>>) ELSE Bad

---------------------------------------------------------------------------
(* The reading machine.                                                    *)
NoErr == [kind |-> "none", stack |-> <<>>, pos |-> <<0, 0>>]

Start(i) == [ty |-> i, status |-> "run", frames |-> <<>>, open |-> <<>>, scopes |-> <<>>, res |-> Bad, err |-> NoErr]

Scope(st) == IF st.scopes = <<>> THEN NoScope ELSE Last1(st.scopes)
TopF(st) == Last1(st.frames)
SetTopF(st, f) == [st EXCEPT !.frames = Append(Front1(@), f)]

\* An error about the innermost open element, whose path is the open ones.
Fail(st, kind) ==
  [st EXCEPT !.status = "done", !.frames = <<>>,
             !.err = [kind |-> kind, stack |-> st.open,
                      pos |-> IF st.open = <<>> \/ (Len(st.open) = 1 /\ kind # "attr") THEN <<0, 0>>
                              ELSE <<Last1(st.open).r, Last1(st.open).c>>]]

FrameFor(i, to) == IF IsText(i) THEN [k |-> "X", ty |-> i, acc |-> <<>>, to |-> to]
                   ELSE [k |-> "C", ty |-> i, vis |-> Empty(i), to |-> to]
Ignore == [k |-> "I"]

AttrParse(c, i, s) ==
  IF c = "nil" /\ s = <<>> THEN Good(<<"o", <<>>>>)
  ELSE LET r == TextParse(i, s) IN IF r.ok THEN Good(Wrap(IF c = "nil" THEN "opt" ELSE c, r.v)) ELSE Bad

\* The attributes of the element just opened, in order; an error stops.
TakeAttr(st, a) ==
  IF st.status # "run" \/ TopF(st).k # "C" THEN st
  ELSE LET f == TopF(st)
           p == PathOf(f.ty, "attr", AttributeUrl(Scope(st), a[1]), a[2])
       IN  IF p = <<>> THEN st
           ELSE LET d == DeclAt(f.ty, p)
                    r == AttrParse(d.c, d.ty, a[3])
                IN  IF Get(f.ty, f.vis, p).p \/ ~r.ok THEN Fail(st, "attr")
                    ELSE SetTopF(st, [f EXCEPT !.vis = Set(f.ty, @, p, Present(r.v))])

Open(st, tok) ==
  LET sc == Declare(Scope(st), tok.d)
      u == ElementUrl(sc, tok.p)
      s2 == [st EXCEPT !.scopes = Append(@, sc),
                       !.open = Append(@, [p |-> tok.p, n |-> u, l |-> tok.l, r |-> tok.r, c |-> tok.c])]
      push(f) == FoldLeft(TakeAttr, [s2 EXCEPT !.frames = Append(@, f)], tok.a)
      f == TopF(st)
  IN IF st.frames = <<>> THEN push(FrameFor(st.ty, <<>>))
     ELSE CASE f.k = "I" -> push(Ignore)
            [] f.k = "X" -> Fail(s2, "string")
            [] f.k = "C" ->
                 LET p == PathOf(f.ty, "elem", u, tok.l)
                 IN IF p = <<>> THEN push(Ignore)
                    ELSE IF ~MayTake(f.ty, f.vis, p) THEN Fail(s2, "elem")
                    ELSE IF DeclAt(f.ty, p).c = "unit"
                         THEN [s2 EXCEPT !.frames = Append(Front1(@), [f EXCEPT !.vis = PutUnit(f.ty, @, p)]) \o <<Ignore>>]
                    ELSE IF DeclAt(f.ty, p).c = "first" /\ Taken(f.ty, f.vis, p) THEN push(Ignore)
                    ELSE push(FrameFor(DeclAt(f.ty, p).ty, p))

Chars(st, s) ==
  LET f == TopF(st)
  IN CASE f.k = "I" -> st
       [] f.k = "X" -> SetTopF(st, [f EXCEPT !.acc = @ \o s])
       [] f.k = "C" -> LET p == TextPath(f.ty)
                       IN IF p = <<>> THEN st
                          ELSE SetTopF(st, [f EXCEPT !.vis = Set(f.ty, @, p, Get(f.ty, f.vis, p) \o s)])

Close(st) ==
  LET f == TopF(st)
      r == CASE f.k = "X" -> TextParse(f.ty, f.acc) [] f.k = "C" -> Finalize(f.ty, f.vis) [] OTHER -> Bad
      s2 == [st EXCEPT !.frames = Front1(@), !.open = Front1(@), !.scopes = Front1(@)]
  IN IF f.k = "I" THEN s2
     ELSE IF ~r.ok THEN Fail(st, "value")
     ELSE IF Len(st.frames) = 1 THEN [s2 EXCEPT !.res = r]
     ELSE LET g == TopF(s2) IN SetTopF(s2, [g EXCEPT !.vis = Put(g.ty, @, f.to, r.v)])

Step1(st, tok) ==
  IF st.status # "run" THEN st
  ELSE CASE tok.k = "S" -> Open(st, tok)
         [] tok.k = "T" -> Chars(st, tok.s)
         [] tok.k = "E" -> Close(st)
         [] tok.k = "X" -> [Fail(st, "xml") EXCEPT !.res = Bad, !.err.pos = <<0, 0>>]
         [] tok.k = "Z" -> [st EXCEPT !.status = "done"]

RunAll(i, toks) == FoldLeft(Step1, Start(i), toks)
Result(st) == IF st.err.kind = "none" THEN st.res ELSE Bad

---------------------------------------------------------------------------
(* Writing: the elements, attributes and text a value stands for, as        *)
(* <<"S", n, l, attributes>>, <<"T", text>>, <<"E">>; <<"bad">> where it       *)
(* cannot be written.                                                       *)
TextTok(s) == IF s = <<>> THEN <<>> ELSE IF Representable(s) THEN <<<<"T", s>>>> ELSE <<<<"bad">>>>

RECURSIVE OutAttrs(_, _), OutKids(_, _), OutElem(_, _, _, _), OutField(_, _, _, _, _)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
FieldsOf(t, m, F(_)) == Concat([j \in DOMAIN t.fields |-> IF t.fields[j].m = m THEN F(j) ELSE <<>>])

OutAttrs(i, v) ==
  LET t == TypeOf(i)
      one(j) == LET f == t.fields[j]  x == v[2][j]
                IN IF f.c = "opt" /\ x[2] = <<>> THEN <<>>
                   ELSE <<<<f.n, f.l, CASE f.c = "one" -> TextPrint(f.ty, x)
                                        [] x[2] = <<>> -> <<>>
                                        [] OTHER -> TextPrint(f.ty, x[2][1])>>>>
  IN IF t.k # "struct" THEN <<>>
     ELSE FieldsOf(t, "attr", one) \o FieldsOf(t, "flat", LAMBDA j : OutAttrs(t.fields[j].ty, v[2][j]))

OutField(n, l, c, i, x) ==
  CASE c = "unit" -> << <<"S", n, l, <<>>>>, <<"E">> >>
    [] c = "one" -> OutElem(n, l, i, x)
    [] OTHER -> Concat([j \in DOMAIN x[2] |-> OutElem(n, l, i, x[2][j])])

OutKids(i, v) ==
  LET t == TypeOf(i)
  IN CASE IsText(i) -> TextTok(TextPrint(i, v))
       [] t.k = "struct" ->
            FieldsOf(t, "text", LAMBDA j : TextTok(TextPrint(t.fields[j].ty, v[2][j])))
            \o FieldsOf(t, "elem", LAMBDA j : OutField(t.fields[j].n, t.fields[j].l, t.fields[j].c, t.fields[j].ty, v[2][j]))
            \o FieldsOf(t, "flat", LAMBDA j : OutKids(t.fields[j].ty, v[2][j]))
       [] t.k = "enum" ->
            LET d == t.vars[v[2]]
            IN IF d.skip THEN <<<<"bad">>>> ELSE OutField(d.n, d.l, d.c, d.ty, v[3])

OutElem(n, l, i, v) ==
  LET a == OutAttrs(i, v)
      dup == \E x, y \in DOMAIN a : x < y /\ a[x][1] = a[y][1] /\ a[x][2] = a[y][2]
      inv == \E x \in DOMAIN a : \E y \in DOMAIN a[x][3] : ~XmlChar(a[x][3][y])
  IN <<<<"S", n, l, a>>>> \o (IF dup \/ inv THEN <<<<"bad">>>> ELSE <<>>) \o OutKids(i, v) \o <<<<"E">>>>

Out(n, l, i, v) == Merge(OutElem(n, l, i, v))
Writable(o) == \A j \in DOMAIN o : o[j][1] # "bad"

\* The written form as a document to read.  (Prefixes are beside the point: every name gets its own.)
AsTokens(o) ==
  [j \in DOMAIN o |->
     CASE o[j][1] = "S" ->
            LET a == o[j][4]
                pre(x) == IF a[x][1] = "" THEN "" ELSE "q" \o ToString(x)
                qs == SelectSeq([x \in DOMAIN a |-> x], LAMBDA x : a[x][1] # "")
            IN  [k |-> "S", p |-> "", l |-> o[j][3], r |-> 0, c |-> 0,
                 d |-> <<<<"", o[j][2]>>>> \o [x \in DOMAIN qs |-> <<pre(qs[x]), a[qs[x]][1]>>],
                 a |-> [x \in DOMAIN a |-> <<pre(x), a[x][2], a[x][3]>>]]
       [] o[j][1] = "T" -> [k |-> "T", s |-> o[j][2]]
       [] OTHER -> [k |-> "E"]] \o <<[k |-> "Z"]>>

---------------------------------------------------------------------------
(* Which types and values can be read back.                                *)
\* All places of a type, flattened ones included: <<path, kind, n, l>>.
RECURSIVE Places(_)
Places(i) ==
  LET t == TypeOf(i)
  IN CASE t.k = "struct" ->
            UNION {IF t.fields[j].m = "flat" THEN {<< <<j>> \o x[1], x[2], x[3], x[4]>> : x \in Places(t.fields[j].ty)}
                   ELSE {<< <<j>>, t.fields[j].m, t.fields[j].n, t.fields[j].l>>} : j \in DOMAIN t.fields}
       [] t.k = "enum" -> {<< <<j>>, "elem", t.vars[j].n, t.vars[j].l>> : j \in {x \in DOMAIN t.vars : ~t.vars[x].skip}}
       [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET i == CHOOSE x \in todo : TRUE
           t == TypeOf(i)
           next == CASE t.k = "struct" -> {t.fields[j].ty : j \in DOMAIN t.fields}
                     [] t.k = "enum" -> {t.vars[j].ty : j \in {x \in DOMAIN t.vars : t.vars[x].c # "unit"}}
                     [] OTHER -> {}
       IN  Reach((todo \cup next) \ (seen \cup {i}), seen \cup {i})
PlaceOk(i, x) == IF x[2] = "text" THEN TextPath(i) = x[1] ELSE PathOf(i, x[2], x[3], x[4]) = x[1]
Unambiguous(i) == \A j \in Reach({i}, {}) : \A x \in Places(j) : PlaceOk(j, x)

RECURSIVE Readable(_, _), Items(_, _, _)
Items(c, i, x) ==
  CASE c = "unit" -> TRUE
    [] c = "one" -> Readable(i, x)
    [] c = "nil" -> x[2] = <<>> \/ (Readable(i, x[2][1]) /\ TextPrint(i, x[2][1]) # <<>>)
    [] OTHER -> Len(x[2]) <= (CASE c \in {"last", "first"} -> 1 [] c = "two" -> 2 [] OTHER -> Len(x[2])) /\ \A j \in DOMAIN x[2] : Readable(i, x[2][j])
Readable(i, v) ==
  LET t == TypeOf(i)
  IN CASE t.k = "struct" -> \A j \in DOMAIN t.fields : Items(t.fields[j].c, t.fields[j].ty, v[2][j])
       [] t.k = "enum" -> LET d == t.vars[v[2]]
                          IN ~d.skip /\ (d.c \in {"opt"} \cup Several => v[3][2] # <<>>) /\ Items(d.c, d.ty, v[3])
       [] OTHER -> Stable(i, v)
=============================================================================
