-------------------------------- MODULE Text --------------------------------
(* Text types: how a text denotes a value and how a value is written.       *)
(* Texts are sequences of code points.  Types are numbered; TypeOf(i) is a   *)
(* record with field k:                                                     *)
(*   str, bool, int [sg, w], float                                          *)
(*   restr [ws, vars: sequence of [known, s]]                               *)
(*   union [ws, vars: sequence of type numbers]                             *)
(*   std   [ws, by: "br" (rejects texts with an x; prints in brackets) or    *)
(*          "i32"]                                                          *)
(*   probe          (rejects texts with an !)                               *)
(* ws: 0 preserve, 1 replace, 2 collapse.                                   *)
(* Values are tagged: <<"s", text>>, <<"b", 0/1>>, <<"i", canonical>>,       *)
(* <<"f", canonical>>, <<"x", text>>, <<"e", index, payload>>, <<"u">>.      *)
EXTENDS Sequences, SequencesExt, Naturals, FiniteSets, TLC

CONSTANT TypeOf(_)

WS == {9, 10, 13, 32}

---------------------------------------------------------------------------
(* White space.                                                            *)
Replace(s) == [i \in DOMAIN s |-> IF s[i] \in WS THEN 32 ELSE s[i]]

\* Collapse, one character at a time.
C0 == [out |-> <<>>, gap |-> FALSE]
CStep(c, x) ==
  IF x \in WS THEN [c EXCEPT !.gap = c.out # <<>>]
  ELSE [out |-> IF c.gap THEN c.out \o <<32, x>> ELSE Append(c.out, x), gap |-> FALSE]
Collapse(s) == FoldLeft(CStep, C0, s).out

Normalize(ws, s) == CASE ws = 0 -> s [] ws = 1 -> Replace(s) [] ws = 2 -> Collapse(s)

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in WS THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in WS THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

---------------------------------------------------------------------------
(* Results of parsing.                                                     *)
Bad == [ok |-> FALSE, v |-> <<"none">>]
Good(v) == [ok |-> TRUE, v |-> v]

T_true == <<116, 114, 117, 101>>
T_false == <<102, 97, 108, 115, 101>>
BoolParse(s) ==
  LET t == Trim(s)
  IN CASE t \in {T_true, <<49>>} -> Good(<<"b", 1>>)
       [] t \in {T_false, <<48>>} -> Good(<<"b", 0>>)
       [] OTHER -> Bad

---------------------------------------------------------------------------
(* Integers: a lexer, and magnitudes as digit sequences without leading     *)
(* zeros (zero is empty).                                                  *)
Digit(c) == c \in 48 .. 57
I0 == [ph |-> "lead", neg |-> FALSE, mag |-> <<>>]
AddDigit(m, c) == IF m = <<>> /\ c = 48 THEN <<>> ELSE Append(m, c)
IStep(a, c) ==
  CASE a.ph = "lead" /\ c \in WS -> a
    [] a.ph = "lead" /\ c = 43 -> [a EXCEPT !.ph = "sign"]
    [] a.ph = "lead" /\ c = 45 -> [a EXCEPT !.ph = "sign", !.neg = TRUE]
    [] a.ph \in {"lead", "sign", "dig"} /\ Digit(c) -> [a EXCEPT !.ph = "dig", !.mag = AddDigit(@, c)]
    [] a.ph \in {"dig", "trail"} /\ c \in WS -> [a EXCEPT !.ph = "trail"]
    [] OTHER -> [a EXCEPT !.ph = "bad"]
Lex(s) == FoldLeft(IStep, I0, s)
LexOk(a) == a.ph \in {"dig", "trail"}

RECURSIVE SeqLE(_, _)
SeqLE(a, b) == a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ SeqLE(Tail(a), Tail(b)))
MagLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ SeqLE(a, b))

RECURSIVE Twice(_, _)   \* doubling, from the last digit, with a carry
Twice(m, c) ==
  IF m = <<>> THEN (IF c = 0 THEN <<>> ELSE <<49>>)
  ELSE LET d == 2 * (m[Len(m)] - 48) + c
       IN  Append(Twice(SubSeq(m, 1, Len(m) - 1), d \div 10), 48 + (d % 10))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<49>> ELSE Twice(Pow2(n - 1), 0)
\* 2^n - 1: a power of two never ends in 0.
Pred(m) == [m EXCEPT ![Len(m)] = @ - 1]
Widths == {8, 16, 32, 64, 128}
SMax == [w \in Widths |-> Pred(Pow2(w - 1))]
SMin == [w \in Widths |-> Pow2(w - 1)]
UMax == [w \in Widths |-> Pred(Pow2(w))]

InRange(a, sg, w) ==
  IF a.mag = <<>> THEN TRUE
  ELSE IF sg THEN MagLE(a.mag, IF a.neg THEN SMin[w] ELSE SMax[w])
  ELSE ~a.neg /\ MagLE(a.mag, UMax[w])
Canon(a) == IF a.mag = <<>> THEN <<48>> ELSE IF a.neg THEN <<45>> \o a.mag ELSE a.mag

IntParse(s, sg, w) ==
  LET a == Lex(s) IN IF LexOk(a) /\ InRange(a, sg, w) THEN Good(<<"i", Canon(a)>>) ELSE Bad

---------------------------------------------------------------------------
Has(s, c) == \E i \in DOMAIN s : s[i] = c

StdParse(by, s) ==
  CASE by = "br" -> IF Has(s, 120) THEN Bad ELSE Good(<<"x", s>>)
    [] by = "i32" -> \* Rust's own conversion takes no white space
         IF s # <<>> /\ (s[1] \in WS \/ s[Len(s)] \in WS) THEN Bad
         ELSE LET p == IntParse(s, TRUE, 32) IN IF p.ok THEN Good(<<"x", p.v[2]>>) ELSE Bad
StdPrint(by, s) == IF by = "br" THEN <<91>> \o s \o <<93>> ELSE s

FirstIndex(n, P(_)) ==   \* 0 if there is none
  IF \E i \in 1 .. n : P(i) THEN CHOOSE i \in 1 .. n : P(i) /\ \A j \in 1 .. i - 1 : ~P(j) ELSE 0

RECURSIVE TextParse(_, _)
TextParse(i, s) ==
  LET t == TypeOf(i)
  IN CASE t.k = "str" -> Good(<<"s", s>>)
       [] t.k = "bool" -> BoolParse(s)
       [] t.k = "int" -> IntParse(s, t.sg, t.w)
       [] t.k = "float" -> Good(<<"f", Trim(s)>>)    \* only canonical forms are ever given to it
       [] t.k = "probe" -> IF Has(s, 33) THEN Bad ELSE Good(<<"p", s>>)
       [] t.k = "std" -> StdParse(t.by, Normalize(t.ws, s))
       [] t.k = "restr" ->
            LET n == Normalize(t.ws, s)
                j == FirstIndex(Len(t.vars), LAMBDA x : t.vars[x].known /\ t.vars[x].s = n)
                u == FirstIndex(Len(t.vars), LAMBDA x : ~t.vars[x].known)
            IN  IF j # 0 THEN Good(<<"e", j, <<"u">>>>)
                ELSE IF u # 0 THEN Good(<<"e", u, <<"s", n>>>>) ELSE Bad
       [] t.k = "union" ->
            LET n == Normalize(t.ws, s)
                p == [x \in DOMAIN t.vars |-> TextParse(t.vars[x], n)]
                j == FirstIndex(Len(t.vars), LAMBDA x : p[x].ok)
            IN  IF j = 0 THEN Bad ELSE Good(<<"e", j, p[j].v>>)

RECURSIVE TextPrint(_, _)
TextPrint(i, v) ==
  LET t == TypeOf(i)
  IN CASE t.k = "bool" -> IF v[2] = 1 THEN T_true ELSE T_false
       [] t.k = "std" -> StdPrint(t.by, v[2])
       [] t.k = "restr" -> IF t.vars[v[2]].known THEN t.vars[v[2]].s ELSE v[3][2]
       [] t.k = "union" -> TextPrint(t.vars[v[2]], v[3])
       [] OTHER -> v[2]

IsText(i) == TypeOf(i).k \notin {"struct", "enum"}
\* The text forms of a value denote it.
Stable(i, v) == TextParse(i, TextPrint(i, v)) = Good(v)
=============================================================================
