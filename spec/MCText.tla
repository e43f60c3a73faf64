------------------------------- MODULE MCText -------------------------------
(* All texts over a small alphabet of pieces, fed to the specification piece *)
(* by piece; checks its white space and integer automata against            *)
(* declarative definitions and prints what each text must give, for the     *)
(* real code to be compared with.                                           *)
EXTENDS Text, Integers, Json, IOUtils

CONSTANTS MaxLen, Mode
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)[1].pieces

\* Types 1..: bool and the integers, in this order.
Prims == << [k |-> "bool"],
            [k |-> "int", sg |-> TRUE, w |-> 8], [k |-> "int", sg |-> FALSE, w |-> 8],
            [k |-> "int", sg |-> TRUE, w |-> 16], [k |-> "int", sg |-> FALSE, w |-> 16] >>
PrimAt(i) == Prims[i]

VARIABLES s, c, a, n
vars == <<s, c, a, n>>
Init == s = <<>> /\ c = C0 /\ a = I0 /\ n = 0
Feed == \E i \in DOMAIN Alphabet :
          /\ n < MaxLen /\ n' = n + 1
          /\ s' = s \o Alphabet[i]
          /\ c' = FoldLeft(CStep, c, Alphabet[i])
          /\ a' = FoldLeft(IStep, a, Alphabet[i])
Next == Feed
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Declarative white space: the positions that remain, and where a space     *)
(* goes between them.                                                       *)
Kept == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] \notin WS)
Decl == IF Kept = <<>> THEN <<>>
        ELSE FoldLeft(LAMBDA o, j : o \o (IF Kept[j] > Kept[j - 1] + 1 THEN <<32, s[Kept[j]]>> ELSE <<s[Kept[j]]>>),
                      <<s[Kept[1]]>>, [j \in 1 .. Len(Kept) - 1 |-> j + 1])
CollapseInv ==
  /\ c.out = Decl
  /\ c.out = Collapse(s)
  /\ Collapse(c.out) = c.out /\ Replace(c.out) = c.out
  /\ Collapse(Replace(s)) = c.out
ReplaceInv == /\ Len(Replace(s)) = Len(s)
              /\ \A i \in DOMAIN s : IF s[i] \in WS THEN Replace(s)[i] = 32 ELSE Replace(s)[i] = s[i]
TrimInv == \E i, j \in 0 .. Len(s) : /\ Trim(s) = SubSeq(s, i + 1, j)
                                     /\ \A k \in 1 .. i : s[k] \in WS
                                     /\ \A k \in j + 1 .. Len(s) : s[k] \in WS

(* Declarative integers: trimmed, an optional sign, one or more digits.     *)
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE 10 * Num(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
Body == LET t == Trim(s) IN IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
IsInt == Body # <<>> /\ \A i \in DOMAIN Body : Digit(Body[i])
Val == LET t == Trim(s) IN IF t[1] = 45 THEN -Num(Body) ELSE Num(Body)
RECURSIVE Show(_)
Show(x) == IF x < 0 THEN <<45>> \o Show(-x) ELSE IF x < 10 THEN <<48 + x>> ELSE Append(Show(x \div 10), 48 + (x % 10))
IntRange(i) == CASE i = 2 -> -128 .. 127 [] i = 3 -> 0 .. 255 [] i = 4 -> -32768 .. 32767 [] i = 5 -> 0 .. 65535
IntInv ==
  /\ a = Lex(s)
  /\ LexOk(a) <=> IsInt
  /\ \A i \in 2 .. 5 : LET p == TextParse(i, s)
                       IN  IF IsInt /\ Len(Body) <= 8 THEN (IF Val \in IntRange(i) THEN p = Good(<<"i", Show(Val)>>) ELSE p = Bad)
                           ELSE ~IsInt => p = Bad
BoolInv == LET p == TextParse(1, s) IN p.ok <=> Trim(s) \in {T_true, T_false, <<49>>, <<48>>}
PowInv == n = 0 => SMax[8] = <<49, 50, 55>> /\ UMax[16] = <<54, 53, 53, 51, 53>>
                /\ SMin[32] = <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>

R(i) == LET p == TextParse(i, s) IN IF p.ok THEN p.v[2] ELSE <<>>
Emit == IF Mode = "ws" THEN PrintT(<<"B", s, Replace(s), Collapse(s)>>)
        ELSE PrintT(<<"B", s, IF TextParse(1, s).ok THEN TextParse(1, s).v[2] ELSE 2, R(2), R(3), R(4), R(5)>>)
=============================================================================
