------------------------------ MODULE MCDeclare ------------------------------
(* All small declarations: a user writes one item after the other from a      *)
(* pool and the machine of Declare reads it.  Every complete declaration is   *)
(* printed, to be compiled with the real macros.                              *)
(*                                                                          *)
(* POOL: [tr, shs: shapes, topts: options of types, tmax, fs: member shapes,  *)
(*        mopts: options of members, omax, mmax, same: names that may be      *)
(*        repeated, min: number of members at least]                          *)
EXTENDS Declare, Json, IOUtils, TLC, SequencesExt

Pool == ndJsonDeserialize(IOEnv.POOL)[1]

VARIABLES s,       \* the machine
          d,       \* what has been written
          done,
          script
vars == <<s, d, done, script>>

Init == \E i \in DOMAIN Pool.shs :
          /\ s = Start(Pool.tr, Pool.shs[i])
          /\ d = [tr |-> Pool.tr, sh |-> Pool.shs[i], opts |-> <<>>, mem |-> <<>>]
          /\ script = <<Pool.shs[i]>> /\ done = FALSE

Fits(q, o) == o.n \in Items(Pool.same) \/ Named(q, o.n) = {}

TypeOption ==
  /\ ~done /\ s.open = "type" /\ Len(d.opts) < Pool.tmax
  /\ \E i \in DOMAIN Pool.topts :
       LET o == Pool.topts[i] IN
       /\ Fits(d.opts, o)
       /\ s' = ReadTypeOption(s, o) /\ d' = [d EXCEPT !.opts = Append(@, o)]
       /\ script' = script \o <<"t", i>>
  /\ UNCHANGED done
Member ==
  /\ ~done /\ Len(d.mem) < Pool.mmax
  /\ \E f \in Items(Pool.fs) :
       /\ s' = ReadMember(s, f) /\ d' = [d EXCEPT !.mem = Append(@, [f |-> f, opts |-> <<>>])]
       /\ script' = script \o <<"m", f>>
  /\ UNCHANGED done
MemberOption ==
  /\ ~done /\ d.mem # <<>> /\ Len(Last(d.mem).opts) < Pool.omax
  /\ \E i \in DOMAIN Pool.mopts :
       LET o == Pool.mopts[i] IN
       /\ Fits(Last(d.mem).opts, o)
       /\ s' = ReadMemberOption(s, o) /\ d' = [d EXCEPT !.mem[Len(d.mem)].opts = Append(@, o)]
       /\ script' = script \o <<"o", i>>
  /\ UNCHANGED done
End ==
  /\ ~done /\ Len(d.mem) >= Pool.min /\ done' = TRUE
  /\ PrintT(<<"DECL", script, Faults(s)>>)
  /\ UNCHANGED <<s, d, script>>
Next == TypeOption \/ Member \/ MemberOption \/ End
Spec == Init /\ [][Next]_vars

\* Reading item by item finds exactly the declarations that have a meaning.
Agree == done => (Faults(s) = {} <=> Means(d))

\* Read a whole declaration.
ReadAll(x) ==
  LET RM(a, m) == FoldLeft(ReadMemberOption, ReadMember(a, m.f), m.opts)
  IN Faults(FoldLeft(RM, FoldLeft(ReadTypeOption, Start(x.tr, x.sh), x.opts), x.mem))
Again == done => ReadAll(d) = Faults(s)

\* The order in which options and members are written does not matter.
Turned(x) == [x EXCEPT !.opts = Reverse(@), !.mem = [i \in DOMAIN x.mem |-> [x.mem[Len(x.mem) + 1 - i] EXCEPT !.opts = Reverse(@)]]]
Swapped(x) == [x EXCEPT !.mem = [i \in DOMAIN x.mem |-> [x.mem[i] EXCEPT !.opts = IF Len(@) > 1 THEN Tail(@) \o <<@[1]>> ELSE @]]]
OrderFree == done => /\ (ReadAll(Turned(d)) = {}) <=> (Faults(s) = {})
                     /\ (ReadAll(Swapped(d)) = {}) <=> (Faults(s) = {})

\* A fault stays: nothing written later gives a meaning to a declaration that has none.
FaultsStay == [][s.faults \subseteq s'.faults]_vars
=============================================================================
