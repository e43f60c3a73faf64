---------------------------- MODULE TraceDeclare ----------------------------
(* Checks what the compiler said about declarations: one line per case         *)
(* [id, d: declaration (see Declare), got: "compiles", or "error", or          *)
(* "elsewhere": an error that is not inside the declaration].                  *)
EXTENDS Declare, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ci, s, at   \* at: <<options of the type read, members begun, options of the last one read>>
vars == <<ci, s, at>>

Active == ci <= Len(Cases)
Case == Cases[ci]
D == Case.d
Fresh(i) == IF i <= Len(Cases) THEN Start(Cases[i].d.tr, Cases[i].d.sh) ELSE Start("", "")
Init == ci = 1 /\ s = Fresh(1) /\ at = <<0, 0, 0>>

TypeOption == /\ Active /\ at[1] < Len(D.opts)
              /\ s' = ReadTypeOption(s, D.opts[at[1] + 1]) /\ at' = [at EXCEPT ![1] = @ + 1] /\ UNCHANGED ci
MemberOption == /\ Active /\ at[2] > 0 /\ at[3] < Len(D.mem[at[2]].opts)
                /\ s' = ReadMemberOption(s, D.mem[at[2]].opts[at[3] + 1]) /\ at' = [at EXCEPT ![3] = @ + 1] /\ UNCHANGED ci
Member == /\ Active /\ at[1] = Len(D.opts) /\ at[2] < Len(D.mem) /\ (at[2] > 0 => at[3] = Len(D.mem[at[2]].opts))
          /\ s' = ReadMember(s, D.mem[at[2] + 1].f) /\ at' = <<at[1], at[2] + 1, 0>> /\ UNCHANGED ci

Over == Active /\ at[1] = Len(D.opts) /\ at[2] = Len(D.mem) /\ (at[2] > 0 => at[3] = Len(D.mem[at[2]].opts))
Right == Case.got = (IF Faults(s) = {} THEN "compiles" ELSE "error")
Move == ci' = ci + 1 /\ s' = Fresh(ci + 1) /\ at' = <<0, 0, 0>>
Accept == Over /\ Right /\ Move
Reject == /\ Over /\ ~Right
          /\ PrintT(<<"REJECT", Case.id, 0, IF Faults(s) = {} THEN "refused" ELSE IF Case.got = "compiles" THEN "accepted" ELSE "elsewhere">>)
          /\ Move
Next == TypeOption \/ Member \/ MemberOption \/ Accept \/ Reject
Spec == Init /\ [][Next]_vars

\* Both forms of the rules agree on every declaration that was compiled.
Agree == Over => (Faults(s) = {} <=> Means(D))
=============================================================================
