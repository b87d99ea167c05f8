------------------------------ MODULE OpsTrace ------------------------------
(***************************************************************************)
(* Validation of recorded operation histories. Jobs[j] has the start, the  *)
(* operations performed on the implementation and the result it gave for   *)
(* each. Apply(state, operation, result) of the specification says whether *)
(* the result is allowed, what was expected and the next state.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Jobs, Start(_), Apply(_, _, _), Inv(_)
VARIABLES j, i, s

Verdict(what, exp) == PrintT(<<"V", j, what, i, exp>>)
Init == j = 1 /\ i = 0 /\ s = Start(Jobs[1].start)
NextJob == /\ j' = j + 1 /\ i' = 0
           /\ IF j < Len(Jobs) THEN s' = Start(Jobs[j + 1].start) ELSE UNCHANGED s
Next == /\ j <= Len(Jobs)
        /\ LET J == Jobs[j] IN
           IF i = Len(J.ops) THEN Verdict("ok", 0) /\ NextJob
           ELSE IF i >= Len(J.res) THEN Verdict("bad", "a result") /\ NextJob
           ELSE LET a == Apply(s, J.ops[i + 1], J.res[i + 1])
                IN IF a.ok THEN j' = j /\ i' = i + 1 /\ s' = a.s
                   ELSE Verdict("bad", a.exp) /\ NextJob
OpsSpec == Init /\ [][Next]_<<j, i, s>>
OpsInv == j > Len(Jobs) \/ Inv(s)
=============================================================================
