---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of nullc (Jobs[j] = program  *)
(* number and list of observed events) must be a behaviour of the abstract *)
(* machine. One state per observed event; a verdict line per job.          *)
(***************************************************************************)
EXTENDS NullcMachine, Json, IOUtils

Data == JsonDeserialize(IOEnv.MACHINE_FILE)
Progs == Data.progs
Jobs == Data.jobs
Chunk == 400      \* machine steps in one silent transition
MaxDep == 150

VARIABLES j, m, n   \* job, machine, silent transitions so far
vars == <<j, m, n>>

Prog == Progs[Jobs[j][1]]
Trace == Jobs[j][2]
Elide == Jobs[j][3] = 1     \* recorded from optimized code only: a failing operation without uses may be absent
Elidable == {"div0", "ovf", "oob", "null"}
Tok == Trace[m.tp + 1]
AtEnd == m.tp >= Len(Trace)
\* the recording was cut here: the rest is not judged
IsCut == ~AtEnd /\ Tok[1] = "cut"

Verdict(what, exp) == PrintT(<<"V", j, what, m.tp, exp>>)

Init == j = 1 /\ m = Init0(Progs[Jobs[1][1]]) /\ n = 0
NextJob == /\ j' = j + 1
           /\ n' = 0
           /\ IF j < Len(Jobs) THEN m' = Init0(Progs[Jobs[j + 1][1]]) ELSE UNCHANGED m

\* does token tok show event kind with value v
Same(tok, kind, v) == v # Poison /\ tok[1] = kind /\ (~Known(v) \/ tok[2] = v[2])

\* Every action first runs the machine silently up to the next observable point
Silent(m1) == /\ ~Waits(m1)
              /\ IF IsCut THEN Verdict("ok", 0) /\ NextJob
                 ELSE IF m1.dep > MaxDep /\ ~AtEnd /\ Tok \in {<<"fail", "overflow">>, <<"m", "overflow">>}
                 THEN m' = [m1 EXCEPT !.c = <<"T", "overflow">>] /\ n' = n + 1 /\ j' = j     \* the call stack ran out
                 ELSE IF n >= 20 \/ m1.dep > MaxDep THEN Verdict("long", 0) /\ NextJob
                 ELSE m' = m1 /\ n' = n + 1 /\ j' = j
Emit(m1) == /\ m1.c[1] = "EV"
            /\ IF IsCut THEN Verdict("ok", 0) /\ NextJob
               ELSE IF AtEnd \/ ~Same(Tok, m1.c[2], m1.c[3]) THEN Verdict("bad", <<m1.c[2], m1.c[3]>>) /\ NextJob
               ELSE /\ m' = [m1 EXCEPT !.c = <<"V", m1.c[4]>>, !.tp = m1.tp + 1]
                    /\ n' = n /\ j' = j
Finish(m1) == /\ m1.c[1] = "X"
              /\ IF IsCut THEN Verdict("bad", <<"r", m1.c[2]>>) ELSE
                 IF AtEnd \/ m1.tp + 1 # Len(Trace) \/ Tok[1] # "r" \/ m1.c[2] = Poison
                    \/ (Known(m1.c[2]) /\ (Tok[2] # m1.c[2][1] \/ (m1.c[2][1] <= 7 /\ Tok[3] # m1.c[2][2])))
                 THEN Verdict("bad", <<"r", m1.c[2]>>) ELSE Verdict("ok", 0)
              /\ NextJob
Fault(m1) == /\ m1.c[1] = "T"
             /\ LET here == ~AtEnd /\ m1.tp + 1 = Len(Trace) /\ Tok[1] = "fail" /\ Tok[2] = m1.c[2]
                IN IF here THEN Verdict("ok", 0) /\ NextJob
                   ELSE IF Elide /\ m1.c[2] \in Elidable
                   THEN /\ m' = [m1 EXCEPT !.c = <<"V", Poison>>, !.st = IF Len(m1.c) = 3 THEN Write(m1.st, m1.c[3], Poison) ELSE m1.st]
                        /\ n' = n /\ j' = j
                   ELSE Verdict("bad", <<"fail", m1.c[2]>>) /\ NextJob
Open(m1) == m1.c[1] = "U" /\ Verdict("open", 0) /\ NextJob

Next == /\ j <= Len(Jobs)
        /\ LET m1 == Run(Prog, m, Chunk) IN Silent(m1) \/ Emit(m1) \/ Finish(m1) \/ Fault(m1) \/ Open(m1)
Spec == Init /\ [][Next]_vars

\* invariants of the machine itself, evaluated in every state reached
StoreOK == \A i \in 1..Len(m.co) : \A v \in 1..Len(m.co[i].env) : m.co[i].env[v] <= Len(m.st)
EnvOK == \A v \in 1..Len(m.env) : m.env[v] <= Len(m.st)
=============================================================================
