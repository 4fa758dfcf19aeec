---------------------------- MODULE IdTableTrace ----------------------------
(* Are recorded histories of tables behaviours of IdTable?                   *)
EXTENDS IdTable, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)  \* [n, ops: <<[op, r, see]>>]

VARIABLES i, n, T
vars == <<i, n, T>>

Init == /\ i \in DOMAIN Traces /\ n = 0
        /\ T = [h \in 1..Traces[i].n |-> Table("dyn", <<>>)]

Next == /\ n < Len(Traces[i].ops)
        /\ LET s == Traces[i].ops[n + 1]
           IN /\ Assert(Can(T, s.op), <<"the harness must not do this", s.op>>)
              /\ s.r = Answer(T, s.op)
              /\ T' = Do(T, s.op)
              /\ s.see = See(T')
        /\ n' = n + 1 /\ i' = i
        /\ (n' = Len(Traces[i].ops)) => PrintT(<<"ACC", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
