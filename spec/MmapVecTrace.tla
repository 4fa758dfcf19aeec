---------------------------- MODULE MmapVecTrace ----------------------------
(* Are recorded histories of arrays on disk behaviours of MmapVec?                   *)
EXTENDS MmapVec, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)  \* [n, nf, ops: <<[op, r, see]>>]

VARIABLES i, n, S
vars == <<i, n, S>>

Init == /\ i \in DOMAIN Traces /\ n = 0
        /\ S = [f |-> [f \in 1..Traces[i].nf |-> None], h |-> [h \in 1..Traces[i].n |-> Closed]]

Next == /\ n < Len(Traces[i].ops)
        /\ LET s == Traces[i].ops[n + 1]
           IN /\ Assert(Can(S, s.op), <<"the harness must not do this", s.op>>)
              /\ s.r = Answer(S, s.op)
              /\ S' = Do(S, s.op)
              /\ s.see = See(S')
        /\ n' = n + 1 /\ i' = i
        /\ (n' = Len(Traces[i].ops)) => PrintT(<<"ACC", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
