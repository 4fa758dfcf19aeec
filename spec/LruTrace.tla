------------------------------ MODULE LruTrace ------------------------------
(* Are recorded histories of a cache behaviours of LruCache?                 *)
EXTENDS LruCache, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)  \* [lim, ops: <<[op, r, see]>>]

VARIABLES i, n, c
vars == <<i, n, c>>

Init == /\ i \in DOMAIN Traces /\ n = 0
        /\ c = Empty(Lim(Traces[i].lim[1], Traces[i].lim[2], Traces[i].lim[3]))

Next == /\ n < Len(Traces[i].ops)
        /\ LET s == Traces[i].ops[n + 1]
               a == Do(c, s.op)
           IN /\ a.r = s.r
              /\ SubSeq(s.see, 1, 4) = View(a.c)
              /\ \A k \in 1..(Len(s.see) - 4) : s.see[k + 4] = (IF Cached(a.c, k) THEN 1 ELSE 0)
              /\ c' = a.c
        /\ n' = n + 1 /\ i' = i
        /\ (n' = Len(Traces[i].ops)) => PrintT(<<"ACC", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
