---------------------------- MODULE CCacheTrace ----------------------------
(* Are recorded histories of threads that use the cache behaviours of CCache *)
(* (for some choice of the moments of looking up and publishing)?            *)
EXTENDS CCache, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)  \* [lim, ev: <<<<name, thread, ...>>>>]

VARIABLES i, n
vars == <<ccvars, i, n>>

Init == /\ i \in DOMAIN Traces /\ n = 0
        /\ LET l == Traces[i].lim IN CCInit(Lim(l[1], l[2], l[3]))

Ev == Traces[i].ev[n + 1]

End(e) == /\ \A t \in Threads : th[t].pc = "idle"
          /\ SubSeq(e, 2, 5) = View(cache)
          /\ \A k \in 1..(Len(e) - 5) : e[k + 5] = (IF Cached(cache, k) THEN 1 ELSE 0)
          /\ UNCHANGED ccvars

Visible ==
  /\ n < Len(Traces[i].ev)
  /\ LET e == Ev IN
     CASE e[1] = "inv" -> Invoke(e[2], e[3], e[4])
       [] e[1] = "start" -> Start(e[2])
       [] e[1] = "done" -> Done(e[2], e[3], e[4])
       [] e[1] = "fail" -> Fail(e[2])
       [] e[1] = "ret" -> Return(e[2], e[3], e[4])
       [] e[1] = "exc" -> Raise(e[2])
       [] e[1] = "end" -> End(e)
  /\ n' = n + 1 /\ i' = i
  /\ (n' = Len(Traces[i].ev)) => PrintT(<<"ACC", i>>)

Next == Visible \/ (\E t \in Threads : Hidden(t) /\ UNCHANGED <<i, n>>)
Spec == Init /\ [][Next]_vars
=============================================================================
