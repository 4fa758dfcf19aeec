--------------------------- MODULE MemLimitTrace ----------------------------
(* Are recorded histories of threads that allocate behaviours of MemLimit?   *)
EXTENDS MemLimit, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)  \* [lim, ev: <<<<name, thread, ...>>>>]

VARIABLES i, n
vars == <<mvars, i, n>>

Init == i \in DOMAIN Traces /\ n = 0 /\ MInit(Traces[i].lim)

End(e) == /\ \A t \in Threads : th[t].pc = "idle"
          /\ e[2] = free
          /\ UNCHANGED mvars

Visible ==
  /\ n < Len(Traces[i].ev)
  /\ LET e == Traces[i].ev[n + 1] IN
     CASE e[1] = "inv" -> Invoke(e[2], e[3], e[4])
       [] e[1] = "ret" -> Return(e[2], TRUE, e[3])
       [] e[1] = "err" -> Return(e[2], FALSE, 0)
       [] e[1] = "end" -> End(e)
       [] OTHER -> FALSE     \* more memory in use than the limit
  /\ n' = n + 1 /\ i' = i
  /\ (n' = Len(Traces[i].ev)) => PrintT(<<"ACC", i>>)

Next == Visible \/ (\E t \in Threads : Hidden(t) /\ UNCHANGED <<i, n>>)
Spec == Init /\ [][Next]_vars
=============================================================================
