------------------------------ MODULE Pipeline ------------------------------
(* A pipeline: a producer, stages, a consumer.  Every stage is applied once  *)
(* to every element, in the order of the stages; the consumer gets the       *)
(* elements in the order in which they were produced, then the end.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)  \* [n, stages, take, ev]

VARIABLES i, p,    \* the history, the position in it
          made,    \* elements produced so far
          at,      \* element -> stages applied to it
          worker,  \* element -> its branch in stages with one function per branch (0: not yet known)
          got,     \* elements handed out
          ended
vars == <<i, p, made, at, worker, got, ended>>
T == Traces[i]

Init == /\ i \in DOMAIN Traces /\ p = 0
        /\ made = 0 /\ got = 0 /\ ended = FALSE
        /\ at = [e \in 1..Traces[i].n |-> 0]
        /\ worker = [e \in 1..Traces[i].n |-> 0]

Produce(e) == /\ e = made + 1 /\ e <= T.n
              /\ made' = e /\ UNCHANGED <<at, worker, got, ended>>

(* stage s on element e, which arrives with its first `before` stages done   *)
Apply(s, w, e, before) ==
  /\ e \in 1..made /\ s \in 1..T.stages
  /\ at[e] = s - 1 /\ before = s - 1
  /\ at' = [at EXCEPT ![e] = s]
  /\ w # 0 => worker[e] \in {0, w}
  /\ worker' = IF w # 0 THEN [worker EXCEPT ![e] = w] ELSE worker
  /\ UNCHANGED <<made, got, ended>>

Deliver(e, stages) ==
  /\ ~ended /\ e = got + 1 /\ e <= made
  /\ at[e] = T.stages /\ stages = T.stages
  /\ got' = e /\ UNCHANGED <<made, at, worker, ended>>

End == /\ ~ended /\ got = T.n /\ made = T.n
       /\ ended' = TRUE /\ UNCHANGED <<made, at, worker, got>>

Step(e) ==
  CASE e[1] = "new" -> Produce(e[2])
    [] e[1] = "app" -> Apply(e[2], e[3], e[4], e[5])
    [] e[1] = "get" -> Deliver(e[2], e[3])
    [] e[1] = "end" -> End
    [] OTHER -> FALSE

Next == /\ p < Len(T.ev)
        /\ Step(T.ev[p + 1])
        /\ p' = p + 1 /\ i' = i
        /\ (p' = Len(T.ev) /\ (ended' \/ (T.take >= 0 /\ got' = T.take))) => PrintT(<<"ACC", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
