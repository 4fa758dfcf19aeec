------------------------------ MODULE MemLimit ------------------------------
(* A pool of memory that threads share.  Every request takes effect at one   *)
(* moment between its start and its end.  A request of more than there is    *)
(* (or one that the system cannot serve) fails and changes nothing.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS MaxThreads

VARIABLES free, held, th
mvars == <<free, held, th>>

Threads == 1..MaxThreads
Idle == [pc |-> "idle", op |-> "", n |-> 0, ok |-> TRUE, v |-> 0]

MInit(limit) == free = limit /\ held = 0 /\ th = [t \in Threads |-> Idle]

(* op: "alloc" n bytes, "free" n bytes, "left"; "fail": a request of n bytes  *)
(* that the system cannot serve, for which they may be reserved for a while   *)
Invoke(t, op, n) ==
  /\ th[t].pc = "idle"
  /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.pc = "called", !.op = op, !.n = n]]
  /\ UNCHANGED <<free, held>>

Happen(t) ==
  LET x == th[t]
      ok == x.op = "alloc" => x.n <= free
      d == CASE x.op = "alloc" /\ ok -> x.n
             [] x.op = "free" -> 0 - x.n
             [] OTHER -> 0
  IN /\ x.pc = "called"
     /\ free' = free - d /\ held' = held + d
     /\ th' = [th EXCEPT ![t].pc = "happened", ![t].ok = ok /\ x.op # "fail", ![t].v = free]

Reserve(t) ==
  /\ th[t].pc = "called" /\ th[t].op = "fail" /\ th[t].n <= free
  /\ free' = free - th[t].n /\ held' = held + th[t].n
  /\ th' = [th EXCEPT ![t].pc = "reserved"]
GiveUp(t) ==
  /\ th[t].pc = "reserved"
  /\ free' = free + th[t].n /\ held' = held - th[t].n
  /\ th' = [th EXCEPT ![t].pc = "happened", ![t].ok = FALSE]
Hidden(t) == Happen(t) \/ Reserve(t) \/ GiveUp(t)

Return(t, ok, v) ==
  /\ th[t].pc = "happened"
  /\ th[t].ok = ok
  /\ th[t].op = "left" => v = th[t].v
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ UNCHANGED <<free, held>>
=============================================================================
