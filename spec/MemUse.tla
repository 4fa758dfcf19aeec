------------------------------- MODULE MemUse -------------------------------
(* Containers that take their memory from limited pools: vectors, which show *)
(* how much they hold, and result tables, which do not.  Recorded histories  *)
(* are judged: an operation that fails changes nothing, nothing is ever held *)
(* that no container has, and a container holds at least what it contains.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
  \* [n: containers, lim: limits of the pools, ops: <<[op, r, see]>>]
  \* see: contents of each container, bytes of each vector (0: none), free bytes of each pool

VARIABLES i, n, h, cap, free, share
vars == <<i, n, h, cap, free, share>>

None == [k |-> "none", p |-> 0, c |-> <<>>]
Item(k) == IF k = "tab" THEN 24 ELSE 4
Rep(m, v) == [j \in 1..m |-> v]
Pools == DOMAIN Traces[i].lim
Of(hh, p, k) == {x \in DOMAIN hh : hh[x].p = p /\ hh[x].k = k}
Total(S, f) == FoldSet(LAMBDA x, a : a + f[x], 0, S)

(* The containers afterwards, if all goes well. *)
Do(o) ==
  LET x == o[2] IN
  CASE o[1] = "new" -> [h EXCEPT ![x] = [k |-> o[3], p |-> o[4], c |-> <<>>]]
    [] o[1] = "drop" -> [h EXCEPT ![x] = None]
    [] o[1] = "push" -> [h EXCEPT ![x].c = Append(@, o[3])]
    [] o[1] = "clear" -> [h EXCEPT ![x].c = <<>>]
    [] o[1] = "resize" -> [h EXCEPT ![x].c = IF o[3] <= Len(@) THEN SubSeq(@, 1, o[3]) ELSE @ \o Rep(o[3] - Len(@), o[4])]
    [] o[1] = "insert" -> [h EXCEPT ![x].c = @ \o h[o[3]].c]
    [] o[1] = "copy" -> [h EXCEPT ![x] = h[o[3]]]
    [] o[1] = "move" -> [h EXCEPT ![x] = h[o[3]], ![o[3]] = None]
    [] o[1] = "swap" -> [h EXCEPT ![x] = h[o[3]], ![o[3]] = h[x]]
    [] OTHER -> h       \* reserve, shrink

(* Must not fail, whatever is left. *)
NeedsNothing(o) ==
  LET x == o[2] IN
  \/ o[1] \in {"new", "drop", "clear", "move", "swap"}
  \/ o[1] = "resize" /\ o[3] <= Len(h[x].c)
  \/ o[1] = "push" /\ h[x].k = "vec" /\ (Len(h[x].c) + 1) * 4 <= cap[x]

(* The container, or the other one, is not there, or not of the right kind. *)
Missing(o) ==
  LET x == o[2] IN
  \/ o[1] \notin {"new", "copy", "move"} /\ h[x].k = "none"
  \/ o[1] \in {"insert", "swap"} /\ h[o[3]].k # h[x].k
  \/ o[1] \in {"copy", "move"} /\ h[o[3]].k = "none"
  \/ o[1] = "copy" /\ h[x].k \notin {"none", h[o[3]].k}
  \/ o[1] \in {"swap", "shrink"} /\ h[x].k # "vec"

(* A vector of the standard library that is given the contents of a vector   *)
(* of another pool lets go of its own memory first.                          *)
Emptied(o) ==
  IF o[1] = "copy" /\ h[o[2]].k = "vec" /\ h[o[2]].p # h[o[3]].p
    THEN {[h EXCEPT ![o[2]] = [k |-> "vec", p |-> h[o[3]].p, c |-> <<>>]]} ELSE {}

Touches(o, p) ==
  \E x \in {o[2]} \cup (IF o[1] \in {"copy", "move"} THEN {o[3]} ELSE {}) :
     \/ h[x].k = "tab" /\ h[x].p = p
     \/ h'[x].k = "tab" /\ h'[x].p = p

Init == /\ i \in DOMAIN Traces /\ n = 0
        /\ h = [x \in 1..Traces[i].n |-> None]
        /\ cap = [x \in 1..Traces[i].n |-> 0]
        /\ free = Traces[i].lim
        /\ share = [p \in DOMAIN Traces[i].lim |-> 0]

Next ==
  /\ n < Len(Traces[i].ops)
  /\ LET s == Traces[i].ops[n + 1]
         m == Traces[i].n
     IN /\ CASE Missing(s.op) -> s.r = "skip" /\ h' = h
             [] ~Missing(s.op) /\ s.r = "error" -> ~NeedsNothing(s.op) /\ h' \in {h} \cup Emptied(s.op)
             [] OTHER -> s.r = "done" /\ h' = Do(s.op)
        /\ cap' = s.see[m + 1] /\ free' = s.see[m + 2]
        /\ (s.r # "done" /\ h' = h) => cap' = cap /\ free' = free
        /\ \A x \in 1..m : s.see[x] = h'[x].c
        /\ \A x \in 1..m : IF h'[x].k = "vec" THEN cap'[x] >= 4 * Len(h'[x].c) ELSE cap'[x] = 0
        /\ share' = [p \in Pools |-> Traces[i].lim[p] - free'[p] - Total(Of(h', p, "vec"), cap')]
        /\ \A p \in Pools :
             /\ free'[p] >= 0
             /\ share'[p] >= FoldSet(LAMBDA x, a : a + 24 * Len(h'[x].c), 0, Of(h', p, "tab"))
             /\ Of(h', p, "tab") = {} => share'[p] = 0
             /\ ~Touches(s.op, p) => share'[p] = share[p]
  /\ n' = n + 1 /\ i' = i
  /\ (n' = Len(Traces[i].ops)) => PrintT(<<"ACC", i>>)
Spec == Init /\ [][Next]_vars
=============================================================================
