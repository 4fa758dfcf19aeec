------------------------------- MODULE CCache -------------------------------
(* The concurrent cache: threads ask for the results of computations, each   *)
(* of which runs at most once at a time.  A request goes through             *)
(*   idle -> asked -(look up)-> hit | waiting | begun                        *)
(*   begun -> running -(done | fail)-> done | failed -(publish)-> finished   *)
(* Looking up and publishing are atomic and not visible from outside.        *)
EXTENDS LruCache, TLC

CONSTANTS Threads

VARIABLES cache,  \* see LruCache
          prog,   \* running computations: set of [k, comp, pin]
          comps,  \* all computations so far: sequence of [k, st, v, s]
          th      \* per thread: [pc, op, k, comp, v, cached]
ccvars == <<cache, prog, comps, th>>

Idle == [pc |-> "idle", op |-> "-", k |-> 0, comp |-> 0, v |-> 0, cached |-> 0]
CCInit(lim) == /\ cache = Empty(lim) /\ prog = {} /\ comps = <<>>
               /\ th = [t \in Threads |-> Idle]

Set(t, r) == th' = [th EXCEPT ![t] = r]
Running(k) == {p \in prog : p.k = k}

Invoke(t, op, k) ==
  /\ th[t].pc = "idle"
  /\ Set(t, [Idle EXCEPT !.pc = "asked", !.op = op, !.k = k])
  /\ UNCHANGED <<cache, prog, comps>>

(* --- not visible ---------------------------------------------------------- *)
LookUp(t) ==
  LET r == th[t]  k == r.k IN
  /\ r.pc = "asked" /\ r.op \in {"once", "pin"}
  /\ IF Cached(cache, k)
     THEN /\ cache' = (IF r.op = "pin" THEN Pin(cache, k) ELSE Lookup(cache, k)).c
          /\ Set(t, [r EXCEPT !.pc = "answered", !.v = Get(cache, k).v, !.cached = 1])
          /\ UNCHANGED <<prog, comps>>
     ELSE IF Running(k) # {}
     THEN LET p == CHOOSE x \in Running(k) : TRUE IN
          /\ prog' = (prog \ {p}) \cup {[p EXCEPT !.pin = @ \/ r.op = "pin"]}
          /\ Set(t, [r EXCEPT !.pc = "waiting", !.comp = p.comp])
          /\ UNCHANGED <<cache, comps>>
     ELSE /\ comps' = Append(comps, [k |-> k, st |-> "running", v |-> 0, s |-> 0])
          /\ prog' = prog \cup {[k |-> k, comp |-> Len(comps) + 1, pin |-> r.op = "pin"]}
          /\ Set(t, [r EXCEPT !.pc = "begun", !.comp = Len(comps) + 1])
          /\ UNCHANGED cache

(* The result goes into the cache (pinned if anybody wanted that) and to     *)
(* those who wait; a result that is to be pinned but too big is an error.    *)
Publish(t) ==
  LET r == th[t]
      p == CHOOSE x \in prog : x.comp = r.comp
      q == comps[r.comp]
      a == IF p.pin THEN InsertPinned(cache, r.k, q.v, q.s) ELSE Insert(cache, r.k, q.v, q.s)
      ok == r.pc = "done" /\ a.r # "error"
  IN /\ r.pc \in {"done", "failed"}
     /\ prog' = prog \ {p}
     /\ cache' = IF ok THEN a.c ELSE cache
     /\ comps' = [comps EXCEPT ![r.comp].st = IF ok THEN "ready" ELSE "aborted"]
     /\ Set(t, [r EXCEPT !.pc = IF ok THEN "answered" ELSE "error", !.v = IF ok THEN q.v ELSE 0])

Other(t) ==
  LET r == th[t] IN
  /\ r.pc = "asked" /\ r.op \notin {"once", "pin"}
  /\ UNCHANGED <<prog, comps>>
  /\ LET a == CASE r.op = "clear" -> ClearUnpinned(cache)
                [] r.op = "clearall" -> ClearAll(cache)
                [] r.op = "has" -> Answer(cache, "-")
                [] r.op = "at" -> Lookup(cache, r.k)
         v == CASE r.op = "has" -> IF Cached(cache, r.k) THEN 1 ELSE 0
                [] r.op = "at" -> IF Cached(cache, r.k) THEN Get(cache, r.k).v ELSE 0
                [] OTHER -> 0
     IN cache' = a.c /\ Set(t, [r EXCEPT !.pc = "answered", !.v = v])

Hidden(t) == LookUp(t) \/ Publish(t) \/ Other(t)

(* --- visible -------------------------------------------------------------- *)
Start(t) == /\ th[t].pc = "begun"
            /\ Set(t, [th[t] EXCEPT !.pc = "running"])
            /\ UNCHANGED <<cache, prog, comps>>
Done(t, v, s) == /\ th[t].pc = "running"
                 /\ Set(t, [th[t] EXCEPT !.pc = "done"])
                 /\ comps' = [comps EXCEPT ![th[t].comp].v = v, ![th[t].comp].s = s]
                 /\ UNCHANGED <<cache, prog>>
Fail(t) == /\ th[t].pc = "running"
           /\ Set(t, [th[t] EXCEPT !.pc = "failed"])
           /\ UNCHANGED <<cache, prog, comps>>
Return(t, v, cached) ==
  /\ \/ th[t].pc = "answered" /\ th[t].v = v /\ th[t].cached = cached
     \/ /\ th[t].pc = "waiting" /\ comps[th[t].comp].st = "ready"
        /\ comps[th[t].comp].v = v /\ cached = 0
  /\ Set(t, Idle) /\ UNCHANGED <<cache, prog, comps>>
Raise(t) == /\ \/ th[t].pc = "error"
               \/ th[t].pc = "waiting" /\ comps[th[t].comp].st = "aborted"
            /\ Set(t, Idle) /\ UNCHANGED <<cache, prog, comps>>
=============================================================================
