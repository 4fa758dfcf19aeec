------------------------------ MODULE CCacheMC ------------------------------
(* The design of the concurrent cache, all interleavings of a few requests.  *)
EXTENDS CCache

CONSTANTS NKeys, MaxOps, Entries
VARIABLES left, last
vars == <<ccvars, left, last>>

Init == CCInit(Lim(Entries, 100, 100)) /\ left = [t \in Threads |-> MaxOps] /\ last = <<>>

Ask(t) == /\ left[t] > 0
          /\ \E k \in 1..NKeys : \E op \in {"once", "pin"} : Invoke(t, op, k)
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ last' = <<>>
Clear(t) == /\ left[t] > 0
            /\ \E op \in {"clear", "clearall"} : Invoke(t, op, 0)
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ last' = <<>>
Finish(t) == /\ left' = left
             /\ \/ \E v \in {0} \cup 1..Len(comps), ca \in {0, 1} :
                     Return(t, v, ca) /\ last' = <<"ret", th[t].op, th[t].k, v, ca>>
                \/ Raise(t) /\ last' = <<"exc", th[t].op, th[t].k>>
Step(t) == \/ Ask(t) \/ Clear(t) \/ Finish(t)
           \/ /\ left' = left /\ last' = <<>>
              /\ Hidden(t) \/ Start(t) \/ Fail(t) \/ Done(t, th[t].comp, 1)

AllDone == \A t \in Threads : th[t].pc = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

OnceAtATime == \A p, q \in prog : p.k = q.k => p = q
NotWhileCached == \A p \in prog : ~Cached(cache, p.k)
OwnValue == last # <<>> /\ last[1] = "ret" /\ last[2] \in {"once", "pin"} => comps[last[4]].k = last[3]
EveryRequestEnds == <>AllDone
=============================================================================
