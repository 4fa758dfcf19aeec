----------------------------- MODULE MemLimitMC -----------------------------
(* The design: an allocation reserves, then takes the memory, and gives the  *)
(* reservation back when that fails; a release first gives the memory back.  *)
(* Whatever the interleaving, this is MemLimit and the memory that is really *)
(* in use stays within the limit.                                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Limit, MaxN, NThreads, MaxBlocks

VARIABLES left, used, blocks, pc
vars == <<left, used, blocks, pc>>
T == 1..NThreads

Init == left = Limit /\ used = 0 /\ blocks = [t \in T |-> <<>>] /\ pc = [t \in T |-> <<"idle", 0>>]

Reserve(t, n) == /\ pc[t][1] = "idle" /\ Len(blocks[t]) < MaxBlocks
                 /\ n <= left
                 /\ left' = left - n
                 /\ pc' = [pc EXCEPT ![t] = <<"reserved", n>>]
                 /\ UNCHANGED <<used, blocks>>
Refuse(t, n) == pc[t][1] = "idle" /\ n > left /\ UNCHANGED vars
Take(t) == /\ pc[t][1] = "reserved"
           /\ used' = used + pc[t][2]
           /\ blocks' = [blocks EXCEPT ![t] = Append(@, pc[t][2])]
           /\ pc' = [pc EXCEPT ![t] = <<"idle", 0>>]
           /\ UNCHANGED left
TakeFails(t) == /\ pc[t][1] = "reserved"
                /\ left' = left + pc[t][2]
                /\ pc' = [pc EXCEPT ![t] = <<"idle", 0>>]
                /\ UNCHANGED <<used, blocks>>
GiveBack(t) == /\ pc[t][1] = "idle" /\ blocks[t] # <<>>
               /\ used' = used - Head(blocks[t])
               /\ pc' = [pc EXCEPT ![t] = <<"given", Head(blocks[t])>>]
               /\ blocks' = [blocks EXCEPT ![t] = Tail(@)]
               /\ UNCHANGED left
Release(t) == /\ pc[t][1] = "given"
              /\ left' = left + pc[t][2]
              /\ pc' = [pc EXCEPT ![t] = <<"idle", 0>>]
              /\ UNCHANGED <<used, blocks>>
Next == \E t \in T : \/ \E n \in 0..MaxN : Reserve(t, n) \/ Refuse(t, n)
                     \/ Take(t) \/ TakeFails(t) \/ GiveBack(t) \/ Release(t)
Spec == Init /\ [][Next]_vars

InFlight == FoldSet(LAMBDA t, a : a + pc[t][2], 0, T)
WithinLimit == used >= 0 /\ used <= Limit /\ left >= 0
AllAccounted == left + used + InFlight = Limit
=============================================================================
