---------------------------- MODULE MmapVecGraph ----------------------------
(* All behaviours of a few handles and files; every transition is printed.   *)
EXTENDS MmapVec, TLC, Json

CONSTANTS NH, NF, MaxLen, Values

VARIABLES S, op, ans
vars == <<S, op, ans>>

H == 1..NH
F == 1..NF
N == 0..MaxLen
Ops == {<<o, h, f, n, v, x>> : o \in {"create", "range"}, h \in H, f \in F, n \in N, v \in Values, x \in 0..1}
       \cup {<<o, h, f, x>> : o \in {"reuse", "view"}, h \in H, f \in F, x \in 0..1}
       \cup {<<"tmp", h, f, x>> : h \in H, f \in F, x \in 0..1}
       \cup {<<"buf", h, f, n>> : h \in H, f \in F, n \in 0..(MaxLen - 1)}
       \cup {<<"junk", f, x>> : f \in F, x \in 0..5}
       \cup {<<o, h>> : o \in {"close", "drop", "clear"}, h \in H}
       \cup {<<"move", h, g, x>> : h \in H, g \in H, x \in 0..1}
       \cup {<<"append", h, n, v>> : h \in H, n \in 1..MaxLen, v \in Values}
       \cup {<<"resize", h, n, v>> : h \in H, n \in N, v \in Values}
       \cup {<<"set", h, i, v>> : h \in H, i \in N, v \in Values}
       \cup {<<o, h, i>> : o \in {"own", "at", "reserve"}, h \in H, i \in N}

Init == /\ S = [f |-> [f \in F |-> None], h |-> [h \in H |-> Closed]]
        /\ op = <<"init">> /\ ans = "done"
Next == \E o \in Ops : /\ Can(S, o)
                       /\ S' = Do(S, o) /\ op' = o /\ ans' = Answer(S, o)
                       /\ \A h \in H : Len(S'.h[h].c) <= MaxLen
Spec == Init /\ [][Next]_vars

StateOf == S
Canon(x) == ToString(<<[f \in F |-> <<x.f[f].k, x.f[f].c>>], [h \in H |-> <<x.h[h].k, x.h[h].f, x.h[h].c, x.h[h].n>>]>>)
Emit == PrintT("EDGE " \o ToJson([f |-> Canon(S), t |-> Canon(S'), op |-> op', r |-> ans', see |-> See(S')]))

----------------------------------------------------------------------------
(* One file is written through at most one handle, and then not read. *)
Exclusive == \A h, g \in H : h # g /\ Open(S, h) /\ Open(S, g) /\ S.h[h].f = S.h[g].f => S.h[h].k = "ro" /\ S.h[g].k = "ro"
(* What is not open for writing stays as it was last written. *)
Persistent == [][\A f \in F : S.f[f].k = "arr" /\ S'.f[f].k = "arr" /\ S.f[f].c # S'.f[f].c
                    => op'[1] \in {"create", "range", "tmp", "buf"} \/ \E h \in H : S.h[h].k = "rw" /\ S.h[h].f = f]_vars
(* Reopening for writing and closing again changes nothing. *)
TmpGone == \A f \in F : (\E h \in H : S.h[h].k = "tmp" /\ S.h[h].f = f) => S.f[f].k = "arr"
=============================================================================
