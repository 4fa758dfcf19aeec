---------------------------- MODULE IdTableGraph ----------------------------
(* All behaviours of two small tables; every transition is printed.          *)
EXTENDS IdTable, TLC, Json

CONSTANTS MaxRows, Values

VARIABLES T, op, ans
vars == <<T, op, ans>>

H == 1..2
N == 0..MaxRows
Ops == {<<"new", h, k>> : h \in H, k \in {"dyn", "fix"}}
       \cup {<<o, h, g>> : o \in {"copy", "move", "eq"}, h \in H, g \in H}
       \cup {<<"push", h, v, x>> : h \in H, v \in Values, x \in 0..2}
       \cup {<<o, h, i>> : o \in {"own", "era1"}, h \in H, i \in N}
       \cup {<<o, h>> : o \in {"pop", "clear", "sort", "fix", "dyn", "clone"}, h \in H}
       \cup {<<"ins", h, p, g, i, j>> : h \in H, p \in N, g \in H, i \in N, j \in N}
       \cup {<<o, h, i, j>> : o \in {"era", "swap"}, h \in H, i \in N, j \in 0..(MaxRows + 1)}
       \cup {<<"reserve", h, n>> : h \in H, n \in N}
       \cup {<<"resize", h, n, v>> : h \in H, n \in N, v \in Values}
       \cup {<<"set", h, i, v>> : h \in H, i \in N, v \in Values}

Init == T = <<Table("dyn", <<>>), Table("fix", <<>>)>> /\ op = <<"init">> /\ ans = "done"
Next == \E o \in Ops : /\ Can(T, o)
                       /\ T' = Do(T, o) /\ op' = o /\ ans' = Answer(T, o)
                       /\ \A h \in H : Len(T'[h].rows) <= MaxRows
Spec == Init /\ [][Next]_vars

StateOf == T
Canon(x) == ToString([h \in H |-> <<x[h].k, x[h].rows>>])
Emit == PrintT("EDGE " \o ToJson([f |-> Canon(T), t |-> Canon(T'), op |-> op', r |-> ans', see |-> See(T')]))

----------------------------------------------------------------------------
(* Only the table that is edited changes (and the one that is moved from).   *)
OthersStay == [][\A h \in H : h # op'[2] /\ ~(op'[1] = "move" /\ h = op'[3]) => T'[h] = T[h]]_vars
(* Nothing but appending, inserting, growing and assigning makes rows.       *)
NoNewRows == [][op'[1] \in {"pop", "era", "era1", "clear", "sort", "swap", "fix", "dyn", "clone", "reserve"} =>
                  LET h == op'[2]
                      Count(s, v) == Cardinality({j \in DOMAIN s : s[j] = v})
                  IN \A v \in Values : Count(T'[h].rows, v) <= Count(T[h].rows, v)]_vars
=============================================================================
