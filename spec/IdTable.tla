------------------------------ MODULE IdTable ------------------------------
(* Result tables: sequences of rows.  A row is written as one number (the    *)
(* harness gives every column of a row a value that follows from it, so that *)
(* a torn row is no row).  A table is [k |-> kind, rows |-> sequence] where  *)
(* the kind is "dyn" (width known at run time), "fix" (at compile time) or   *)
(* "gone" (moved from: good for nothing but being assigned to).              *)
(* Positions count from 0 as in the code.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

Table(k, rows) == [k |-> k, rows |-> rows]
Gone == Table("gone", <<>>)

Rep(n, v) == [j \in 1..n |-> v]
Upto(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b

(* o[1] is what is done, o[2] the table it is done to; T all tables.         *)
Can(T, o) ==
  LET t == T[o[2]] IN
  CASE o[1] = "new" -> TRUE
    [] o[1] \in {"copy", "move"} -> T[o[3]].k # "gone" /\ (o[1] = "move" => o[2] # o[3])
    [] o[1] = "eq" -> t.k # "gone" /\ T[o[3]].k = t.k
    [] o[1] = "ins" -> /\ t.k # "gone" /\ o[2] # o[4] /\ T[o[4]].k = t.k
                       /\ o[3] <= Len(t.rows) /\ o[5] <= o[6] /\ o[6] <= Len(T[o[4]].rows)
    [] o[1] = "fix" -> t.k = "dyn"
    [] o[1] = "dyn" -> t.k = "fix"
    [] o[1] \in {"own", "set", "era1"} -> t.k # "gone" /\ o[3] < Len(t.rows)
    [] o[1] = "swap" -> t.k # "gone" /\ o[3] < Len(t.rows) /\ o[4] < Len(t.rows)
    [] o[1] = "era" -> t.k # "gone" /\ o[3] <= o[4] /\ o[3] <= Len(t.rows)
    [] OTHER -> t.k # "gone"

Rows(r, o, T) ==
  CASE o[1] = "push" -> Append(r, o[3])
    [] o[1] = "own" -> Append(r, r[o[3] + 1])
    [] o[1] = "pop" -> IF r = <<>> THEN r ELSE Front(r)
    [] o[1] = "ins" -> Upto(r, o[3]) \o SubSeq(T[o[4]].rows, o[5] + 1, o[6]) \o From(r, o[3])
    [] o[1] = "era1" -> Upto(r, o[3]) \o From(r, o[3] + 1)
    [] o[1] = "era" -> Upto(r, o[3]) \o From(r, Min2(o[4], Len(r)))
    [] o[1] = "clear" -> <<>>
    [] o[1] = "resize" -> IF o[3] <= Len(r) THEN Upto(r, o[3]) ELSE r \o Rep(o[3] - Len(r), o[4])
    [] o[1] = "set" -> [r EXCEPT ![o[3] + 1] = o[4]]
    [] o[1] = "swap" -> [r EXCEPT ![o[3] + 1] = r[o[4] + 1], ![o[4] + 1] = r[o[3] + 1]]
    [] o[1] = "sort" -> SortSeq(r, LAMBDA a, b : a < b)
    [] OTHER -> r      \* reserve, clone, eq

(* The tables afterwards. *)
Do(T, o) ==
  LET h == o[2] IN
  CASE o[1] = "new" -> [T EXCEPT ![h] = Table(o[3], <<>>)]
    [] o[1] = "copy" -> [T EXCEPT ![h] = T[o[3]]]
    [] o[1] = "move" -> [T EXCEPT ![h] = T[o[3]], ![o[3]] = Gone]
    [] o[1] = "fix" -> [T EXCEPT ![h].k = "fix"]
    [] o[1] = "dyn" -> [T EXCEPT ![h].k = "dyn"]
    [] OTHER -> [T EXCEPT ![h].rows = Rows(@, o, T)]

Answer(T, o) == IF o[1] = "eq" THEN (IF T[o[2]].rows = T[o[3]].rows THEN "yes" ELSE "no") ELSE "done"

See(T) == [h \in DOMAIN T |-> T[h].rows]
=============================================================================
