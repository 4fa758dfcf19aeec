---------------------------- MODULE ValuesTrace -----------------------------
(* Recorded answers about numbers and dates, judged by Values.tla.           *)
(*   kb     vals: the value of each subject                                  *)
(*   list   rows <<subject, shown value>>                                    *)
(*   filter op, c: constant; rows: the subjects (each once)                  *)
(*   look   c: constant as object; rows: the subjects                        *)
(*   pairs  op; rows <<subject, subject>>                                    *)
(*   order  desc; rows: subjects in the order of the answer                  *)
(*   ext    f: "min"/"max" over all; row: the shown value                    *)
(*   sum    rows <<subject, shown sum of its one value>>                     *)
EXTENDS Values, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, v, bad
vars == <<i, v, bad>>

Ran(s) == {s[j] : j \in 1..Len(s)}
All == 1..Len(v)

Between(rows, must, may) ==
  /\ must \subseteq Ran(rows) /\ Ran(rows) \subseteq may
  /\ Len(rows) = Cardinality(Ran(rows))

Ok(e) ==
  CASE e.e = "list" ->
         /\ Len(e.rows) = Len(v) /\ {r[1] : r \in Ran(e.rows)} = All
         /\ \A r \in Ran(e.rows) : Same(r[2], v[r[1]])
    [] e.e = "filter" ->
         LET must == {s \in All : Fixed(e.op, v[s], e.c) /\ Op(e.op, v[s], e.c)}
         IN Between(e.rows, must, must \cup {s \in All : ~Fixed(e.op, v[s], e.c)})
    [] e.e = "look" -> Between(e.rows, {s \in All : Same(v[s], e.c)}, All) /\ \A s \in Ran(e.rows) : Same(v[s], e.c)
    [] e.e = "pairs" ->
         LET P == All \X All
             must == {p \in P : Fixed(e.op, v[p[1]], v[p[2]]) /\ Op(e.op, v[p[1]], v[p[2]])}
         IN Between(e.rows, must, must \cup {p \in P : ~Fixed(e.op, v[p[1]], v[p[2]])})
    [] e.e = "order" ->
         /\ Len(e.rows) = Len(v) /\ Ran(e.rows) = All
         /\ \A j \in 1..(Len(v) - 1) :
              LET c == Cmp(v[e.rows[j]], v[e.rows[j + 1]]) IN IF e.desc = 1 THEN c >= 0 ELSE c <= 0
    [] e.e = "ext" ->
         /\ \E s \in All : Same(v[s], e.row)
         /\ \A s \in All : LET c == Cmp(e.row, v[s]) IN IF e.f = "min" THEN c <= 0 ELSE c >= 0
    [] e.e = "sum" ->
         /\ Len(e.rows) = Len(v) /\ {r[1] : r \in Ran(e.rows)} = All
         /\ \A r \in Ran(e.rows) : Near(r[2], v[r[1]])
    [] e.e = "error" -> FALSE

Init == i = 1 /\ v = <<>> /\ bad = {}
Next ==
  /\ i <= Len(Trace) /\ i' = i + 1
  /\ IF Trace[i].e = "kb" THEN v' = Trace[i].vals /\ UNCHANGED bad
     ELSE v' = v /\ bad' = IF Ok(Trace[i]) THEN bad ELSE bad \cup {Trace[i].id}
Spec == Init /\ [][Next]_vars

Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", bad>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
