---------------------------- MODULE TurtleTrace -----------------------------
(* Documents, token by token, and the triples that real indexes built from   *)
(* them hold, judged by Turtle.tla.                                          *)
EXTENDS Turtle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, j, st, bad
vars == <<i, j, st, bad>>

Init == i = 1 /\ j = 0 /\ st = Empty /\ bad = {}

Open2(e) == e.e = "doc" /\ j = 0 /\ st' = Empty /\ j' = 1 /\ UNCHANGED <<i, bad>>

Read(e) ==
  /\ e.e = "doc"
  /\ j \in 1..Len(e.toks)
  /\ st' = Step(st, e.toks[j])
  /\ j' = j + 1
  /\ UNCHANGED <<i, bad>>

Done(e) ==
  /\ e.e = "doc"
  /\ j = Len(e.toks) + 1
  /\ IF st.c = "statement" THEN TRUE ELSE PrintT(<<"ILL", st.c, e.text>>) /\ FALSE
  /\ i' = i + 1 /\ j' = 0
  /\ UNCHANGED <<st, bad>>

(* Nothing is listed twice. *)
Loaded(e) ==
  /\ e.e = "loaded"
  /\ LET T == {<<Term(r[1]), Term(r[2]), Term(r[3])>> : r \in {e.rows[n] : n \in 1..Len(e.rows)}}
         ok == Len(e.rows) = Cardinality(st.T) /\ SameGraph(st.T, T)
     IN bad' = IF ok THEN bad ELSE bad \cup {e.id}
  /\ i' = i + 1
  /\ UNCHANGED <<j, st>>

Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN Open2(e) \/ Read(e) \/ Done(e) \/ Loaded(e)

Spec == Init /\ [][Next]_vars

Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", bad>>)
=============================================================================
