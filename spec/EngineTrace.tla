---------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Validates a recorded session against Sparql.tla.  The trace is a         *)
(* sequence of events                                                       *)
(*   kb     a knowledge base is loaded (a server with its index started)    *)
(*   query  a query and the rows that the server answered                   *)
(* The answer to a query depends on the loaded knowledge base alone, so the *)
(* only state is the knowledge base.  A query whose answer does not conform *)
(* is collected in `bad', so that one run judges all of the trace.          *)
(***************************************************************************)
EXTENDS Sparql, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, kb, bad
vars == <<i, kb, bad>>

Init == i = 1 /\ kb = [T |-> <<>>] /\ bad = {}

Load(e) == e.e = "kb" /\ kb' = MakeKb(e) /\ UNCHANGED bad

Query(e) ==
  /\ e.e = "query"
  /\ UNCHANGED kb
  /\ bad' = IF Conforms(kb, e, e.rows) THEN bad ELSE bad \cup {e.id}

Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ (Load(Trace[i]) \/ Query(Trace[i]))

Spec == Init /\ [][Next]_vars


Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", bad>>)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
