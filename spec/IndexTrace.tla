----------------------------- MODULE IndexTrace -----------------------------
(* Recorded scans of real indexes, judged by Index.tla.                      *)
EXTENDS Index, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, E, bad
vars == <<i, E, bad>>

Init == i = 1 /\ E = {} /\ bad = {}

Load(e) == e.e = "kb" /\ E' = MakeKb(e).E /\ UNCHANGED bad

Look(e) ==
  /\ e.e = "scan"
  /\ UNCHANGED E
  /\ bad' = IF ScanOk(E, e, e.rows) THEN bad ELSE bad \cup {e.id}

Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ (Load(Trace[i]) \/ Look(Trace[i]))

Spec == Init /\ [][Next]_vars

Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", bad>>)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
