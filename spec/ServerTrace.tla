----------------------------- MODULE ServerTrace -----------------------------
(* Recorded requests and their ends, judged by Server.tla.                      *)
EXTENDS Server, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, kb, memory, threads, size, s, bad
vars == <<i, kb, memory, threads, size, s, bad>>

RECURSIVE Squares(_, _)
Squares(g, j) == IF j > Len(g) THEN 0 ELSE g[j] * g[j] + Squares(g, j + 1)

Ok(e) ==
  CASE e.e = "good" -> GoodOk(s, memory, kb, e.q, e.status, e.rows, e.pats, e.cols)
    [] e.e = "big" -> BigOk(s, memory, size, 3, e.msecs, e.crowd, e.status, e.got)
    [] e.e = "bad" -> BadOk(e.odd, e.status)
    [] e.e \in {"clear", "clearall"} -> e.status \in Answered
    [] e.e = "stats" -> StatsOk(s, e)

After(e) ==
  IF e.crowd THEN Crowd(s, threads)
  ELSE CASE e.e = "good" -> Asked(s, e.status = "OK", e.pin, e.q)
         [] e.e = "big" -> BigAsked(s, e.status = "OK")
         [] e.e = "bad" -> Refused(s, e.odd, e.gone, threads)
         [] e.e = "clear" -> Cleared(s)
         [] e.e = "clearall" -> ClearedAll(s)
         [] e.e = "stats" -> Looked(s, e)

Init == i = 1 /\ kb = {} /\ memory = 0 /\ threads = 1 /\ size = 0 /\ s = Fresh /\ bad = {}

Start(e) ==
  /\ e.e = "kb"
  /\ kb' = Triples(Ran(e.triples)) /\ memory' = e.memory /\ threads' = e.threads /\ size' = Squares(e.groups, 1)
  /\ s' = Fresh /\ UNCHANGED bad

Judge(e) ==
  /\ e.e # "kb"
  /\ UNCHANGED <<kb, memory, threads, size>>
  /\ s' = After(e)
  /\ bad' = IF Ok(e) THEN bad ELSE bad \cup {e.id}

Next == i <= Len(Trace) /\ i' = i + 1 /\ (Start(Trace[i]) \/ Judge(Trace[i]))
Spec == Init /\ [][Next]_vars

Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", bad>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
