------------------------------- MODULE Server -------------------------------
(* What a client of the server may observe: answers, refusals and the state   *)
(* of the result cache.  A request is                                          *)
(*   good    a query that the server can answer                                *)
(*   big     a query whose result has `size` rows of `width` ids               *)
(*   bad     anything that is not a query that can be answered                 *)
(*   clear, clearall   commands for the cache                                  *)
(* The state of the server as far as clients can tell:                         *)
(*   pins    number of pinned results (-1: not known)                          *)
(*   held    queries whose results were pinned                                 *)
(*   empty   the rest of the cache has been cleared and nothing was asked since*)
(*   stored  a big result may be in the cache                                  *)
(*   left    a client went away, its request may still be worked on           *)
(*   fits    queries that could be answered when nothing else was stored       *)
EXTENDS Bgp

Unknown == -1
Fresh == [pins |-> 0, held |-> {}, empty |-> TRUE, stored |-> FALSE, left |-> FALSE, fits |-> {}]

IdBytes == 8
Answered == {"OK", "ERROR"}
(* how a request that cannot be answered may end                               *)
Refusals == {"ERROR", "400", "404", "closed"}

(* The effect of requests on the state.                                        *)
Asked(s, ok, pin, q) ==
  [s EXCEPT !.empty = FALSE,
            !.pins = IF pin /\ q \notin s.held THEN Unknown ELSE @,
            !.held = IF pin /\ ok THEN @ \cup {q} ELSE @,
            !.fits = IF ok /\ s.empty /\ s.pins = 0 THEN @ \cup {q} ELSE @]
Cleared(s) == [s EXCEPT !.empty = ~s.left, !.stored = s.left]
ClearedAll(s) == [s EXCEPT !.empty = ~s.left, !.stored = s.left, !.pins = 0, !.held = {}]
BigAsked(s, ok) == [s EXCEPT !.empty = FALSE, !.stored = @ \/ ok]
(* What is not answered may still be worked on if there is another thread.     *)
Refused(s, odd, gone, threads) == [s EXCEPT !.empty = @ /\ ~odd, !.stored = @ \/ gone, !.left = @ \/ (gone /\ threads > 1)]
(* Several clients at the same time: what is pinned is not known afterwards.   *)
Crowd(s, threads) == [s EXCEPT !.empty = FALSE, !.pins = Unknown, !.held = {}, !.stored = TRUE, !.left = threads > 1]
Looked(s, st) == [s EXCEPT !.pins = st.pinned]

(* memory: limit in bytes for all results together (0: none)                   *)
GoodOk(s, memory, kb, q, status, rows, pats, cols) ==
  \/ status = "OK" /\ SameRows(rows, Solve(kb, {<<>>}, pats, 1), cols)
  \/ status = "ERROR" /\ memory > 0 /\ ~(s.empty /\ s.pins = 0 /\ q \in s.fits)

(* No machine stores that many rows within the time; none within the memory.   *)
TooMany == 1000000
TooShort == 1
BigOk(s, memory, size, width, msecs, crowd, status, got) ==
  /\ status \in Answered
  /\ status = "OK" => /\ got = size
                      /\ memory > 0 => size * width * IdBytes <= memory
                      /\ (msecs > 0 /\ msecs <= TooShort /\ size >= TooMany) => s.stored \/ crowd
  /\ status = "ERROR" => memory > 0 \/ msecs > 0 \/ crowd  \* the one it waited for failed

BadOk(odd, status) == status \in Refusals \/ (odd /\ status = "OK")

StatsOk(s, st) ==
  /\ s.pins # Unknown => st.pinned = s.pins
  /\ s.held # {} => st.pinned > 0
  /\ s.empty => st.others = 0
=============================================================================
