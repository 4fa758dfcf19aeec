------------------------------- MODULE Index --------------------------------
(* What an index may answer: it is the set of the triples of its input (and  *)
(* the helper triples), whatever the order and number of times they stand    *)
(* there.  A scan fixes some positions and returns the others; a restricted  *)
(* scan keeps the triples that meet a triple of a second scan in one place.  *)
EXTENDS Sparql

(* pat: 0 for a position that is not fixed *)
Scan(E, pat) == {t \in E : \A k \in 1..3 : pat[k] = 0 \/ t[k] = pat[k]}

Restricted(E, pat, k, pat2, k2) ==
  LET seen == {t[k2] : t \in Scan(E, pat2)}
  IN {t \in Scan(E, pat) : t[k] \in seen}

Open(pat) == SelectSeq(<<1, 2, 3>>, LAMBDA k : pat[k] = 0)

Listed(S, pat) == LET op == Open(pat) IN {[c \in 1..Len(op) |-> t[op[c]]] : t \in S}

(* Every triple is listed once. *)
ScanOk(E, e, rows) ==
  LET S == IF e.k = 0 THEN Scan(E, e.pat) ELSE Restricted(E, e.pat, e.k, e.pat2, e.k2)
  IN Len(rows) = Cardinality(S) /\ RangeOf(rows) = Listed(S, e.pat)
=============================================================================
