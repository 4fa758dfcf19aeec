------------------------------ MODULE LruCache ------------------------------
(* The result cache: a bounded map whose unpinned entries are evicted in the *)
(* order of their last use, and whose pinned entries stay.  A cache c is     *)
(*   [lru |-> sequence of entries, least recently used first,                *)
(*    pin |-> set of entries, lim |-> limits]                                *)
(* where an entry is [k |-> key, v |-> value, s |-> size].                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Lim(n, size, single) == [n |-> n, size |-> size, single |-> single]
Empty(lim) == [lru |-> <<>>, pin |-> {}, lim |-> lim]

Entry(k, v, s) == [k |-> k, v |-> v, s |-> s]
Sizes(entries) == FoldSet(LAMBDA e, a : a + e.s, 0, entries)

Keys(c) == {e.k : e \in ToSet(c.lru)} \cup {e.k : e \in c.pin}
Pinned(c, k) == \E e \in c.pin : e.k = k
Cached(c, k) == k \in Keys(c)
Get(c, k) == CHOOSE e \in ToSet(c.lru) \cup c.pin : e.k = k
Without(seq, k) == SelectSeq(seq, LAMBDA e : e.k # k)

NumUnpinned(c) == Len(c.lru)
NumPinned(c) == Cardinality(c.pin)
SizeUnpinned(c) == FoldSeq(LAMBDA e, a : a + e.s, 0, c.lru)
SizePinned(c) == Sizes(c.pin)

Within(c) == /\ NumUnpinned(c) + NumPinned(c) <= c.lim.n
             /\ SizeUnpinned(c) + SizePinned(c) <= c.lim.size

(* Evict the least recently used unpinned entries until the limits hold (or  *)
(* nothing evictable is left).                                               *)
RECURSIVE Shrink(_)
Shrink(c) == IF c.lru = <<>> \/ Within(c) THEN c
             ELSE Shrink([c EXCEPT !.lru = Tail(@)])

(* --- what an operation does: the cache afterwards and what it answers ---- *)
Answer(c, r) == [c |-> c, r |-> r]

Lookup(c, k) ==
  IF ~Cached(c, k) THEN Answer(c, "none")
  ELSE LET e == Get(c, k)
       IN Answer(IF Pinned(c, k) THEN c ELSE [c EXCEPT !.lru = Append(Without(@, k), e)],
                 ToString(e.v))

Insert(c, k, v, s) ==
  IF Cached(c, k) THEN Answer(c, "error")
  ELSE IF s > c.lim.single THEN Answer(c, "none")
  ELSE Answer(Shrink([c EXCEPT !.lru = Append(@, Entry(k, v, s))]), ToString(v))

InsertPinned(c, k, v, s) ==
  IF Cached(c, k) \/ s > c.lim.single THEN Answer(c, "error")
  ELSE Answer(Shrink([c EXCEPT !.pin = @ \cup {Entry(k, v, s)}]), ToString(v))

Pin(c, k) ==
  IF ~Cached(c, k) THEN Answer(c, "no")
  ELSE Answer([c EXCEPT !.lru = Without(@, k), !.pin = @ \cup {Get(c, k)}], "yes")

Erase(c, k) == Answer([c EXCEPT !.lru = Without(@, k), !.pin = {e \in @ : e.k # k}], "done")
ClearUnpinned(c) == Answer([c EXCEPT !.lru = <<>>], "done")
ClearAll(c) == Answer([c EXCEPT !.lru = <<>>, !.pin = {}], "done")
SetLimit(c, n) == Answer(Shrink([c EXCEPT !.lim.n = n]), "done")

(* What the public interface shows of a cache. *)
View(c) == <<NumUnpinned(c), NumPinned(c), SizeUnpinned(c), SizePinned(c)>>

Do(c, op) ==
  CASE op[1] = "get" -> Lookup(c, op[2])
    [] op[1] = "ins" -> Insert(c, op[2], op[3], op[4])
    [] op[1] = "pinned" -> InsertPinned(c, op[2], op[3], op[4])
    [] op[1] = "pin" -> Pin(c, op[2])
    [] op[1] = "erase" -> Erase(c, op[2])
    [] op[1] = "clear" -> ClearUnpinned(c)
    [] op[1] = "clearall" -> ClearAll(c)
    [] op[1] = "limit" -> SetLimit(c, op[2])
=============================================================================
