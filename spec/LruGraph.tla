------------------------------ MODULE LruGraph ------------------------------
(* All behaviours of a small cache.  Every transition is printed (the        *)
(* harness replays walks that cover all of them on the real cache).          *)
EXTENDS LruCache, TLC, TLCExt, Json, IOUtils

CONSTANTS NKeys, MaxSize, Entries, Total, Single

VARIABLES c, op, ans
vars == <<c, op, ans>>

K == 1..NKeys
Ops == ({"get", "pin", "erase"} \X K)
       \cup {<<o, k, s, s>> : o \in {"ins", "pinned"}, k \in K, s \in 1..MaxSize}
       \cup {<<"clear">>, <<"clearall">>}
       \cup {<<"limit", n>> : n \in 0..Entries}

Init == /\ c = Empty(Lim(Entries, Total, Single))
        /\ op = <<"init">> /\ ans = "done"

Next == \E o \in Ops : LET a == Do(c, o) IN c' = a.c /\ op' = o /\ ans' = a.r
Spec == Init /\ [][Next]_vars

(* The state is the cache; the operation that led to it does not matter.     *)
StateOf == c
Tup(e) == <<e.k, e.v, e.s>>
Canon(x) == ToString(<<[j \in DOMAIN x.lru |-> Tup(x.lru[j])],
                       LET q == SetToSortSeq(x.pin, LAMBDA a, b : a.k < b.k) IN [j \in DOMAIN q |-> Tup(q[j])],
                       x.lim.n>>)
KeysOf(x) == [k \in K |-> IF Cached(x, k) THEN 1 ELSE 0]
Emit == PrintT("EDGE " \o ToJson([f |-> Canon(c), t |-> Canon(c'), op |-> op',
                                  r |-> ans', see |-> View(c') \o KeysOf(c')]))

----------------------------------------------------------------------------
(* The design itself: *)
Limits == c.lru # <<>> => Within(c)
NoDuplicates == /\ Cardinality(Keys(c)) = Len(c.lru) + Cardinality(c.pin)
                /\ Cardinality({e.k : e \in c.pin}) = Cardinality(c.pin)
PinnedStay == [][\A e \in c.pin : e \in c'.pin \/ op'[1] \in {"clearall", "erase"}]_vars
EvictedFirst ==  \* whatever stays was used later than whatever an insertion evicts
  [][op'[1] \in {"ins", "pinned", "limit"} =>
       \E n \in 0..Len(c.lru) :
          LET rest == SubSeq(c.lru, n + 1, Len(c.lru))
          IN c'.lru = rest \/ (c'.lru # <<>> /\ SubSeq(c'.lru, 1, Len(c'.lru) - 1) = rest)]_vars
=============================================================================
