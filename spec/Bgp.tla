--------------------------------- MODULE Bgp ---------------------------------
(* Sets of triple patterns over a knowledge base of triples <<s, p, o>>.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[j] : j \in 1..Len(s)}

HasPredicate == "ql:has-predicate"
WithHas(kb) == kb \cup {<<t[1], HasPredicate, t[2]>> : t \in kb}
Triples(kb) == {<<t[1], t[2], t[3]>> : t \in kb}

(* a pattern component: [v |-> TRUE, s |-> name] or [v |-> FALSE, s |-> term]   *)
Fits(f, c, x) == IF c.v THEN (c.s \notin DOMAIN f \/ f[c.s] = x) ELSE c.s = x
Bind(f, c, x) == IF c.v THEN (c.s :> x) @@ f ELSE f

Extend(kb, S, p) ==
  UNION {{Bind(Bind(f, p[1], t[1]), p[3], t[3]) :
            t \in {t \in kb : /\ Fits(f, p[1], t[1]) /\ Fits(f, p[2], t[2])
                              /\ Fits(Bind(f, p[1], t[1]), p[3], t[3])}} : f \in S}

RECURSIVE Solve(_, _, _, _)
Solve(kb, S, ps, j) == IF j > Len(ps) THEN S ELSE Solve(kb, Extend(kb, S, ps[j]), ps, j + 1)

Agree(f, g) == \A v \in DOMAIN f \cap DOMAIN g : f[v] = g[v]

Restrict(f, D) == [v \in D |-> f[v]]

(* The rows (as multiset) of the solutions S over the columns cols.            *)
SameRows(rows, S, cols) ==
  LET V == Ran(cols)
      Key(r) == [v \in V |-> r[CHOOSE c \in 1..Len(cols) : cols[c] = v]]
      keys == [j \in 1..Len(rows) |-> Key(rows[j])]
      ks == Ran(keys)
  IN /\ ks = {Restrict(f, V) : f \in S}
     /\ Len(rows) = Cardinality(S)
     /\ Len(rows) # Cardinality(ks) =>
          \A g \in ks : Cardinality({j \in 1..Len(rows) : keys[j] = g}) = Cardinality({f \in S : Restrict(f, V) = g})
=============================================================================
