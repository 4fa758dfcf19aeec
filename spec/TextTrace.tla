------------------------------ MODULE TextTrace ------------------------------
(* Recorded answers of text queries, judged by Text.tla.                        *)
(*   corpus  triples, lines, docs, unique: each record has an excerpt of its own*)
(*   ask     texts: text patterns [parts, vars]; pats: triple patterns;         *)
(*           noteq: filters; k: text limit; mode; vars: the columns; rows       *)
(*     mode "full": columns are all variables, then excerpt and score of each   *)
(*                  text pattern                                                *)
(*     mode "some": columns are some variables; "distinct": each row once       *)
(*     mode "order": as "full", sorted by the falling score of the first        *)
(*   error   the query was refused                                              *)
EXTENDS Text, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, kb, recs, unique, bad
vars == <<i, kb, recs, unique, bad>>

Terms(ts) == UNION {{t[1], t[2], t[3]} : t \in ts}

Product(s) == LET RECURSIVE P(_)
                  P(j) == IF j > Len(s) THEN 1 ELSE s[j] * P(j + 1)
              IN P(1)

Solutions(e, Ms) ==
  LET S0 == Solve(kb, {<<>>}, e.pats, 1)
  IN {f \in WithText(recs, Ms, S0, e.texts, 1) : \A x \in Ran(e.noteq) : Keeps(f, x)}

Full(e) ==
  LET n == Len(e.vars)
      m == Len(e.texts)
      rows == e.rows
      V == Ran(e.vars)
      Key(r) == [v \in V |-> r[CHOOSE c \in 1..n : e.vars[c] = v]]
      Ms == [t \in 1..m |-> Matching(recs, e.texts[t])]
      sols == Solutions(e, Ms)
      keys == [j \in 1..Len(rows) |-> Key(rows[j])]
      doc(j, t) == rows[j][n + 2 * t - 1]
      score(j, t) == rows[j][n + 2 * t]
  IN /\ Ran(keys) = sols
     /\ \A f \in sols :
          LET R == {j \in 1..Len(rows) : keys[j] = f}
              N == [t \in 1..m |-> RecordsOf(recs, Ms[t], e.texts[t], f)]
              size == [t \in 1..m |-> Kept(e.texts[t], e.k, Cardinality(N[t]))]
          IN /\ Cardinality(R) = Product(size)
             /\ \A t \in 1..m :
                  /\ e.texts[t].vars # <<>> => \A j \in R : score(j, t) = Cardinality(N[t])
                  /\ e.texts[t].vars = <<>> =>
                       \A j \in R : \E r \in N[t] : recs[r].doc = doc(j, t) /\ WordScore(recs[r], e.texts[t]) = score(j, t)
             /\ IF unique
                THEN /\ Cardinality({[t \in 1..m |-> doc(j, t)] : j \in R}) = Cardinality(R)
                     /\ \A t \in 1..m :
                          LET D == {doc(j, t) : j \in R}
                          IN /\ D \subseteq {recs[r].doc : r \in N[t]} /\ Cardinality(D) = size[t]
                             /\ Len(e.texts[t].vars) = 1 /\ Len(TermsOf(e.texts[t])) <= 2 =>
                                  LET x == f[e.texts[t].vars[1]]
                                  IN \A r, q \in N[t] : recs[r].doc \in D /\ recs[q].doc \notin D
                                                       => EntityScore(recs[r], x) >= EntityScore(recs[q], x)
                ELSE \* one text pattern
                     \A d \in {doc(j, 1) : j \in R} :
                       Cardinality({j \in R : doc(j, 1) = d}) <= Cardinality({r \in N[1] : recs[r].doc = d})

Some(e) ==
  LET V == Ran(e.vars)
      rows == e.rows
      m == Len(e.texts)
      Key(r) == [v \in V |-> r[CHOOSE c \in 1..Len(e.vars) : e.vars[c] = v]]
      Ms == [t \in 1..m |-> Matching(recs, e.texts[t])]
      sols == Solutions(e, Ms)
      keys == [j \in 1..Len(rows) |-> Key(rows[j])]
      copies == [f \in sols |-> Product([t \in 1..m |-> Kept(e.texts[t], e.k, Cardinality(RecordsOf(recs, Ms[t], e.texts[t], f)))])]
      RECURSIVE Total(_)
      Total(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN copies[f] + Total(S \ {f})
  IN /\ Ran(keys) = {Restrict(f, V) : f \in sols}
     /\ \A g \in Ran(keys) :
          Cardinality({j \in 1..Len(rows) : keys[j] = g}) =
            IF e.mode = "distinct" THEN 1 ELSE Total({f \in sols : Restrict(f, V) = g})

Sorted(e) == \A j \in 2..Len(e.rows) : e.rows[j - 1][Len(e.vars) + 2] >= e.rows[j][Len(e.vars) + 2]

(* A prefix that is shorter than the shortest indexed one may be refused.       *)
MinPrefix == 4
MayRefuse(e) == \E T \in Ran(e.texts) : \E t \in Ran(TermsOf(T)) : t.k = "prefix" /\ Len(t.w) < MinPrefix

Ok(e) ==
  CASE e.e = "ask" /\ e.mode = "full" -> Full(e)
    [] e.e = "ask" /\ e.mode = "order" -> Full(e) /\ Sorted(e)
    [] e.e = "ask" -> Some(e)
    [] e.e = "error" -> MayRefuse(e)

Init == i = 1 /\ kb = {} /\ recs = <<>> /\ unique = TRUE /\ bad = {}

Load(e) ==
  /\ e.e = "corpus"
  /\ LET ts == Triples(Ran(e.triples))
     IN kb' = WithHas(ts) /\ recs' = Records(e.lines, e.docs, Terms(ts))
  /\ unique' = e.unique
  /\ UNCHANGED bad

Judge(e) ==
  /\ e.e # "corpus"
  /\ UNCHANGED <<kb, recs, unique>>
  /\ bad' = IF Ok(e) THEN bad ELSE bad \cup {e.id}

Next == i <= Len(Trace) /\ i' = i + 1 /\ (Load(Trace[i]) \/ Judge(Trace[i]))
Spec == Init /\ [][Next]_vars

Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", bad>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
