-------------------------------- MODULE Text --------------------------------
(* Text search.  A corpus is a set of records; a record contains words (with  *)
(* scores) and entities of the knowledge base.  A text pattern asks for       *)
(* records that contain some words, prefixes and given entities, and relates  *)
(* them to the entities they contain through variables.                       *)
(*                                                                            *)
(* Words are sequences of code points, entities are strings.                  *)
EXTENDS Bgp

(* --- words ---------------------------------------------------------------- *)
Lower(c) ==
  IF \/ c \in 65..90 \/ (c \in 192..222 /\ c # 215) \/ c \in 1040..1071 THEN c + 32
  ELSE c
LowerAll(w) == [j \in 1..Len(w) |-> Lower(w[j])]

(* Prefixes are compared without accents.                                     *)
Fold(c) ==
  CASE c \in 224..229 -> 97
    [] c \in 232..235 -> 101
    [] c \in 242..246 -> 111
    [] c \in 249..252 -> 117
    [] OTHER -> c
FoldAll(w) == [j \in 1..Len(w) |-> Fold(w[j])]

StartsWith(p, w) == Len(p) <= Len(w) /\ \A j \in 1..Len(p) : p[j] = w[j]

(* --- the corpus ------------------------------------------------------------ *)
(* lines <<word, entity, is entity, record, score>> as in the input file;      *)
(* docs <<last record, text>>; known: the terms of the knowledge base.         *)
Excerpt(docs, r) ==
  LET j == CHOOSE j \in 1..Len(docs) : docs[j][1] >= r /\ \A h \in 1..(j - 1) : docs[h][1] < r
  IN docs[j][2]

(* The lines of a record stand together.                                       *)
Group(lines) ==
  LET n == Len(lines)
      first == SelectSeq([j \in 1..n |-> j], LAMBDA j : j = 1 \/ lines[j][4] # lines[j - 1][4])
      last(g) == IF g = Len(first) THEN n ELSE first[g + 1] - 1
  IN [g \in 1..Len(first) |->
        LET part == SubSeq(lines, first[g], last(g))
            ws == SelectSeq(part, LAMBDA l : l[3] = 0)
            es == SelectSeq(part, LAMBDA l : l[3] = 1)
        IN [id |-> lines[first[g]][4],
            words |-> [j \in 1..Len(ws) |-> <<LowerAll(ws[j][1]), FoldAll(LowerAll(ws[j][1])), ws[j][5]>>],
            ents |-> [j \in 1..Len(es) |-> <<es[j][2], es[j][5]>>]]]

Records(lines, docs, known) ==
  LET rs == Group(lines)
  IN [j \in 1..Len(rs) |->
        [words |-> rs[j].words,
         posts |-> SelectSeq(rs[j].ents, LAMBDA x : x[1] \in known),
         ents |-> {x[1] : x \in Ran(rs[j].ents)} \cap known,
         doc |-> Excerpt(docs, rs[j].id)]]

(* --- text patterns --------------------------------------------------------- *)
RECURSIVE Sum(_, _)
Sum(s, j) == IF j > Len(s) THEN 0 ELSE s[j] + Sum(s, j + 1)

(* The scores of the postings of a record that match a term (none: no match). *)
Hits(rec, t) ==
  CASE t.k = "word" ->
         LET w == LowerAll(t.w) h == SelectSeq(rec.words, LAMBDA x : x[1] = w) IN [j \in 1..Len(h) |-> h[j][3]]
    [] t.k = "prefix" ->
         LET w == FoldAll(LowerAll(t.w)) h == SelectSeq(rec.words, LAMBDA x : StartsWith(w, x[2])) IN [j \in 1..Len(h) |-> h[j][3]]
    [] t.k = "entity" ->
         LET h == SelectSeq(rec.posts, LAMBDA x : x[1] = t.e) IN [j \in 1..Len(h) |-> h[j][2]]

(* The patterns are a set: the same words given twice count once.             *)
Same(x, y) ==
  /\ x.p = y.p /\ Len(x.terms) = Len(y.terms)
  /\ \A j \in 1..Len(x.terms) : LET s == x.terms[j] t == y.terms[j]
                               IN s.k = t.k /\ LowerAll(s.w) = LowerAll(t.w) /\ s.e = t.e
RECURSIVE Flat(_, _)
Flat(parts, j) ==
  IF j > Len(parts) THEN <<>>
  ELSE (IF \E h \in 1..(j - 1) : Same(parts[h], parts[j]) THEN <<>> ELSE parts[j].terms) \o Flat(parts, j + 1)
TermsOf(T) == Flat(T.parts, 1)

Matching(recs, T) == LET ts == Ran(TermsOf(T)) IN {j \in 1..Len(recs) : \A t \in ts : Len(Hits(recs[j], t)) > 0}

WordScore(rec, T) == LET ts == TermsOf(T) IN Sum([t \in 1..Len(ts) |-> Sum(Hits(rec, ts[t]), 1)], 1)

(* The score of an entity in a record.                                        *)
EntityScore(rec, x) == LET h == SelectSeq(rec.posts, LAMBDA p : p[1] = x) IN Sum([j \in 1..Len(h) |-> h[j][2]], 1)

(* M: matching records.  The combinations of entities and the records of each. *)
Combos(recs, M, T) == UNION {[Ran(T.vars) -> recs[j].ents] : j \in M}
RecordsOf(recs, M, T, a) == {j \in M : \A v \in Ran(T.vars) : a[v] \in recs[j].ents}

Min(a, b) == IF a < b THEN a ELSE b
(* Without variables all matching records are given, else k per combination.   *)
Kept(T, k, n) == IF T.vars = <<>> THEN n ELSE Min(k, n)

(* All solutions of a query, without the records.                               *)
RECURSIVE WithText(_, _, _, _, _)
WithText(recs, Ms, S, Ts, j) ==
  IF j > Len(Ts) THEN S
  ELSE LET C == Combos(recs, Ms[j], Ts[j])
       IN WithText(recs, Ms, UNION {{f @@ a : a \in {a \in C : Agree(f, a)}} : f \in S}, Ts, j + 1)

Keeps(f, x) == IF x.c.v THEN f[x.v] # f[x.c.s] ELSE f[x.v] # x.c.s
=============================================================================
