------------------------------- MODULE Sparql -------------------------------
(***************************************************************************)
(* What a SPARQL query means on a set of triples: the oracle for everything *)
(* the server answers.                                                      *)
(*                                                                          *)
(* Terms are positive integers, indices into a table of term descriptions   *)
(*   k   kind: 1 text literal, 2 date, 3 number, 4 IRI, 5 language          *)
(*       predicate, 6 blank node                                            *)
(*   s   what the term is ordered by within its kind: the character codes   *)
(*       of a text or IRI, <<scaled value, type>> of a number or date       *)
(*   l   language (0: none); only breaks ties                               *)
(*   d   the characters of the whole term as it is written                  *)
(*   n   the value of a number, in thousandths                              *)
(* Variables are negative integers -1..-nv.  A solution is a sequence of    *)
(* length nv, with 0 for an unbound variable.  Bags of solutions are        *)
(* sequences whose order carries no meaning.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RangeOf(seq) == {seq[i] : i \in 1..Len(seq)}

RECURSIVE LexCmp(_, _, _)
LexCmp(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE LexCmp(a, b, i + 1)

(***************************************************************************)
(* Computed numbers (COUNT, SUM, BIND) are the values below -400000000, in  *)
(* 64ths around NumBase (numbers are multiples of 1/8, so sums and products *)
(* are exact).                                                              *)
(***************************************************************************)
NumBase == -1000000000
NumNaN == NumBase - 500000000

IsCode(x) == x < -400000000
IsNumber(T, x) == IF IsCode(x) THEN x # NumNaN ELSE x > 0 /\ T[x].k = 3
\* the value of a number in 64ths and in thousandths
Sixtyfourths(T, x) == IF IsCode(x) THEN x - NumBase ELSE (T[x].n \div 125) * 8
Thousandths(T, x) == IF IsCode(x) THEN ((x - NumBase) * 125) \div 8 ELSE T[x].n

\* Comparison by text or value: -1, 0, 1.
CmpText(T, a, b) ==
  IF IsCode(a) \/ IsCode(b)
  THEN LET x == Sixtyfourths(T, a)  y == Sixtyfourths(T, b)
       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
  ELSE IF T[a].k # T[b].k THEN (IF T[a].k < T[b].k THEN -1 ELSE 1)
  ELSE LexCmp(T[a].s, T[b].s, 1)

\* The total order of terms: text first, then the language.
CmpTotal(T, a, b) ==
  LET c == CmpText(T, a, b)
  IN IF c # 0 \/ IsCode(a) \/ IsCode(b) THEN c
     ELSE IF T[a].l < T[b].l THEN -1 ELSE IF T[a].l > T[b].l THEN 1 ELSE 0

(***************************************************************************)
(* The graph that queries see: the input triples and, for every triple      *)
(* whose object has a language, the two helper triples of the language      *)
(* filter.                                                                  *)
(***************************************************************************)
Helper(kb) ==
  LET tagged == {t \in kb.G : kb.T[t[3]].l # 0}
  IN {<<t[1], kb.langPred[<<t[2], kb.T[t[3]].l>>], t[3]>> : t \in tagged}
     \cup {<<t[3], kb.langTag, kb.langEnt[kb.T[t[3]].l]>> : t \in tagged}

Graph(kb) == kb.G \cup Helper(kb)

(***************************************************************************)
(* Solutions                                                                *)
(***************************************************************************)
Compatible(a, b) == \A j \in DOMAIN a : a[j] = 0 \/ b[j] = 0 \/ a[j] = b[j]
Merge(a, b) == [j \in DOMAIN a |-> IF a[j] # 0 THEN a[j] ELSE b[j]]
Empty(nv) == [j \in 1..nv |-> 0]

Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

JoinBags(A, B) ==
  Flat([i \in 1..Len(A) |->
          LET m == SelectSeq(B, LAMBDA b : Compatible(A[i], b))
          IN [j \in 1..Len(m) |-> Merge(A[i], m[j])]])

LeftJoinBags(A, B) ==
  Flat([i \in 1..Len(A) |->
          LET m == SelectSeq(B, LAMBDA b : Compatible(A[i], b))
          IN IF m = <<>> THEN <<A[i]>>
             ELSE [j \in 1..Len(m) |-> Merge(A[i], m[j])]])

\* A row of A goes if B has a compatible row that shares a bound variable.
MinusBags(A, B) ==
  SelectSeq(A, LAMBDA a :
     ~ \E i \in 1..Len(B) : /\ Compatible(a, B[i])
                            /\ \E j \in DOMAIN a : a[j] # 0 /\ B[i][j] # 0)

(***************************************************************************)
(* Triple patterns: the set of extensions of the solutions in S that match  *)
(***************************************************************************)
Val(sol, x) == IF x > 0 THEN x ELSE sol[-x]

Ext(sol, pat, tr) ==
  [j \in DOMAIN sol |->
     IF sol[j] # 0 THEN sol[j]
     ELSE IF pat[1] = -j THEN tr[1]
     ELSE IF pat[2] = -j THEN tr[2]
     ELSE IF pat[3] = -j THEN tr[3] ELSE 0]

MatchOne(sol, pat, E) ==
  LET a == Val(sol, pat[1])  b == Val(sol, pat[2])  c == Val(sol, pat[3])
      cand == {tr \in E : /\ (a = 0 \/ tr[1] = a)
                          /\ (b = 0 \/ tr[2] = b)
                          /\ (c = 0 \/ tr[3] = c)}
      ext == {<<tr, Ext(sol, pat, tr)>> : tr \in cand}
  IN {x[2] : x \in {y \in ext : \A i \in 1..3 : Val(y[2], pat[i]) = y[1][i]}}

RECURSIVE MatchAll(_, _, _, _)
MatchAll(S, ts, i, E) ==
  IF i > Len(ts) THEN S
  ELSE MatchAll(UNION {MatchOne(s, ts[i], E) : s \in S}, ts, i + 1, E)

(***************************************************************************)
(* Property paths.  Sequence, alternative and inverse keep multiplicities;  *)
(* +, * and ? yield every pair once.  A path denotes a bag of pairs.        *)
(***************************************************************************)
RECURSIVE Hull(_, _)
Hull(R, new) ==
  IF new \subseteq R THEN R
  ELSE LET U == R \cup new
       IN Hull(U, {<<x[1], y[2]>> : <<x, y>> \in {z \in U \X U : z[1][2] = z[2][1]}})

Nodes(E) == {t[1] : t \in E} \cup {t[3] : t \in E}

RECURSIVE PathBag(_, _)
PathBag(p, E) ==
  CASE p.t = "pred" -> SetToSeq({<<t[1], t[3]>> : t \in {u \in E : u[2] = p.p}})
    [] p.t = "inv" -> LET b == PathBag(p.a, E) IN [i \in 1..Len(b) |-> <<b[i][2], b[i][1]>>]
    [] p.t = "alt" -> PathBag(p.a, E) \o PathBag(p.b, E)
    [] p.t = "seq" ->
         LET a == PathBag(p.a, E)  b == PathBag(p.b, E)
         IN Flat([i \in 1..Len(a) |->
                    LET m == SelectSeq(b, LAMBDA y : y[1] = a[i][2])
                    IN [j \in 1..Len(m) |-> <<a[i][1], m[j][2]>>]])
    [] p.t = "plus" -> SetToSeq(Hull({}, RangeOf(PathBag(p.a, E))))
    [] p.t = "star" -> SetToSeq(Hull({}, RangeOf(PathBag(p.a, E))) \cup {<<n, n>> : n \in Nodes(E)})
    [] p.t = "opt"  -> SetToSeq(RangeOf(PathBag(p.a, E)) \cup {<<n, n>> : n \in Nodes(E)})

(***************************************************************************)
(* Filters                                                                  *)
(***************************************************************************)
IsPrefixAt(c, d, i) ==
  /\ i + Len(c) - 1 <= Len(d)
  /\ \A j \in 1..Len(c) : d[i + j - 1] = c[j]

Lower(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
Fold(s) == [i \in 1..Len(s) |-> Lower(s[i])]

OccursIn(c, d) == \E i \in 1..(Len(d) - Len(c) + 1) : IsPrefixAt(c, d, i)

CmpOp(op, c) ==
  CASE op = "eq" -> c = 0
    [] op = "ne" -> c # 0
    [] op = "lt" -> c < 0
    [] op = "le" -> c <= 0
    [] op = "gt" -> c > 0
    [] op = "ge" -> c >= 0

Holds(T, f, s) ==
  CASE f.op \in {"eq", "ne", "lt", "le", "gt", "ge"} ->
         LET a == s[-f.l]  b == Val(s, f.r)
         IN /\ a # 0 /\ b # 0
            \* with a constant: by text or value; between two columns: the terms
            /\ CmpOp(f.op, IF f.r > 0 THEN CmpText(T, a, b) ELSE CmpTotal(T, a, b))
    [] f.op = "lang" -> s[-f.l] # 0 /\ T[s[-f.l]].l = f.lang
    [] f.op = "prefix" ->
         \E i \in 1..Len(f.alts) :
            LET x == s[-f.alts[i].l] IN x # 0 /\ IsPrefixAt(f.alts[i].c, T[x].d, 1)
    [] f.op = "regex" ->
         LET x == s[-f.l]
         IN x # 0 /\ (IF f.i = 1 THEN OccursIn(Fold(f.c), Fold(T[x].d)) ELSE OccursIn(f.c, T[x].d))

(***************************************************************************)
(* Group patterns, evaluated element by element; the filters of a group     *)
(* apply to the whole group.                                                *)
(***************************************************************************)
\* ql:has-predicate: language predicates do not count
HasPred(kb, E) == {<<t[1], 0, t[2]>> : t \in {u \in E : kb.T[u[2]].k # 5}}

\* BIND: a copy, a constant, or a computed number.
BindVal(T, e, s) ==
  IF e.o = "" THEN Val(s, e.x)
  ELSE IF e.o = "int" THEN NumBase + (e.n \div 125) * 8
  ELSE LET a == s[-e.x]  b == s[-e.y]
       IN IF ~ IsNumber(T, a) \/ ~ IsNumber(T, b) THEN NumNaN
          ELSE LET x == Sixtyfourths(T, a)  y == Sixtyfourths(T, b)
               IN NumBase + (CASE e.o = "+" -> x + y
                               [] e.o = "-" -> x - y
                               [] e.o = "*" -> (x \div 8) * (y \div 8))

(***************************************************************************)
(* Result rows.  The select list has entries                                *)
(*   [f |-> "var",   v |-> variable]                                        *)
(*   [f |-> "count" / "sum" / "avg" / "min" / "max" / "sample" / "concat",  *)
(*    v |-> variable, d |-> 1 for DISTINCT]                                 *)
(* For min/max/sample/var the cell is a term, for count an integer, for sum *)
(* and avg a number in thousandths (NaN if a value is not a number), for    *)
(* concat the sequence of terms.                                            *)
(***************************************************************************)
NaN == -2147483647

Vals(sols, v) == [i \in 1..Len(sols) |-> sols[i][-v]]
Dedup(vals, d) == IF d = 1 THEN SetToSeq(RangeOf(vals)) ELSE vals
SumNums(T, vals) == FoldLeft(LAMBDA acc, x : acc + Thousandths(T, x), 0, vals)
AllNums(T, vals) == \A i \in 1..Len(vals) : IsNumber(T, vals[i])

Abs(x) == IF x < 0 THEN -x ELSE x

\* six digits are shown
Digits(x) == Abs(x) \div 100000

\* the range in which sums and means are computed
Small(x) == x > -300000000 /\ x < 300000000

CountOf(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
BagLeq(a, b) == \A x \in RangeOf(a) : CountOf(a, x) <= CountOf(b, x)
SameBag(a, b) == Len(a) = Len(b) /\ BagLeq(a, b)

\* Is `cell' a right value of the aggregate over the bag `sols'?
AggOk(T, a, sols, cell) ==
  LET vals == Dedup(Vals(sols, a.v), a.d)
  IN CASE a.f = "var"   -> Len(vals) > 0 /\ cell = vals[1]
       [] a.f = "count" -> cell = Len(SelectSeq(vals, LAMBDA x : x # 0))
       [] a.f = "sum"   -> IF AllNums(T, vals)
                           THEN Small(cell) /\ Abs(cell - SumNums(T, vals)) <= 1 + Digits(SumNums(T, vals))
                           ELSE cell = NaN
       [] a.f = "avg"   -> IF AllNums(T, vals)
                           THEN Small(cell) /\ Abs(cell * Len(vals) - SumNums(T, vals)) <= 2 * Len(vals) + Digits(SumNums(T, vals))
                           ELSE cell = NaN
       [] a.f = "min"   -> /\ cell \in RangeOf(vals)
                           /\ \A i \in 1..Len(vals) : CmpTotal(T, cell, vals[i]) <= 0
       [] a.f = "max"   -> /\ cell \in RangeOf(vals)
                           /\ \A i \in 1..Len(vals) : CmpTotal(T, cell, vals[i]) >= 0
       [] a.f = "sample" -> cell \in RangeOf(vals)
       [] a.f = "concat" -> SameBag(cell, vals)

\* The value itself, for the aggregates that have exactly one.
AggVal(T, a, sols) ==
  LET vals == Dedup(Vals(sols, a.v), a.d)
  IN CASE a.f = "var"   -> vals[1]
       [] a.f = "count" -> Len(SelectSeq(vals, LAMBDA x : x # 0))
       [] a.f = "sum"   -> SumNums(T, vals)
       [] a.f = "avg"   -> SumNums(T, vals) \div Len(vals)
       [] a.f = "min"   -> CHOOSE x \in RangeOf(vals) : \A y \in RangeOf(vals) : CmpTotal(T, x, y) <= 0
       [] a.f = "max"   -> CHOOSE x \in RangeOf(vals) : \A y \in RangeOf(vals) : CmpTotal(T, x, y) >= 0

Exact(a) == a.f \in {"var", "count", "min", "max"}

\* The groups of a grouped query: bags of solutions, one per combination of
\* the group variables that occurs.
Groups(q, sols) ==
  LET key(s) == [c \in 1..Len(q.grp) |-> s[-q.grp[c]]]
      ks == {key(sols[i]) : i \in 1..Len(sols)}
  IN {<<k, SelectSeq(sols, LAMBDA s : key(s) = k)>> : k \in ks}

\* The value of an aggregate as a value of a variable.
AggTerm(T, a, sols) ==
  CASE a.f = "count" -> NumBase + 64 * AggVal(T, a, sols)
    [] a.f = "sum"   -> NumBase + (AggVal(T, a, sols) \div 125) * 8
    [] OTHER -> AggVal(T, a, sols)

(***************************************************************************)
(* Group patterns                                                           *)
(***************************************************************************)
RECURSIVE EvalGroup(_, _, _), EvalElems(_, _, _, _, _), EvalSub(_, _, _)

EvalElem(kb, E, nv, acc, e) ==
  CASE e.t = "bgp" -> JoinBags(acc, SetToSeq(MatchAll({Empty(nv)}, e.ts, 1, E)))
    [] e.t = "hp"  ->
         JoinBags(acc, SetToSeq({Ext(Empty(nv), <<e.s, 0, e.o>>, tr) :
            tr \in {u \in HasPred(kb, E) : /\ (e.s < 0 \/ u[1] = e.s)
                                          /\ (e.o < 0 \/ u[3] = e.o)
                                          /\ (e.s # e.o \/ u[1] = u[3])}}))
    [] e.t = "path" ->
         LET pr == SelectSeq(PathBag(e.p, E),
                      LAMBDA x : /\ (e.s < 0 \/ x[1] = e.s)
                                 /\ (e.o < 0 \/ x[2] = e.o)
                                 /\ (e.s # e.o \/ x[1] = x[2]))
         IN JoinBags(acc, [i \in 1..Len(pr) |-> Ext(Empty(nv), <<e.s, 0, e.o>>, <<pr[i][1], 0, pr[i][2]>>)])
    [] e.t = "opt" -> LeftJoinBags(acc, EvalGroup(kb, nv, e.g))
    [] e.t = "union" -> JoinBags(acc, EvalGroup(kb, nv, e.a) \o EvalGroup(kb, nv, e.b))
    [] e.t = "group" -> JoinBags(acc, EvalGroup(kb, nv, e.g))
    [] e.t = "minus" -> MinusBags(acc, EvalGroup(kb, nv, e.g))
    [] e.t = "values" ->
         JoinBags(acc, [i \in 1..Len(e.rows) |->
            [j \in 1..nv |-> IF \E m \in 1..Len(e.vs) : e.vs[m] = -j
                             THEN e.rows[i][CHOOSE m \in 1..Len(e.vs) : e.vs[m] = -j] ELSE 0]])
    [] e.t = "bind" ->
         [i \in 1..Len(acc) |-> [acc[i] EXCEPT ![-e.v] = BindVal(kb.T, e, acc[i])]]
    [] e.t = "sub" -> JoinBags(acc, EvalSub(kb, nv, e.q))

EvalElems(kb, E, nv, g, i) ==
  IF i = 0 THEN <<Empty(nv)>>
  ELSE IF g[i].t = "filter" THEN EvalElems(kb, E, nv, g, i - 1)
  ELSE EvalElem(kb, E, nv, EvalElems(kb, E, nv, g, i - 1), g[i])

EvalGroup(kb, nv, g) ==
  LET fs == {i \in 1..Len(g) : g[i].t = "filter"}
  IN SelectSeq(EvalElems(kb, kb.E, nv, g, Len(g)),
               LAMBDA s : \A i \in fs : Holds(kb.T, g[i].f, s))

\* A subquery: its groups, if it has aggregates; projection (to its variables), DISTINCT.
Project(nv, vs, sols) ==
  [i \in 1..Len(sols) |-> [j \in 1..nv |-> IF \E m \in 1..Len(vs) : vs[m] = -j THEN sols[i][j] ELSE 0]]

DistinctSeq(seq) == SetToSeq(RangeOf(seq))

GroupRows(kb, nv, q, sols) ==
  LET gs == SetToSeq(Groups(q, sols))
      outs == {q.aggs[i].out : i \in 1..Len(q.aggs)}
      agg(v) == q.aggs[CHOOSE i \in 1..Len(q.aggs) : q.aggs[i].out = v]
  IN [i \in 1..Len(gs) |->
        [j \in 1..nv |-> IF -j \in outs THEN AggTerm(kb.T, agg(-j), gs[i][2])
                         ELSE IF \E m \in 1..Len(q.grp) : q.grp[m] = -j THEN gs[i][2][1][j] ELSE 0]]

EvalSub(kb, nv, q) ==
  LET in == EvalGroup(kb, nv, q.g)
      sols == Project(nv, q.vs, IF "aggs" \in DOMAIN q THEN GroupRows(kb, nv, q, in) ELSE in)
  IN IF q.dist = 1 THEN DistinctSeq(sols) ELSE sols

\* HAVING compares a column of the select list with a number or a term.
HavingOk(T, sel, h, sols) ==
  LET a == sel[h.col]
      x == AggVal(T, a, sols)
  IN CASE a.f \in {"var", "min", "max"} -> CmpOp(h.op, CmpText(T, x, h.r))
       [] a.f = "count" -> CmpOp(h.op, x * 1000 - h.n)
       [] OTHER -> CmpOp(h.op, x - h.n)

(***************************************************************************)
(* ORDER BY: comparison of key tuples; u says where unbound values go.      *)
(* Keys are <<type, value>> with type 1 for terms, 0 for plain numbers.     *)
(***************************************************************************)
CmpKey(T, a, b, u) ==
  IF a = b THEN 0
  ELSE IF a[1] = 0 THEN (IF a[2] < b[2] THEN -1 ELSE 1)
  ELSE IF a[2] = 0 THEN u
  ELSE IF b[2] = 0 THEN -u
  ELSE CmpTotal(T, a[2], b[2])

RECURSIVE CmpKeys(_, _, _, _, _, _)
CmpKeys(T, ord, a, b, u, i) ==
  IF i > Len(ord) THEN 0
  ELSE LET c == CmpKey(T, a[i], b[i], u)
       IN IF c # 0 THEN (IF ord[i].desc = 1 THEN -c ELSE c)
          ELSE CmpKeys(T, ord, a, b, u, i + 1)

\* The reported size of the result, if it was recorded, does not count LIMIT.
SizeOk(q, n) == q.size < 0 \/ q.size = n

\* full: the rows <<key, row>> of the whole result, in any order.  The answer
\* `rows' is the slice of a sorted arrangement of them.
SliceOk(T, q, full, rows) ==
  LET n == Len(full)
      ord == q.ord  off == q.off  lim == q.lim
      len == IF off >= n THEN 0 ELSE IF lim < 0 \/ lim > n - off THEN n - off ELSE lim
  IN /\ Len(rows) = len
     /\ SizeOk(q, n)
     /\ IF Len(ord) = 0
        THEN BagLeq(rows, [i \in 1..n |-> full[i][2]])
        ELSE \E u \in {-1, 1} :
             LET srt == SortSeq(full, LAMBDA x, y : CmpKeys(T, ord, x[1], y[1], u, 1) < 0)
                 keys == {srt[off + i][1] : i \in 1..len}
             IN \A k \in keys :
                  LET pos == SelectSeq([i \in 1..len |-> i], LAMBDA i : srt[off + i][1] = k)
                  IN BagLeq([j \in 1..Len(pos) |-> rows[pos[j]]],
                            LET same == SelectSeq(full, LAMBDA x : x[1] = k)
                            IN [j \in 1..Len(same) |-> same[j][2]])

(***************************************************************************)
(* Does the answer `rows' conform to the query q?                           *)
(***************************************************************************)
PlainOk(kb, q, sols, rows) ==
  LET row(s) == [c \in 1..Len(q.sel) |-> Val(s, q.sel[c].v)]
      key(s) == [c \in 1..Len(q.ord) |-> <<1, s[-q.ord[c].v]>>]
      all == [i \in 1..Len(sols) |-> <<key(sols[i]), row(sols[i])>>]
      full == IF q.dist = 1 THEN DistinctSeq(all) ELSE all
  IN IF q.big > 0
     THEN \* a big answer is given by its size and some of its rows
          Len(full) = q.big /\ SizeOk(q, Len(full)) /\ BagLeq(rows, [i \in 1..Len(full) |-> full[i][2]])
     ELSE SliceOk(kb.T, q, full, rows)

\* Every group variable is selected: the row of a group can be found.
GroupedByKey(kb, q, gs, rows) ==
  LET col(g) == CHOOSE c \in 1..Len(q.sel) : q.sel[c].f = "var" /\ q.sel[c].v = q.grp[g]
      rowsOf(k) == SelectSeq(rows, LAMBDA r : \A g \in 1..Len(q.grp) : r[col(g)] = k[g])
  IN /\ Len(rows) = Cardinality(gs)
     /\ SizeOk(q, Cardinality(gs))
     /\ \A g \in gs :
          LET rs == rowsOf(g[1])
          IN Len(rs) = 1 /\ \A c \in 1..Len(q.sel) : AggOk(kb.T, q.sel[c], g[2], rs[1][c])

GroupedOk(kb, q, sols, rows) ==
  LET all == Groups(q, sols)
      gs == {g \in all : \A h \in 1..Len(q.having) : HavingOk(kb.T, q.sel, q.having[h], g[2])}
      keyed == \A g \in 1..Len(q.grp) : \E c \in 1..Len(q.sel) : q.sel[c].f = "var" /\ q.sel[c].v = q.grp[g]
      exact == \A c \in 1..Len(q.sel) : Exact(q.sel[c])
      gseq == SetToSeq(gs)
      row(g) == [c \in 1..Len(q.sel) |-> AggVal(kb.T, q.sel[c], g[2])]
      key(g) == [c \in 1..Len(q.ord) |->
                   <<IF q.sel[q.ord[c].col].f \in {"count", "sum", "avg"} THEN 0 ELSE 1,
                     AggVal(kb.T, q.sel[q.ord[c].col], g[2])>>]
      full == [i \in 1..Len(gseq) |-> <<key(gseq[i]), row(gseq[i])>>]
  IN IF exact
     THEN SliceOk(kb.T, q, IF q.dist = 1 THEN DistinctSeq(full) ELSE full, rows)
     ELSE keyed /\ GroupedByKey(kb, q, gs, rows)

IsGrouped(q) == Len(q.grp) > 0 \/ \E c \in 1..Len(q.sel) : q.sel[c].f # "var"

Conforms(kb, q, rows) ==
  LET sols == EvalGroup(kb, q.nv, q.g)
  IN IF IsGrouped(q) THEN GroupedOk(kb, q, sols, rows) ELSE PlainOk(kb, q, sols, rows)

(***************************************************************************)
(* A knowledge base from the description that the trace gives.              *)
(***************************************************************************)
MakeKb(r) ==
  LET lp == RangeOf(r.langPreds)
      base == [T |-> r.terms, G |-> RangeOf(r.triples), langTag |-> r.langTag,
               langPred |-> [x \in {<<y[1], y[2]>> : y \in lp} |->
                               (CHOOSE y \in lp : y[1] = x[1] /\ y[2] = x[2])[3]],
               langEnt |-> r.langEnts]
  IN base @@ [E |-> Graph(base)]
=============================================================================
