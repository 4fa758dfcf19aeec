------------------------------- MODULE Values -------------------------------
(* Numbers and dates as they are written, the values they denote and their  *)
(* order.                                                                    *)
(*   number  [k: 3, neg, int, frac: sequences of digits, exp, typ]           *)
(*   date    [k: 2, neg, int: digits of the year, rest: <<month, day, hour,  *)
(*           minute, second>> (0: not given)]                                *)
(* The digits are compared one by one: no arithmetic that could round.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE SkipZeros(_)
SkipZeros(d) == IF d = <<>> THEN d ELSE IF Head(d) = 0 THEN SkipZeros(Tail(d)) ELSE d
RECURSIVE CutZeros(_)
CutZeros(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN CutZeros(SubSeq(d, 1, Len(d) - 1)) ELSE d

(* sign, power of ten of the first digit, digits without zeros around them *)
Norm(x) ==
  LET all == x.int \o x.frac
      sig == SkipZeros(all)
      m == CutZeros(sig)
  IN IF m = <<>> THEN [sg |-> 0, e |-> 0, m |-> <<>>]
     ELSE [sg |-> IF x.neg = 1 THEN -1 ELSE 1,
           e |-> Len(x.int) - (Len(all) - Len(sig)) - 1 + (IF x.k = 3 THEN x.exp ELSE 0),
           m |-> m]

RECURSIVE Lex(_, _)
Lex(a, b) ==
  IF a = b THEN 0
  ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
  ELSE IF Head(a) # Head(b) THEN (IF Head(a) < Head(b) THEN -1 ELSE 1)
  ELSE Lex(Tail(a), Tail(b))

Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

CmpNum(a, b) ==
  LET x == Norm(a)  y == Norm(b)
  IN IF x.sg # y.sg THEN Sign(x.sg - y.sg)
     ELSE x.sg * (IF x.e # y.e THEN Sign(x.e - y.e) ELSE Lex(x.m, y.m))

(* Years are numbers; the rest counts forward also before the year 0. *)
Year(d) == [k |-> 3, neg |-> d.neg, int |-> d.int, frac |-> <<>>, exp |-> 0]
CmpDate(a, b) ==
  LET c == CmpNum(Year(a), Year(b)) IN IF c # 0 THEN c ELSE Lex(a.rest, b.rest)

Cmp(a, b) == IF a.k # b.k THEN Sign(a.k - b.k) ELSE IF a.k = 3 THEN CmpNum(a, b) ELSE CmpDate(a, b)

(* The same value and the same type: the same term. *)
Same(a, b) == a.k = b.k /\ Cmp(a, b) = 0 /\ (a.k = 3 => a.typ = b.typ)

(* Equal numbers of different types: not equal, in either order. *)
Open(a, b) == Cmp(a, b) = 0 /\ ~Same(a, b)

Op(op, a, b) ==
  LET c == Cmp(a, b)
  IN CASE op = "eq" -> Same(a, b)
       [] op = "ne" -> ~Same(a, b)
       [] op = "lt" -> c < 0
       [] op = "le" -> c <= 0
       [] op = "gt" -> c > 0
       [] op = "ge" -> c >= 0
Fixed(op, a, b) == op \in {"eq", "ne"} \/ ~Open(a, b)

(* A float close to the value: six digits. *)
RECURSIVE Lead(_, _)
Lead(m, n) == IF n = 0 THEN 0 ELSE Lead(m, n - 1) * 10 + (IF n <= Len(m) THEN m[n] ELSE 0)
Near(a, b) ==
  LET x == Norm(a)  y == Norm(b)
      p == Lead(x.m, 6)  q == Lead(y.m, 6)
      d == IF x.e = y.e THEN p - q ELSE IF x.e = y.e + 1 THEN p * 10 - q ELSE IF y.e = x.e + 1 THEN q * 10 - p ELSE 1000000
  IN x.sg = y.sg /\ (x.sg = 0 \/ (d <= 20 /\ d >= -20))
=============================================================================
