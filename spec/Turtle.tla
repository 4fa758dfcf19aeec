------------------------------- MODULE Turtle -------------------------------
(* Turtle: from the tokens of a document to the triples it denotes.  A token *)
(* is [k, v, w] where v and w hold its characters (code points) as they are  *)
(* written, without the quotes, brackets and colons that tell its kind:      *)
(*   @prefix PREFIX @base BASE  ns v:  iri <v>  pn v:w  bl _:v  anon []      *)
(*   [ ] a ; , . ^^   str "v" (any quotes)  lang @v  num v  bool v           *)
(* A term is [k, v, lang, typ]; in numbers v is the value (sign, power of    *)
(* ten, digits), so that the way of writing does not matter.                 *)
EXTENDS Values

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chars(s) == [j \in 1..Len(s) |-> 31 + CHOOSE n \in 1..95 : SubSeq(Ascii, n, n) = SubSeq(s, j, j)]

Backslash == 92
RdfType == Chars("http://www.w3.org/1999/02/22-rdf-syntax-ns#type")
Xsd == Chars("http://www.w3.org/2001/XMLSchema#")
Whole == Xsd \o Chars("integer")
WholeToo == Xsd \o Chars("int")
Dec == Xsd \o Chars("decimal")
Dbl == Xsd \o Chars("double")
Flt == Xsd \o Chars("float")
Boolean == Xsd \o Chars("boolean")
IntChar == 105

(***************************************************************************)
(* Characters                                                              *)
(***************************************************************************)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RECURSIVE HexVal(_, _)
HexVal(s, acc) == IF s = <<>> THEN acc ELSE HexVal(Tail(s), 16 * acc + Hex(Head(s)))

(* t b n r f and the characters that stand for themselves *)
Escape(c) == CASE c = 116 -> 9 [] c = 98 -> 8 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 102 -> 12 [] OTHER -> c

RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) # Backslash THEN <<Head(s)>> \o Unescape(Tail(s))
  ELSE IF s[2] = 117 THEN <<HexVal(SubSeq(s, 3, 6), 0)>> \o Unescape(SubSeq(s, 7, Len(s)))
  ELSE IF s[2] = 85 THEN <<HexVal(SubSeq(s, 3, 10), 0)>> \o Unescape(SubSeq(s, 11, Len(s)))
  ELSE <<Escape(s[2])>> \o Unescape(SubSeq(s, 3, Len(s)))

(* In a prefixed name a backslash only protects the next character, and  *)
(* %41 stays %41.                                                        *)
RECURSIVE Local(_)
Local(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) = Backslash THEN <<s[2]>> \o Local(SubSeq(s, 3, Len(s)))
  ELSE <<Head(s)>> \o Local(Tail(s))

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
RECURSIVE DecVal(_, _)
DecVal(s, acc) == IF s = <<>> THEN acc ELSE DecVal(Tail(s), 10 * acc + Head(s) - 48)
At(s, S) == {j \in 1..Len(s) : s[j] \in S}
Digits(s) == [j \in 1..Len(s) |-> s[j] - 48]
Number(s) ==
  LET e == At(s, {69, 101})
      pe == IF e = {} THEN Len(s) + 1 ELSE CHOOSE j \in e : TRUE
      man == SubSeq(s, 1, pe - 1)
      ex == SubSeq(s, pe + 1, Len(s))
      signed == man # <<>> /\ Head(man) \in {43, 45}
      m == IF signed THEN Tail(man) ELSE man
      d == At(m, {46})
      pd == IF d = {} THEN Len(m) + 1 ELSE CHOOSE j \in d : TRUE
      xs == ex # <<>> /\ Head(ex) \in {43, 45}
      xv == DecVal(IF xs THEN Tail(ex) ELSE ex, 0)
  IN [k |-> 3, neg |-> IF signed /\ Head(man) = 45 THEN 1 ELSE 0,
      int |-> Digits(SubSeq(m, 1, pd - 1)), frac |-> Digits(SubSeq(m, pd + 1, Len(m))),
      exp |-> IF xs /\ Head(ex) = 45 THEN -xv ELSE xv]
IsNumber(s) ==
  /\ s # <<>>
  /\ \A j \in 1..Len(s) : s[j] \in 48..57 \/ s[j] \in {43, 45, 46, 69, 101}
  /\ \E j \in 1..Len(s) : s[j] \in 48..57
NumType(s) == IF At(s, {69, 101}) # {} THEN Dbl ELSE IF At(s, {46}) # {} THEN Dec ELSE Whole

(***************************************************************************)
(* Terms                                                                   *)
(***************************************************************************)
Iri(s) == [k |-> "iri", v |-> s, lang |-> <<>>, typ |-> <<>>]
Node(s) == [k |-> "bn", v |-> s, lang |-> <<>>, typ |-> <<>>]
Lit(s, lang, typ) ==
  IF typ \in {Whole, WholeToo, Dec, Dbl, Flt} /\ IsNumber(s)
  THEN LET n == Norm(Number(s))
       IN [k |-> "num", v |-> <<n.sg, n.e>> \o n.m, lang |-> <<>>, typ |-> IF typ = WholeToo THEN Whole ELSE typ]
  ELSE [k |-> "lit", v |-> s, lang |-> lang, typ |-> typ]
Term(x) == IF x.k = "iri" THEN Iri(x.v) ELSE IF x.k = "bn" THEN Node(x.v) ELSE Lit(x.v, x.lang, x.typ)

(***************************************************************************)
(* The machine.  c: what may come next; s, p: current subject and          *)
(* predicate; up: the <<s, p, place>> around the open [ ; px: prefixes;    *)
(* lit: the string that waits for its language or type; T: the triples.    *)
(***************************************************************************)
None == Iri(<<>>)
Empty == [c |-> "statement", s |-> None, p |-> None, up |-> <<>>, px |-> <<>>, ns |-> <<>>, lit |-> <<>>,
          n |-> 0, T |-> {}]

Ill(st) == [st EXCEPT !.c = "ill-formed"]
To(st, c) == [st EXCEPT !.c = c]

Known(st, pre) == pre \in DOMAIN st.px
Expand(st, t) == IF t.k = "iri" THEN Unescape(t.v) ELSE st.px[t.v] \o Local(t.w)
Names(st, t) == t.k = "iri" \/ (t.k = "pn" /\ Known(st, t.v))

Say(st, o) == [st EXCEPT !.T = @ \cup {<<st.s, st.p, o>>}, !.c = "after object"]
(* No label a document can use is negative. *)
Fresh(st) == Node(<<-1, st.n>>)
Spend(st) == [st EXCEPT !.n = @ + 1]

Subject(st, t) ==
  CASE Names(st, t) -> [st EXCEPT !.s = Iri(Expand(st, t)), !.c = "verb"]
    [] t.k = "bl" -> [st EXCEPT !.s = Node(t.v), !.c = "verb"]
    [] t.k = "anon" -> [Spend(st) EXCEPT !.s = Fresh(st), !.c = "verb"]
    [] t.k = "[" -> [Spend(st) EXCEPT !.up = Append(@, <<Fresh(st), None, "subject">>), !.s = Fresh(st), !.c = "verb"]
    [] OTHER -> Ill(st)

Verb(st, t) ==
  CASE Names(st, t) -> [st EXCEPT !.p = Iri(Expand(st, t)), !.c = "object"]
    [] t.k = "a" -> [st EXCEPT !.p = Iri(RdfType), !.c = "object"]
    [] OTHER -> Ill(st)

Object(st, t) ==
  CASE Names(st, t) -> Say(st, Iri(Expand(st, t)))
    [] t.k = "bl" -> Say(st, Node(t.v))
    [] t.k = "anon" -> Say(Spend(st), Fresh(st))
    [] t.k = "num" -> Say(st, Lit(t.v, <<>>, NumType(t.v)))
    [] t.k = "bool" -> Say(st, Lit(t.v, <<>>, Boolean))
    [] t.k = "str" -> [st EXCEPT !.lit = Unescape(t.v), !.c = "after string"]
    [] t.k = "[" -> [Say(Spend(st), Fresh(st)) EXCEPT !.up = Append(@, <<st.s, st.p, "object">>), !.s = Fresh(st), !.c = "verb"]
    [] OTHER -> Ill(st)

Close(st) ==
  LET u == st.up[Len(st.up)]
      out == [st EXCEPT !.up = SubSeq(@, 1, Len(@) - 1), !.s = u[1], !.p = u[2]]
  IN To(out, IF u[3] = "subject" THEN "after subject" ELSE "after object")

AfterObject(st, t) ==
  CASE t.k = "," -> To(st, "object")
    [] t.k = ";" -> To(st, "next verb")
    [] t.k = "." /\ st.up = <<>> -> To(st, "statement")
    [] t.k = "]" /\ st.up # <<>> -> Close(st)
    [] OTHER -> Ill(st)

Step(st, t) ==
  CASE st.c = "statement" ->
         (IF t.k \in {"@prefix", "PREFIX", "@base", "BASE"} THEN To(st, t.k) ELSE Subject(st, t))
    [] st.c \in {"@prefix", "PREFIX"} ->
         (IF t.k = "ns" THEN [st EXCEPT !.ns = t.v, !.c = IF st.c = "PREFIX" THEN "PREFIX iri" ELSE "@prefix iri"] ELSE Ill(st))
    [] st.c \in {"@prefix iri", "PREFIX iri"} ->
         (IF t.k = "iri"
          THEN [st EXCEPT !.px = [x \in DOMAIN @ \cup {st.ns} |-> IF x = st.ns THEN Unescape(t.v) ELSE @[x]],
                          !.c = IF st.c = "PREFIX iri" THEN "statement" ELSE "dot"]
          ELSE Ill(st))
    [] st.c = "@base" -> (IF t.k = "iri" THEN To(st, "dot") ELSE Ill(st))
    [] st.c = "BASE" -> (IF t.k = "iri" THEN To(st, "statement") ELSE Ill(st))
    [] st.c = "dot" -> (IF t.k = "." THEN To(st, "statement") ELSE Ill(st))
    [] st.c = "verb" -> Verb(st, t)
    [] st.c = "object" -> Object(st, t)
    [] st.c = "after object" -> AfterObject(st, t)
    [] st.c = "after string" ->
         (CASE t.k = "lang" -> Say(st, Lit(st.lit, t.v, <<>>))
            [] t.k = "^^" -> To(st, "type")
            [] OTHER -> AfterObject(Say(st, Lit(st.lit, <<>>, <<>>)), t))
    [] st.c = "type" -> (IF Names(st, t) THEN Say(st, Lit(st.lit, <<>>, Expand(st, t))) ELSE Ill(st))
    [] st.c = "next verb" ->
         (IF t.k = ";" THEN st ELSE IF t.k \in {".", "]"} THEN AfterObject(st, t) ELSE Verb(st, t))
    [] st.c = "after subject" -> (IF t.k = "." THEN To(st, "statement") ELSE Verb(st, t))
    [] OTHER -> Ill(st)

(***************************************************************************)
(* Two sets of triples are the same but for the names of the blank nodes.  *)
(***************************************************************************)
Nodes(T) == {x \in UNION {{t[1], t[3]} : t \in T} : x.k = "bn"}
Mask(x) == IF x.k = "bn" THEN Node(<<>>) ELSE x
Around(T, b) == {<<IF t[1] = b THEN Node(<<0>>) ELSE Mask(t[1]), t[2], IF t[3] = b THEN Node(<<0>>) ELSE Mask(t[3])>> :
                  t \in {u \in T : u[1] = b \/ u[3] = b}}
Ground(T) == {t \in T : t[1].k # "bn" /\ t[3].k # "bn"}
Rename(T, f) == {<<IF t[1] \in DOMAIN f THEN f[t[1]] ELSE t[1], t[2], IF t[3] \in DOMAIN f THEN f[t[3]] ELSE t[3]>> : t \in T}
RECURSIVE Match(_, _, _, _, _, _)
Match(A, B, SA, SB, todo, f) ==
  IF todo = {} THEN Rename(A, f) = B
  ELSE LET b == CHOOSE x \in todo : TRUE
       IN \E c \in DOMAIN SB \ {f[x] : x \in DOMAIN f} :
            /\ SA[b] = SB[c]
            /\ Match(A, B, SA, SB, todo \ {b}, [x \in DOMAIN f \cup {b} |-> IF x = b THEN c ELSE f[x]])
SameGraph(A, B) ==
  /\ Cardinality(A) = Cardinality(B)
  /\ Ground(A) = Ground(B)
  /\ LET na == Nodes(A)  nb == Nodes(B)
         SA == [x \in na |-> Around(A, x)]  SB == [x \in nb |-> Around(B, x)]
     IN Cardinality(na) = Cardinality(nb) /\ Match(A, B, SA, SB, na, <<>>)
=============================================================================
