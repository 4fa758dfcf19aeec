--------------------------- MODULE SparqlGrammar ---------------------------
(***************************************************************************)
(* Which sequences of tokens are SPARQL SELECT queries.  The grammar is     *)
(* data: a table from nonterminals to expressions, and Ends gives the       *)
(* positions at which a derivation that starts at position i can end.       *)
(*                                                                          *)
(* It is that of SPARQL 1.1 for SELECT queries without GRAPH, SERVICE, blank *)
(* node lists and DESCRIBE/CONSTRUCT/ASK, with these extensions of QLever:   *)
(* solution modifiers stand in any order (each at most once, HAVING may be   *)
(* repeated), TEXTLIMIT, TEXT(?t) and SCORE(?t), *n and +n in paths,         *)
(* ORDER BY ASC((aggregate AS ?x)).  A query outside of it has to be         *)
(* rejected; a query of it may be answered or rejected as unsupported.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Tok(c) == <<"tok", c>>          \* one of the token classes in c
T1(c)  == Tok({c})
Nt(n)  == <<"nt", n>>
Sq(s)  == <<"seq", s>>
Alt(s) == <<"alt", s>>
Star(e) == <<"star", e>>
Opt(e) == <<"opt", e>>
Plus(e) == Sq(<<e, Star(e)>>)
Paren(e) == Sq(<<T1("("), e, T1(")")>>)

IriTok == Tok({"IRI", "PNAME", "PNAME_NS"})
Number == Tok({"INT", "DEC", "NEG"})
Constant == Alt(<<IriTok, Nt("literal"), Number, Tok({"true", "false"})>>)
VarOrTerm == Alt(<<T1("VAR"), Constant, T1("BNODE")>>)
AggName == Tok({"count", "sum", "avg", "min", "max", "sample", "group_concat"})

\* the modifiers: at most one each, in any order
Mods == {"groupby", "orderby", "limit", "offset", "textlimit"}

Grammar == [
  query    |-> Sq(<<Star(Sq(<<T1("prefix"), T1("PNAME_NS"), T1("IRI")>>)), Nt("select"), <<"mods">>,
                    Opt(Sq(<<T1("values"), Nt("datablock")>>))>>),
  select   |-> Sq(<<T1("select"), Opt(Tok({"distinct", "reduced"})),
                    Alt(<<T1("*"), Plus(Nt("selitem"))>>), Opt(T1("where")), Nt("group")>>),
  selitem  |-> Alt(<<T1("VAR"), Sq(<<Tok({"text", "score"}), Paren(T1("VAR"))>>),
                     Paren(Sq(<<Nt("expr"), T1("as"), T1("VAR")>>))>>),
  group    |-> Sq(<<T1("{"), Alt(<<Sq(<<Nt("select"), <<"mods">>, Opt(Sq(<<T1("values"), Nt("datablock")>>))>>),
                                   Nt("groupsub")>>), T1("}")>>),
  groupsub |-> Sq(<<Opt(Nt("triples")), Star(Sq(<<Nt("nottriples"), Opt(T1(".")), Opt(Nt("triples"))>>))>>),
  triples  |-> Sq(<<Nt("same"), Star(Sq(<<T1("."), Nt("same")>>)), Opt(T1("."))>>),
  same     |-> Sq(<<VarOrTerm, Nt("proplist")>>),
  proplist |-> Sq(<<Nt("verbobjs"), Star(Sq(<<T1(";"), Opt(Nt("verbobjs"))>>))>>),
  verbobjs |-> Sq(<<Nt("verb"), VarOrTerm, Star(Sq(<<T1(","), VarOrTerm>>))>>),
  verb     |-> Alt(<<T1("VAR"), Nt("path")>>),
  path     |-> Sq(<<Nt("pathseq"), Star(Sq(<<T1("|"), Nt("pathseq")>>))>>),
  pathseq  |-> Sq(<<Nt("pathinv"), Star(Sq(<<T1("/"), Nt("pathinv")>>))>>),
  pathinv  |-> Sq(<<Opt(T1("^")), Nt("pathprim"), Opt(Alt(<<T1("?"), Sq(<<Tok({"*", "+"}), Opt(T1("INT"))>>)>>))>>),
  pathprim |-> Alt(<<IriTok, T1("a"), Sq(<<T1("!"), Nt("pathneg")>>), Paren(Nt("path"))>>),
  pathneg  |-> Alt(<<Nt("pathone"), Paren(Opt(Sq(<<Nt("pathone"), Star(Sq(<<T1("|"), Nt("pathone")>>))>>)))>>),
  pathone  |-> Sq(<<Opt(T1("^")), Alt(<<IriTok, T1("a")>>)>>),
  nottriples |-> Alt(<<
                 Sq(<<Nt("group"), Star(Sq(<<T1("union"), Nt("group")>>))>>),
                 Sq(<<Tok({"optional", "minus"}), Nt("group")>>),
                 Sq(<<T1("filter"), Nt("constraint")>>),
                 Sq(<<T1("bind"), Paren(Sq(<<Nt("expr"), T1("as"), T1("VAR")>>))>>),
                 Sq(<<T1("values"), Nt("datablock")>>)>>),
  datablock |-> Alt(<<Sq(<<T1("VAR"), T1("{"), Star(Nt("dataval")), T1("}")>>),
                     Sq(<<Paren(Star(T1("VAR"))), T1("{"), Star(Paren(Star(Nt("dataval")))), T1("}")>>)>>),
  dataval  |-> Alt(<<Constant, T1("undef")>>),
  literal  |-> Sq(<<T1("STRING"), Opt(Alt(<<T1("LANGTAG"), Sq(<<T1("^^"), IriTok>>)>>))>>),
  constraint |-> Alt(<<Paren(Nt("expr")), Nt("call")>>),
  call     |-> Alt(<<Sq(<<Tok({"regex", "langmatches", "lang", "str", "text", "score", "prefix", "bound", "IRI", "PNAME", "PNAME_NS"}),
                          T1("("), Opt(Sq(<<Nt("expr"), Star(Sq(<<T1(","), Nt("expr")>>))>>)), T1(")")>>),
                     Sq(<<AggName, T1("("), Opt(T1("distinct")), Alt(<<Nt("expr"), T1("*")>>),
                          Opt(Sq(<<T1(";"), T1("separator"), T1("="), T1("STRING")>>)), T1(")")>>)>>),
  expr     |-> Sq(<<Nt("andexpr"), Star(Sq(<<T1("||"), Nt("andexpr")>>))>>),
  andexpr  |-> Sq(<<Nt("relexpr"), Star(Sq(<<T1("&&"), Nt("relexpr")>>))>>),
  relexpr  |-> Sq(<<Nt("arith"), Opt(Sq(<<Tok({"=", "!=", "<", "<=", ">", ">="}), Nt("arith")>>))>>),
  arith    |-> Sq(<<Nt("unary"), Star(Alt(<<Sq(<<Tok({"+", "-", "*", "/"}), Nt("unary")>>), T1("NEG")>>))>>),
  unary    |-> Sq(<<Star(Tok({"!", "+", "-"})),
                    Alt(<<Paren(Nt("expr")), Nt("call"), T1("VAR"), Constant>>)>>),
  groupby  |-> Sq(<<T1("groupby"), Plus(Alt(<<T1("VAR"), Nt("call"), Paren(Sq(<<Nt("expr"), Opt(Sq(<<T1("as"), T1("VAR")>>))>>))>>))>>),
  orderby  |-> Sq(<<T1("orderby"), Plus(Alt(<<T1("VAR"), Nt("constraint"),
                    Sq(<<Tok({"asc", "desc"}), Paren(Alt(<<Nt("expr"), Paren(Sq(<<Nt("expr"), T1("as"), T1("VAR")>>))>>))>>)>>))>>),
  having   |-> Sq(<<T1("having"), Plus(Nt("constraint"))>>),
  limit    |-> Sq(<<T1("limit"), T1("INT")>>),
  offset   |-> Sq(<<T1("offset"), T1("INT")>>),
  textlimit |-> Sq(<<T1("textlimit"), T1("INT")>>)
]

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), Closure(_, _, _, _), Modifiers(_, _, _)

\* the ends of derivations of expression e from position i of token sequence s
Ends(s, e, i) ==
  CASE e[1] = "tok"  -> IF i <= Len(s) /\ s[i] \in e[2] THEN {i + 1} ELSE {}
    [] e[1] = "nt"   -> Ends(s, Grammar[e[2]], i)
    [] e[1] = "seq"  -> EndsSeq(s, e[2], 1, {i})
    [] e[1] = "alt"  -> UNION {Ends(s, e[2][k], i) : k \in 1..Len(e[2])}
    [] e[1] = "opt"  -> {i} \cup Ends(s, e[2], i)
    [] e[1] = "star" -> Closure(s, e[2], {i}, {i})
    [] e[1] = "mods" -> Modifiers(s, i, Mods)

EndsSeq(s, es, k, from) ==
  IF k > Len(es) \/ from = {} THEN from
  ELSE EndsSeq(s, es, k + 1, UNION {Ends(s, es[k], i) : i \in from})

Closure(s, e, done, new) ==
  IF new = {} THEN done
  ELSE LET more == (UNION {Ends(s, e, i) : i \in new}) \ done
       IN  Closure(s, e, done \cup more, more)

\* left: the modifiers that were not written yet
Modifiers(s, i, left) ==
  {i} \cup
  (UNION {Modifiers(s, j, left) : j \in Ends(s, Grammar["having"], i)}) \cup
  UNION {UNION {Modifiers(s, j, left \ {m}) : j \in Ends(s, Grammar[m], i)} : m \in left}

WellFormed(s) == Len(s) + 1 \in Ends(s, Nt("query"), 1)

(***************************************************************************)
(* Judging: every line of the input has an id and its tokens.               *)
(***************************************************************************)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, good
Init == i = 1 /\ good = {}
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ good' = IF WellFormed(Trace[i].toks) THEN good \cup {Trace[i].id} ELSE good
Spec == Init /\ [][Next]_<<i, good>>
Report == i = Len(Trace) + 1 => PrintT(<<"VERDICT", good>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
