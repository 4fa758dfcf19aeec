------------------------------ MODULE MmapVec ------------------------------
(* Arrays on disk.  A state is [f |-> files, h |-> handles] where            *)
(*   a file is   [k |-> "none" | "arr" | "junk", c |-> contents]             *)
(*   a handle is [k |-> "closed" | "rw" | "ro" | "tmp" | "buf", f |-> file,  *)
(*                c |-> contents, n |-> threshold of a buffered array]       *)
(* A file that is written through a handle is "busy": what another program   *)
(* would find in it is not said until it is closed.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

File(k, c) == [k |-> k, c |-> c]
Handle(k, f, c, n) == [k |-> k, f |-> f, c |-> c, n |-> n]
Closed == Handle("closed", 0, <<>>, 0)
None == File("none", <<>>)

Rep(n, v) == [j \in 1..n |-> v]

Writing == {"rw", "tmp", "buf"}
Open(S, h) == S.h[h].k # "closed"
BusyFor(S, h, f, kinds) == \E g \in DOMAIN S.h : g # h /\ S.h[g].k \in kinds /\ S.h[g].f = f
Free(S, h, f) == ~BusyFor(S, h, f, Writing \cup {"ro"})

(* Closing keeps what was written; a temporary array takes its file along.   *)
Shut(S, h) ==
  LET x == S.h[h]
      T == [S EXCEPT !.h[h] = Closed]
  IN CASE x.k = "rw" -> [T EXCEPT !.f[x.f] = File("arr", x.c)]
       [] x.k \in {"tmp", "buf"} -> [T EXCEPT !.f[x.f] = None]
       [] OTHER -> T

(* o[1] is what is done, o[2] the handle (or file).                          *)
Openers == {"create", "range", "reuse", "view", "tmp", "buf"}
Can(S, o) ==
  CASE o[1] \in {"create", "range", "tmp", "buf"} -> Free(S, o[2], o[3])
    [] o[1] = "reuse" -> Free(S, o[2], o[3])
    [] o[1] = "view" -> ~BusyFor(S, o[2], o[3], Writing)
    [] o[1] = "junk" -> Free(S, 0, o[2])
    [] o[1] = "drop" -> TRUE
    [] o[1] = "close" -> S.h[o[2]].k \in {"closed", "rw", "ro", "tmp"}
    [] o[1] = "move" -> o[2] # o[3] /\ Open(S, o[3])
    [] o[1] \in {"own", "set"} -> S.h[o[2]].k \in Writing /\ o[3] < Len(S.h[o[2]].c)
    [] o[1] = "at" -> Open(S, o[2])
    [] o[1] \in {"resize", "reserve"} -> S.h[o[2]].k \in {"rw", "tmp"}
    [] OTHER -> S.h[o[2]].k \in Writing      \* append, clear

Contents(c, o) ==
  CASE o[1] = "append" -> c \o Rep(o[3], o[4])
    [] o[1] = "own" -> Append(c, c[o[3] + 1])
    [] o[1] = "clear" -> <<>>
    [] o[1] = "resize" -> IF o[3] <= Len(c) THEN SubSeq(c, 1, o[3]) ELSE c \o Rep(o[3] - Len(c), o[4])
    [] o[1] = "set" -> [c EXCEPT ![o[3] + 1] = o[4]]
    [] OTHER -> c        \* reserve, at

Do(S, o) ==
  LET h == o[2] IN
  CASE o[1] \in Openers ->
         LET T == Shut(S, h)
             f == o[3]
         IN (CASE o[1] \in {"create", "range"} ->
                   [T EXCEPT !.f[f] = File("arr", <<>>), !.h[h] = Handle("rw", f, Rep(o[4], o[5]), 0)]
              [] o[1] \in {"reuse", "view"} ->
                   IF T.f[f].k = "arr" THEN [T EXCEPT !.h[h] = Handle(IF o[1] = "view" THEN "ro" ELSE "rw", f, T.f[f].c, 0)]
                   ELSE T
              [] o[1] = "tmp" -> [T EXCEPT !.f[f] = File("arr", <<>>), !.h[h] = Handle("tmp", f, <<>>, 0)]
              [] o[1] = "buf" -> [T EXCEPT !.f[f] = File("arr", <<>>), !.h[h] = Handle("buf", f, <<>>, o[4])])
    [] o[1] = "junk" -> [S EXCEPT !.f[h] = File("junk", <<>>)]
    [] o[1] \in {"close", "drop"} -> Shut(S, h)
    [] o[1] = "move" -> LET x == S.h[o[3]] IN [Shut(S, h) EXCEPT !.h[h] = x, !.h[o[3]] = Closed]
    [] OTHER -> [S EXCEPT !.h[h].c = Contents(@, o)]

Answer(S, o) ==
  CASE o[1] \in {"reuse", "view"} -> IF Shut(S, o[2]).f[o[3]].k = "arr" THEN "done" ELSE "error"
    [] o[1] = "at" -> IF o[3] < Len(S.h[o[2]].c) THEN ToString(S.h[o[2]].c[o[3] + 1]) ELSE "error"
    [] OTHER -> "done"

(* What can be seen: the contents of the handles, which files there are.     *)
See(S) == [h \in DOMAIN S.h |-> S.h[h].c] \o <<[f \in DOMAIN S.f |-> IF S.f[f].k = "none" THEN 0 ELSE 1]>>
=============================================================================
