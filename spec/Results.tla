------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* The book of results: a sequence of records, each of which is a snapshot *)
(* of what it was made from.  A record is [f, v, p]: the load factor it    *)
(* was given, the value of its arrays (-1: not built) and the force it     *)
(* carries (-1: none).  The analysis `src` and the forces `frc` a record   *)
(* is made from go on changing; so do the arrays of records themselves.    *)
(* Operations (sequences): see Apply.                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Empty == [recs |-> <<>>, src |-> 1, frc |-> 1]
Last(b) == b.recs[Len(b.recs)]
\* the result of an operation: [b, ok]
Apply(b, o) ==
  LET done(x) == [b |-> x, ok |-> TRUE]
      refused == [b |-> b, ok |-> FALSE]
      n == Len(b.recs)
  IN CASE o[1] = "add" -> done([b EXCEPT !.recs = Append(@, [f |-> o[2], v |-> b.src, p |-> -1])])
       [] o[1] = "addf" -> done([b EXCEPT !.recs = Append(@, [f |-> o[2], v |-> b.src, p |-> b.frc])])
       [] o[1] = "blank" -> done([b EXCEPT !.recs = Append(@, [f |-> o[2], v |-> -1, p |-> -1])])
       [] o[1] = "copy" -> done([b EXCEPT !.recs = Append(@, Last(b))])
       [] o[1] = "remove" -> done([b EXCEPT !.recs = SubSeq(@, 1, n - 1)])
       [] o[1] = "first" -> done([b EXCEPT !.recs = <<@[1]>> \o @])
       [] o[1] = "build" -> IF Last(b).v = -1 THEN done([b EXCEPT !.recs[n].v = 0]) ELSE refused
       [] o[1] = "touch" -> done([b EXCEPT !.recs[o[2]].v = o[3]])
       [] o[1] = "force" -> done([b EXCEPT !.recs[o[2]].p = o[3]])
       [] o[1] = "src" -> done([b EXCEPT !.src = o[2]])
       [] o[1] = "frc" -> done([b EXCEPT !.frc = o[2]])
Enabled(b, o) ==
  LET n == Len(b.recs)
  IN CASE o[1] \in {"copy", "remove", "first", "build"} -> n > 0
       [] o[1] = "touch" -> o[2] <= n /\ (o[2] <= n => b.recs[o[2]].v # -1)
       [] o[1] = "force" -> o[2] <= n /\ (o[2] <= n => b.recs[o[2]].p # -1)
       [] OTHER -> TRUE
=============================================================================
