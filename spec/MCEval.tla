------------------------------ MODULE MCEval ------------------------------
(***************************************************************************)
(* Orders of evaluations of a built model: equilibrium ("G"), stiffness    *)
(* ("K"), full stiffness ("F"), directional derivative ("D") and committing*)
(* equilibrium ("W") at one of Points displacement vectors.  The committed *)
(* history is a function of the committed points only, and the answer of   *)
(* an evaluation is a function of the point and the committed history.     *)
(* Behaviours are printed and replayed into the real model.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json
CONSTANTS Points, Depth, GEN
VARIABLES ops, hist, seen
vars == <<ops, hist, seen>>
Kinds == {"G", "K", "F", "D", "W"}
Init == ops = <<>> /\ hist = <<>> /\ seen = {}
\* what an evaluation may depend on
Answer(o, h) == <<o.k, o.p, h>>
Do(o) == /\ ops' = Append(ops, o)
         /\ hist' = IF o.k = "W" THEN Append(hist, o.p) ELSE hist
         /\ seen' = seen \cup {[n |-> Len(ops) + 1, a |-> Answer(o, hist)]}
Emit == GEN /\ Len(ops) = Depth /\ seen # {} /\ seen' = {} /\ PrintT("OPS|" \o ToJson(ops)) /\ UNCHANGED <<ops, hist>>
Next == Emit \/ (Len(ops) < Depth /\ \E k \in Kinds, p \in Points : Do([k |-> k, p |-> p]))
Spec == Init /\ [][Next]_vars
Commits == SelectSeq(ops, LAMBDA o : o.k = "W")
HistoryIsCommits == hist = [i \in 1..Len(Commits) |-> Commits[i].p]
\* two evaluations of the same kind at the same point agree unless something was committed in between
Pure == \A r, s \in seen : (r.n < s.n /\ ops[r.n] = ops[s.n]
                            /\ \A q \in r.n..(s.n - 1) : ops[q].k # "W") => r.a = s.a
=============================================================================
