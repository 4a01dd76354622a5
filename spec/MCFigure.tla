----------------------------- MODULE MCFigure -----------------------------
(* State machine of drawing: laws of curves on small records and of axes;   *)
(* generation of sessions of drawing.                                       *)
EXTENDS Figure, SequencesExt, FiniteSets, Json, Randomization
CONSTANTS Depth, Nodes, GEN
VARIABLES A, ops, res, done
vars == <<A, ops, res, done>>
Pick(X) == IF GEN /\ X # {} THEN RandomSubset(1, X) ELSE X
Rare(p) == ~GEN \/ RandomElement(1..p) = 1
Q == [k : {"U", "F"}, c : IF GEN THEN 1..3 ELSE {1, 3}] \cup [k : {"L", "I"}, c : {1}] \cup [k : {"S"}, c : 1..2]
\* the model checker draws only a few of them (the laws hold for all)
Few(X, Y) == IF GEN THEN RandomSubset(1, X) ELSE Y
PQ == {q \in Q : q.k # "I"}
\* small records: everything different
Rec(i) == [step |-> 1, lpf |-> FNum(i), U |-> [n \in 1..Nodes |-> [c \in 1..3 |-> FNum(100 * i + 10 * n + c)]], r |-> [n \in 1..Nodes |-> [c \in 1..3 |-> FNum(1000 * i + 10 * n + c)]],
           sv |-> [n \in 1..Nodes |-> [c \in 1..2 |-> FNum(5000 * i + 10 * n + c)]]]
Curves == {t \in 1..Len(A) : A[t][1].k \in {"hist", "path"}}
Init == A = <<>> /\ ops = <<>> /\ res = (IF GEN THEN <<>> ELSE [i \in 1..3 |-> Rec(i - 1)]) /\ done = FALSE
\* only the generator chooses the details of a model drawing
View == {"xz", "xy", "yz", "3d"}
Do(o) == A' = Drawn(A, o, o) /\ ops' = Append(ops, o) /\ UNCHANGED <<res, done>>
Targets == {0} \cup Curves
Next ==
  \/ /\ Len(ops) < Depth
     /\ \/ \E x \in Few(Q, {[k |-> "U", c |-> 1], [k |-> "I", c |-> 1]}), y \in Few(Q, {[k |-> "L", c |-> 1]}), a \in Pick(1..Nodes), b \in Pick(1..Nodes), t \in Pick(Targets) : Do([k |-> "hist", t |-> t, x |-> x, y |-> y, a |-> a, b |-> b])
        \/ \E q \in Few(PQ, {[k |-> "S", c |-> 2]}), w \in Few({"list", "range", "reverse"}, {"list"}), n \in Pick(1..Nodes), i \in Few(-3..3, {-1, 1}), t \in Pick(Targets) : Do([k |-> "path", t |-> t, q |-> q, w |-> w, n |-> n, i |-> i])
        \/ (GEN \/ Len(A) < 2) /\ \E v \in Pick(IF GEN THEN View ELSE {"xz"}), c \in Pick(IF GEN THEN {"", "stretch", "force", "stress"} ELSE {""}), m \in Pick(IF GEN THEN {"auto", "limits", "tuple"} ELSE {"auto"}), i \in Pick(IF GEN THEN -4..9 ELSE {0}), f \in Few(1..4, {1}), l \in Few(1..6, {1}) :
             Do([k |-> "model", v |-> v, c |-> c, m |-> m, i |-> i, f |-> f, l |-> l])
        \/ Rare(2) /\ \E p \in Pick({"nodes", "elements", "extforces"}), d \in Pick(BOOLEAN) : GEN /\ Do([k |-> "part", p |-> p, d |-> d])
  \/ GEN /\ Len(ops) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<A, ops, res>> /\ PrintT("FIG|" \o ToJson(ops))
Spec == Init /\ [][Next]_vars

\* what has been drawn stays, and at most one axes changes
Kept == [][\A t \in 1..Len(A) : t <= Len(A') /\ IsPrefix(A[t], A'[t])]_vars
OneOnly == [][Cardinality({t \in 1..Len(A) : A[t] # A'[t]}) + (Len(A') - Len(A)) <= 1]_vars
ResultsKept == [][res' = res]_vars
\* laws of the curves: a curve of fewer increments is a prefix; different labels or components give different curves; paths compose
Laws == \A q \in Q : \A p \in 1..Nodes :
   LET h == HistoryCurve(res, q, p)
   IN /\ Len(h) = Len(res) + 1 /\ h[1] = FZero
      /\ IsPrefix(HistoryCurve(Front(res), q, p), h)
      /\ q.k \in {"U", "F", "S"} => \A p2 \in 1..Nodes \ {p} : HistoryCurve(res, q, p2) # h
      /\ q.k # "I" => \A i \in 1..Len(res) : PathCurve(res[i], q, <<p>>)[1] = h[i + 1]
      /\ q.k # "I" => \A i \in 1..Len(res) : RecordOf(res, i - 1) = i /\ RecordOf(res, i - 1 - Len(res)) = i
=============================================================================
