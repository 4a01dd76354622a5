----------------------------- MODULE TraceSame -----------------------------
(***************************************************************************)
(* Trace checker: the same model defined in another order and with other   *)
(* (increasing) labels reports the same results for every node and element.*)
(* loose: an increment may fail in one of them only (rounding on the yield *)
(* surface), then the increments before are compared.                      *)
(* Trace: ren: [nodes, elems] pairs [from, to] of labels,                  *)
(*   a, b: [nlab, elab, res]; res: records [step, lpf, U, r (rows per      *)
(*   node), el (rows per element: stretch, stress, force, history)]        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Fix, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, out
T == Traces[tid]
Row(labels, l) == CHOOSE i \in 1..Len(labels) : labels[i] = l
\* increasing and complete renaming
Increasing(R) == \A i, j \in 1..Len(R) : R[i][1] < R[j][1] => R[i][2] < R[j][2]
Complete(R, from, to) == ToSet([i \in 1..Len(R) |-> R[i][1]]) = ToSet(from) /\ ToSet([i \in 1..Len(R) |-> R[i][2]]) = ToSet(to) /\ Len(from) = Len(R) /\ Len(to) = Len(R)
Same(x, y) == VClose(x, y, FTen(6), FTen(7))
Rows(R, la, lb, A, B) == Len(A) = Len(la) /\ Len(B) = Len(lb) /\ \A i \in 1..Len(R) : Same(A[Row(la, R[i][1])], B[Row(lb, R[i][2])])
\* the increments both must have in common
Case(R, s) == SelectSeq(R, LAMBDA x : x.step = s)
Together(n) == n <= Len(T.a.res) /\ n <= Len(T.b.res) /\ T.a.res[n].step = T.b.res[n].step
Common == IF ~T.loose THEN Len(T.a.res)
          ELSE CHOOSE n \in 1..Len(T.a.res) : (\A i \in 1..n : Together(i)) /\ ~Together(n + 1)
Verdict ==
  LET a == T.a b == T.b C == Common N == T.ren.nodes E == T.ren.elems IN
  IF ~Increasing(N) \/ ~Increasing(E) THEN "machinery-renaming"
  ELSE IF ~Complete(N, a.nlab, b.nlab) \/ ~Complete(E, a.elab, b.elab) THEN "same-labels"
  ELSE IF ~\A i \in 2..Len(a.nlab) : a.nlab[i] > a.nlab[i - 1] THEN "sorted-nodes"
  ELSE IF ~\A i \in 2..Len(b.nlab) : b.nlab[i] > b.nlab[i - 1] THEN "sorted-nodes"
  ELSE IF a.dof1 # b.dof1 \/ a.dof0 # b.dof0 THEN "same-dofs"
  ELSE IF ~T.loose /\ Len(a.res) # Len(b.res) THEN "same-count"
  ELSE IF \E i \in 1..C : a.res[i].step # b.res[i].step \/ ~Same(<<a.res[i].lpf>>, <<b.res[i].lpf>>) THEN "same-factor"
  ELSE IF \E i \in 1..C : ~Rows(N, a.nlab, b.nlab, a.res[i].U, b.res[i].U) THEN "same-displacements"
  ELSE IF \E i \in 1..C : ~Rows(N, a.nlab, b.nlab, a.res[i].r, b.res[i].r) THEN "same-forces"
  ELSE IF \E i \in 1..C : ~Rows(N, a.nlab, b.nlab, a.res[i].f, b.res[i].f) THEN "same-loads"
  ELSE IF \E i \in 1..C : ~Rows(E, a.elab, b.elab, a.res[i].el, b.res[i].el) THEN "same-elements"
  ELSE "ok"
Init == tid \in 1..Len(Traces) /\ out = ""
Next == out = "" /\ out' = Verdict /\ PrintT("VERDICT|" \o T.id \o "|0|" \o out') /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, out>>
=============================================================================
