------------------------------ MODULE Figure ------------------------------
(***************************************************************************)
(* What figures show of the results of a run: history curves, path curves, *)
(* model drawings.  Records are [step, lpf, U, r, lam, s, N, sv, fc], the  *)
(* first one is the undeformed state.  A quantity is [k, c]: component c   *)
(* of the displacement "U" or internal force "F" of a node, load factor    *)
(* "L", state variable c "S" of an element, number of the increment "I".   *)
(***************************************************************************)
EXTENDS Fix

Quantity(R, q, p) ==
  CASE q.k = "U" -> R.U[p][q.c]
    [] q.k = "F" -> R.r[p][q.c]
    [] q.k = "L" -> R.lpf
    [] q.k = "S" -> R.sv[p][q.c]
\* a zero point, then one point per record
HistoryCurve(res, q, p) ==
  IF q.k = "I" THEN [i \in 1..(Len(res) + 1) |-> FNum(i - 1)]
  ELSE <<FZero>> \o [i \in 1..Len(res) |-> Quantity(res[i], q, p)]
PathCurve(R, q, path) == [i \in 1..Len(path) |-> Quantity(R, q, path[i])]

\* numbers of increments: 0 is the undeformed state, negative ones count from the end
RecordOf(res, inc) == IF inc < 0 THEN Len(res) + inc + 1 ELSE inc + 1

\* the axes of a view
Axes(view) == CASE view = "xz" -> <<1, 3>> [] view = "xy" -> <<1, 2>> [] view = "yz" -> <<2, 3>> [] view = "3d" -> <<1, 2, 3>>
Seen(x, view) == [i \in 1..Len(Axes(view)) |-> x[Axes(view)[i]]]
Positions(X, U) == [n \in 1..Len(X) |-> VAdd(X[n], U[n])]
\* the load acting in an increment; the undeformed model shows the loads of the first load case
ActingLoad(R, F, first) == [n \in 1..Len(F[1]) |-> IF first THEN F[1][n] ELSE VAdd(R.fc[n], VScale(R.lpf, F[R.step][n]))]
\* arrows: one per non-zero visible component, [p, d]
ArrowDir(view, i, f, scale) == [j \in 1..Len(Axes(view)) |-> IF j = i THEN FMul(scale, f[Axes(view)[i]]) ELSE FZero]

ContourValue(R, name, e) == CASE name = "stretch" -> R.lam[e] [] name = "force" -> R.N[e] [] name = "stress" -> R.s[e]
AutoLimits(R, name, NE) ==
  IF name = "stretch" THEN LET m == FMaxSeq([e \in 1..NE |-> FSub(R.lam[e], FOne)]) IN <<FSub(FOne, m), FAdd(FOne, m)>>
  ELSE LET m == FMaxSeq([e \in 1..NE |-> ContourValue(R, name, e)]) IN <<FNeg(m), m>>
\* colours of a colour bar with n bins from lo to hi: 0..n-1, n above, -1 below; at boundaries both neighbours will do
ColourOk(c, v, lo, hi, n) ==
  LET w == FSub(hi, lo)
      eps == FAdd(FTen(12), FMul(FTen(9), w))
      edge(i) == FAdd(lo, FDivInt(FMulInt(w, i), n))
  IN IF c < 0 THEN FLe(v, FAdd(lo, eps))
     ELSE IF c >= n THEN FLe(FSub(hi, eps), v)
     ELSE FLe(FSub(edge(c), eps), v) /\ FLe(v, FAdd(edge(c + 1), eps))

----------------------------------------------------------------------------
\* sessions of drawing: axes with curves (or a model drawing), never changed except by adding
NewAxes(A, c) == Append(A, <<c>>)
Into(A, t, c) == [A EXCEPT ![t] = Append(@, c)]
Drawn(A, o, c) == IF o.k \in {"hist", "path"} /\ o.t # 0 THEN Into(A, o.t, c) ELSE NewAxes(A, c)
Where(A, o) == IF o.k \in {"hist", "path"} /\ o.t # 0 THEN o.t ELSE Len(A) + 1
=============================================================================
