---------------------------- MODULE TraceFigure ----------------------------
(***************************************************************************)
(* Trace checker: a session of drawing the results of a real model.        *)
(* Trace: res (records), X, F (loads per load case), conns (positions of   *)
(* the nodes of each element), curves (table of all curves seen, [x, y]),  *)
(* ops: sequence of [o, how, obs].  obs: axes (what is in each axes known  *)
(* so far: numbers of curves, or minus the fingerprint of a drawing), ret  *)
(* (axes returned, 0: unknown axes), xl, yl (axis labels), xt (tick        *)
(* labels), kept (results are untouched), draw: what a drawing consists of *)
(*   nodes, segs [p, q, z, c], arrows [p, d], cb [on, lo, hi, n],          *)
(*   lim (axis limits), title (numbers in the title)                       *)
(***************************************************************************)
EXTENDS Figure, SequencesExt, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, A, out
vars == <<tid, k, A, out>>
T == Traces[tid]
E == T.ops[k]
O == E.obs
NE == Len(T.conns)
Stop(c) == PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o c) /\ out' = c /\ UNCHANGED <<tid, k, A>>
Init == tid \in 1..Len(Traces) /\ k = 1 /\ A = <<>> /\ out = ""

Close(a, b) == FNear(a, b, FTen(12))
SameSeq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i])
\* names of the quantities
Name(q) == CASE q.k = "U" -> "Displacement " \o <<"X", "Y", "Z">>[q.c] [] q.k = "F" -> "Force " \o <<"X", "Y", "Z">>[q.c]
             [] q.k = "L" -> "LPF" [] q.k = "I" -> "Increments" [] q.k = "S" -> "State Variable " \o ToString(q.c)

Curve == T.curves[Last(O.axes[Where(A, E.o)])]
HistBroken(o) ==
  IF ~SameSeq(Curve.x, HistoryCurve(T.res, o.x, o.a)) THEN "history-x"
  ELSE IF ~SameSeq(Curve.y, HistoryCurve(T.res, o.y, o.b)) THEN "history-y"
  ELSE IF O.xl # Name(o.x) \/ O.yl # Name(o.y) THEN "history-axis-names"
  ELSE ""
PathBroken(o) ==
  LET R == T.res[RecordOf(T.res, o.i)] IN
  IF ~SameSeq(Curve.y, PathCurve(R, o.q, o.pos)) THEN "path-y"
  \* along the labels themselves (a range), or one after the other with the labels as ticks
  ELSE IF ~(\/ SameSeq(Curve.x, [i \in 1..Len(o.lab) |-> FNum(o.lab[i])])
            \/ (SameSeq(Curve.x, [i \in 1..Len(o.lab) |-> FNum(i - 1)]) /\ O.xt = o.lab)) THEN "path-x"
  ELSE IF O.yl # Name(o.q) THEN "path-axis-names"
  ELSE ""

----------------------------------------------------------------------------
\* model drawings
D == O.draw
Loc(p, q) == LET tol == FAdd(FTen(9), FMul(FTen(9), FMaxSeq(q))) IN VNear(p, q, tol)
Covers(P, Q) == (\A i \in 1..Len(P) : \E j \in 1..Len(Q) : Loc(Q[j], P[i])) /\ (\A j \in 1..Len(Q) : \E i \in 1..Len(P) : Loc(Q[j], P[i]))
Joins(s, a, b) == (Loc(s.p, a) /\ Loc(s.q, b)) \/ (Loc(s.p, b) /\ Loc(s.q, a))
NodesOk(view, P) == LET W == [n \in 1..Len(P) |-> Seen(P[n], view)] IN Len(D.nodes) = Len(W) /\ Covers(W, D.nodes)
\* segments drawn between the nodes of element e
SegsOf(view, P, e) == {i \in 1..Len(D.segs) : Joins(D.segs[i], Seen(P[T.conns[e][1]], view), Seen(P[T.conns[e][2]], view))}
Top(S) == {i \in S : \A j \in S : D.segs[j].z <= D.segs[i].z}
ElementsOk(view, P) == /\ \A e \in 1..NE : SegsOf(view, P, e) # {}
                       /\ \A i \in 1..Len(D.segs) : \E e \in 1..NE : i \in SegsOf(view, P, e)
Arrows(view, P, L, scale) ==
  {[p |-> Seen(P[n], view), d |-> ArrowDir(view, i, L[n], scale), f |-> L[n][Axes(view)[i]]] : n \in 1..Len(P), i \in 1..Len(Axes(view))}
ArrowsOk(view, P, L, scale) ==
  LET W == {a \in Arrows(view, P, L, scale) : a.f # FZero}
      eq(o, a) == Loc(o.p, a.p) /\ VNear(o.d, a.d, FAdd(FTen(12), FMul(FTen(9), FMaxSeq(a.d))))
  IN /\ \A a \in W : FLt(FTen(12), FAbs(a.f)) => \E i \in 1..Len(D.arrows) : eq(D.arrows[i], a)
     /\ \A i \in 1..Len(D.arrows) : \E a \in W : eq(D.arrows[i], a)
     /\ Len(D.arrows) <= Len(P) * Len(Axes(view))

ColoursOk(R, view, P, name, lims) ==
  LET cb == D.cb
      w == FSub(lims[2], lims[1])
      tol == FAdd(FTen(9), FMul(FTen(9), FAdd(FAbs(lims[1]), FAbs(lims[2]))))
  IN IF FLe(w, FTen(9)) THEN ""
     ELSE IF ~cb.on THEN "no-colour-bar"
     ELSE IF ~FNear(cb.lo, lims[1], tol) \/ ~FNear(cb.hi, lims[2], tol) THEN "colour-limits"
     ELSE IF \A e \in 1..NE : \E i \in Top(SegsOf(view, P, e)) : \E c \in Range(D.segs[i].c) : ColourOk(c, ContourValue(R, name, e), cb.lo, cb.hi, cb.n) THEN ""
     ELSE "colour"

LimitsOk(o, P) ==
  LET L == D.lim
      in(x, l) == FLe(FSub(l[1], FTen(9)), x) /\ FLe(x, FAdd(l[2], FTen(9)))
      is(l, a, b) == FNear(l[1], a, FTen(9)) /\ FNear(l[2], b, FTen(9))
  IN CASE o.lk = "scale" /\ o.v # "3d" -> \A n \in 1..Len(P) : \A i \in 1..2 : in(P[n][Axes(o.v)[i]], L[i])
       [] o.lk = "half" -> \A i \in 1..Len(Axes(o.v)) : is(L[i], FNeg(o.lv[1]), o.lv[1])
       [] o.lk = "two" /\ o.v # "3d" -> \A i \in 1..2 : is(L[i], o.lv[1], o.lv[2])
       [] o.lk = "all" -> \A i \in 1..Len(Axes(o.v)) : is(L[i], o.lv[2 * i - 1], o.lv[2 * i])
       [] OTHER -> TRUE

ModelBroken(o) ==
  LET inc == RecordOf(T.res, o.i)
      R == T.res[inc]
      P == TLCEval(Positions(T.X, R.U))
      first == inc = 1
      L == TLCEval(ActingLoad(R, T.F, first))
      col == IF o.c = "" \/ first THEN "" ELSE ColoursOk(R, o.v, P, o.c, IF o.m = "auto" THEN AutoLimits(R, o.c, NE) ELSE o.lims)
  IN IF ~NodesOk(o.v, P) THEN "nodes"
     ELSE IF ~ElementsOk(o.v, P) THEN "elements"
     ELSE IF ~ArrowsOk(o.v, P, L, o.fs) THEN "arrows"
     ELSE IF col # "" THEN col
     ELSE IF (o.c = "" \/ first) /\ D.cb.on THEN "colour-bar"
     ELSE IF D.title # (IF first THEN <<>> ELSE <<inc - 1>>) THEN "title"
     ELSE IF O.xl # (IF o.v = "yz" THEN "y" ELSE "x")
          \/ O.yl # (CASE o.v = "xz" -> "z" [] o.v = "xy" -> "y" [] o.v = "yz" -> "z" [] o.v = "3d" -> "y") THEN "view-axis-names"
     ELSE IF ~LimitsOk(o, P) THEN "limits"
     ELSE ""
PartBroken(o) ==
  LET R == T.res[IF o.d THEN Len(T.res) ELSE 1]
      P == IF o.d THEN Positions(T.X, R.U) ELSE T.X
  IN CASE o.p = "nodes" -> IF NodesOk("xz", P) THEN "" ELSE "part-nodes"
       [] o.p = "elements" -> IF ElementsOk("xz", P) THEN "" ELSE "part-elements"
       [] o.p = "extforces" -> IF ArrowsOk("xz", P, T.F[1], o.fs) THEN "" ELSE "part-arrows"

\* axes: everything that was there is still there; one thing was added
AxesBroken(A2, w) ==
  IF Len(O.axes) # Len(A2) THEN "axes"
  ELSE IF \E t \in 1..Len(A) : t # w /\ O.axes[t] # A[t] THEN "other-axes"
  ELSE IF w <= Len(A) /\ ~(IsPrefix(A[w], O.axes[w])) THEN "curve-lost"
  ELSE IF Len(O.axes[w]) # Len(A2[w]) THEN "curve-count"
  ELSE ""
Broken ==
  LET o == E.o
      w == Where(A, o)
      A2 == Drawn(A, o, 0)
      ax == AxesBroken(A2, w)
  IN IF E.how # "ok" THEN o.k \o "-failed"
     ELSE IF ~O.kept THEN o.k \o "-changes-results"
     ELSE IF ax # "" THEN o.k \o "-" \o ax
     ELSE IF o.k # "part" /\ O.ret # w THEN o.k \o "-returned"
     ELSE CASE o.k = "hist" -> HistBroken(o) [] o.k = "path" -> PathBroken(o) [] o.k = "model" -> ModelBroken(o) [] o.k = "part" -> PartBroken(o)
Next == /\ out = ""
        /\ IF k > Len(T.ops) THEN Stop("ok")
           ELSE LET b == Broken IN IF b # "" THEN Stop(b) ELSE k' = k + 1 /\ A' = O.axes /\ UNCHANGED <<tid, out>>
Spec == Init /\ [][Next]_vars
=============================================================================
