----------------------------- MODULE TraceNewton -----------------------------
(***************************************************************************)
(* Trace checker: one call of the Newton solver.                           *)
(* Trace: nfev, ftol, xtol, its: per evaluation of the derivative in order *)
(*   [x, f, J] (point, residual and derivative there), ret: [x, f (the     *)
(*   residual at x), success, n, fn, xn], args (extra arguments arrived    *)
(*   unchanged at every call), start (the first point is the start point), *)
(*   kept (the start vector was not modified), scale (of the residuals)    *)
(*   exact: numbers without rounding, ties are decided exactly             *)
(***************************************************************************)
EXTENDS Newton, Fix, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, out
T == Traces[tid]
R == T.ret
N == Len(T.its)
\* (one component: without rounding)
Norm(v) == LET nz == SelectSeq(v, LAMBDA a : a # FZero) IN IF nz = <<>> THEN FZero ELSE IF Len(nz) = 1 THEN FAbs(nz[1]) ELSE FSqrt(Dot(v, v))
MatVec(J, v) == [i \in 1..Len(J) |-> Dot(J[i], v)]
Point(k) == IF k <= N THEN T.its[k].x ELSE R.x
Resid(k) == IF k <= N THEN T.its[k].f ELSE R.f
Step(k) == VSub(Point(k + 1), Point(k))
\* iteration k (1..N) moves from Point(k) by the solution of the linear system
Moves(k) == LET m == MatVec(T.its[k].J, Step(k))
            IN \A i \in 1..Len(m) : FLe(FAbs(FAdd(m[i], T.its[k].f[i])), FMul(FTen(9), T.scale))
Size(n, tol) == IF FLt(n, tol) THEN "below" ELSE IF n = tol THEN "at" ELSE "above"
\* norms too close to their tolerance to be told apart from outside
Band(n, tol) == ~T.exact /\ FNear(n, tol, FMul(FTen(6), tol))
F(k) == Norm(Resid(k + 1))
X(k) == Norm(Step(k))
It(k) == [f |-> Size(F(k), T.ftol), x |-> Size(X(k), T.xtol)]
Unclear == \E k \in 1..N : Band(F(k), T.ftol) \/ Band(X(k), T.xtol)
\* the norm of the step is known up to the rounding of the points
Rel(a, b) == FLe(FAbs(FSub(a, b)), FAdd(FMul(FTen(9), FAbs(b)), FMul(FTen(12), FOne)))
Verdict ==
  LET its == TLCEval([k \in 1..N |-> It(k)]) IN
  IF ~T.args THEN "extra-arguments"
  ELSE IF ~T.kept THEN "start-modified"
  ELSE IF N = 0 \/ ~T.start THEN "start-point"
  ELSE IF \E k \in 1..N : ~Moves(k) THEN "movement"
  ELSE IF N > T.nfev THEN "budget"
  ELSE IF ~Unclear /\ \E k \in 1..(N - 1) : Converged(its[k]) THEN "late"
  ELSE IF ~Unclear /\ ~Finished(its, T.nfev) THEN "early"
  ELSE IF R.n # N THEN "count"
  ELSE IF ~Unclear /\ R.success # Success(its) THEN "success"
  ELSE IF ~Rel(R.fn, F(N)) THEN "residual-norm"
  ELSE IF ~Rel(R.xn, X(N)) THEN "step-norm"
  ELSE IF R.success /\ ~(FLt(R.fn, T.ftol) /\ FLt(R.xn, T.xtol)) THEN "success"
  ELSE "ok"
Init == tid \in 1..Len(Traces) /\ out = ""
Next == out = "" /\ out' = Verdict /\ PrintT("VERDICT|" \o T.id \o "|0|" \o out') /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, out>>
=============================================================================
