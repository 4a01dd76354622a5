------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* The iteration of the Newton solver as a state machine over what can be  *)
(* told apart: after iteration k the residual norm and the step norm are   *)
(* "below" their tolerances, exactly "at" them or "above".                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Sizes == {"below", "at", "above"}
\* it: sequence of [f, x] (sizes) of the iterations done so far
Converged(i) == i.f = "below" /\ i.x = "below"
Finished(it, nfev) == Len(it) > 0 /\ (Converged(it[Len(it)]) \/ Len(it) = nfev)
Success(it) == Converged(it[Len(it)])
=============================================================================
