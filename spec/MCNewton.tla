------------------------------ MODULE MCNewton ------------------------------
EXTENDS Newton, TLC, Json
CONSTANTS Budgets, GEN
VARIABLES nfev, it, done
Init == nfev \in Budgets /\ it = <<>> /\ done = FALSE
Next == \/ /\ ~Finished(it, nfev) /\ \E f, x \in Sizes : it' = Append(it, [f |-> f, x |-> x])
           /\ UNCHANGED <<nfev, done>>
        \/ /\ Finished(it, nfev) /\ ~done /\ done' = TRUE /\ UNCHANGED <<nfev, it>>
           /\ IF GEN THEN PrintT("NEWTON|" \o ToJson([nfev |-> nfev, it |-> it])) ELSE TRUE
Spec == Init /\ [][Next]_<<nfev, it, done>> /\ WF_<<nfev, it, done>>(Next)
\* stops at the first converged iteration
Earliest == \A k \in 1..Len(it) : Converged(it[k]) => k = Len(it)
Budget == Len(it) <= nfev
Truthful == done => (Success(it) \/ Len(it) = nfev)
Terminates == <>done
=============================================================================
