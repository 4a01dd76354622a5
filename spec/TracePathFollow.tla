-------------------------- MODULE TracePathFollow --------------------------
(***************************************************************************)
(* Trace checker: is a recorded load case of the real code a behaviour of  *)
(* the controller PathFollow?                                              *)
(*                                                                         *)
(* A trace has the configuration c, the start vector x0 and the events     *)
(*   [e = "it",  s, t, g]  one Newton iteration from point s to point t    *)
(*                         with residual g (free components) at t          *)
(*   [e = "acc", t]        the increment was accepted at point t           *)
(*   [e = "ret"]           the load case ended                             *)
(*   [e = "cut"]           the recording ends here (script used up)        *)
(* and afterwards what was reported: rows (solution vectors), lims (step   *)
(* limits), js (control components) of the accepted increments.            *)
(*                                                                         *)
(* One verdict is printed for every admissible interpretation of a trace   *)
(* (there are several only if decisions tie within the band); the harness  *)
(* accepts the trace if one of them is "ok".                               *)
(***************************************************************************)
EXTENDS PathFollow, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, k, st, ph, x, i, it, last, fresh, acc, out,
          said \* what follows from the attempt that ended last: [out, say, b]
vars == <<tid, k, st, ph, x, i, it, last, fresh, acc, out, said>>
Quiet == [out |-> "", say |-> <<>>, b |-> 0]

T == Traces[tid]
c == T.c
E == T.ev[k]

Tol(j) == FAdd(FMul(FTen(6), FMul(c.lim0[j], st.fac)), FMul(FTen(10), FAdd(FOne, FAbs(x[j]))))

\* the control equation holds at point t for control component j
OnControl(t, j) == FNear(t[AbsI(j)], FAdd(x[AbsI(j)], FSigned(FMul(c.lim0[AbsI(j)], st.fac), j)), Tol(AbsI(j)))

\* both norms against their tolerances
Norm2Below(v, tol) == LtSet(Dot(v, v), FMul(tol, tol), FTen(5))
Conv(s, t, g) == AndSet(Norm2Below(Append(g, FSub(t[AbsI(st.j)], FAdd(x[AbsI(st.j)], FSigned(FMul(c.lim0[AbsI(st.j)], st.fac), st.j)))), c.ftol),
                        Norm2Below(VSub(t, s), c.xtol))

Stop(clause) == /\ PrintT("VERDICT|" \o T.id \o "|" \o ToString(k) \o "|" \o clause)
                /\ out' = clause
                /\ UNCHANGED <<tid, k, st, ph, x, i, it, last, fresh, acc, said>>

Init == /\ tid \in 1..Len(Traces)
        /\ k = 1
        /\ st = [fac |-> FOne, b |-> 4, z |-> 0, j |-> InitialControl(c)]
        /\ ph = IF c.incs = 0 THEN "end" ELSE IF Predicts(c) THEN "pre" ELSE "att"
        /\ x = T.x0 /\ i = 0 /\ it = 0 /\ last = T.x0 /\ fresh = TRUE /\ acc = <<>> /\ out = "" /\ said = Quiet

Go == k' = k + 1 /\ UNCHANGED <<tid, out>>

Predict ==
  /\ ph = "pre"
  /\ IF E.e = "cut" THEN Stop("ok")
     ELSE IF E.e # "it" THEN Stop("ended-early")
     ELSE IF ~VNear(E.s, x, FTen(9)) THEN Stop("start")
     ELSE IF ~OnControl(E.t, st.j) THEN Stop("control")
     ELSE /\ \E j \in Leading(c, Lim(c, st.fac), VSub(E.t, x)) : st' = [st EXCEPT !.j = j]
          /\ ph' = "att" /\ it' = 0 /\ last' = x
          /\ Go /\ said' = Quiet /\ UNCHANGED <<x, i, fresh, acc>>

\* an attempt ended with (non-)convergence after n iterations
Ended(ok, n, t) ==
  \E r \in AfterAttempt(c, st, ok, n, Budget(c, fresh), VSub(t, x)) :
    /\ it' = 0 /\ last' = t /\ Go /\ UNCHANGED <<x, i>>
    /\ said' = [out |-> r.out, say |-> r.say, b |-> st.b]
    /\ acc' = IF r.out = "accept" THEN Append(acc, [lim |-> Lim(c, st.fac), j |-> r.j, j0 |-> st.j]) ELSE acc
    /\ CASE r.out = "accept" -> ph' = "acc" /\ fresh' = TRUE /\ st' = [fac |-> r.fac, b |-> r.b, z |-> 0, j |-> r.j]
         [] r.out = "again"  -> ph' = "again" /\ fresh' = FALSE /\ st' = [fac |-> r.fac, b |-> r.b, z |-> r.z, j |-> r.j]
         [] OTHER            -> ph' = (IF ok THEN "invalid" ELSE "unconverged") /\ UNCHANGED <<fresh, st>>

Iterate ==
  /\ ph \in {"att", "again"}
  /\ LET nf == Budget(c, fresh)
     IN IF E.e = "cut" THEN Stop("ok")
        ELSE IF E.e = "acc" THEN Stop(IF ph = "again" /\ it = 0 THEN "accepted-invalid" ELSE "accepted-unconverged")
        ELSE IF E.e = "ret" THEN Stop(IF it = 0 /\ ph = "again" THEN "gave-up" ELSE "ended-early")
        ELSE IF it = 0 /\ ~(fresh /\ Predicts(c)) /\ ~VNear(E.s, x, FTen(9)) THEN Stop("start")
        ELSE IF it > 0 /\ ~VNear(E.s, last, FTen(12)) THEN Stop("iterations")
        ELSE IF ~OnControl(E.t, st.j) THEN Stop("control")
        ELSE LET conv == Conv(E.s, E.t, E.g)
             IN \/ TRUE \in conv /\ Ended(TRUE, it + 1, E.t)
                \/ /\ FALSE \in conv
                   /\ IF it + 1 = nf THEN Ended(FALSE, nf, E.t)
                      ELSE /\ ph' = "att" /\ it' = it + 1 /\ last' = E.t /\ Go
                           /\ said' = Quiet /\ UNCHANGED <<st, x, i, fresh, acc>>

Accept ==
  /\ ph = "acc"
  /\ IF E.e # "acc" THEN Stop(IF E.e = "it" THEN "not-accepted" ELSE "ended-early")
     ELSE IF ~VNear(E.t, last, FTen(12)) THEN Stop("accepted-other")
     ELSE /\ \E exceeded \in ExceedsSet(c, E.t) :
               ph' = IF exceeded \/ i + 1 = c.incs THEN "end" ELSE IF Predicts(c) THEN "pre" ELSE "att"
          /\ x' = E.t /\ i' = i + 1 /\ it' = 0 /\ last' = E.t /\ Go
          /\ said' = Quiet /\ UNCHANGED <<st, fresh, acc>>

\* what was reported must be what was accepted
Reported ==
  IF Len(T.rows) # i THEN "reported-count"
  ELSE LET xs == SelectSeq(T.ev, LAMBDA e : e.e = "acc")
       IN IF \E m \in 1..i : ~VNear(T.rows[m], xs[m].t, FTen(12)) THEN "reported-row"
          ELSE IF \E m \in 1..i : ~VClose(T.lims[m], acc[m].lim, FTen(9), FTen(18)) THEN "reported-limit"
          ELSE IF T.js # <<>> /\ (\E m \in 1..i : T.js[m] # acc[m].j0) THEN "reported-control"
          ELSE "ok"

\* the load case must end here: it is complete, or its last attempt failed
End == /\ ph \in {"end", "invalid", "unconverged"}
       /\ IF E.e = "ret" THEN Stop(Reported)
          ELSE IF E.e = "acc" /\ ph # "end" THEN Stop("accepted-" \o ph)
          ELSE Stop("continued")

Next == /\ out = ""
        /\ (Predict \/ Iterate \/ Accept \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
