---------------------------- MODULE PathFollow ----------------------------
(***************************************************************************)
(* The path-following controller: one load case of a run.                  *)
(*                                                                         *)
(* The unknowns are the free displacement components 1..n-1 and the load   *)
(* factor n.  A control component is a signed index.  Each increment       *)
(* consists of an optional one-iteration prediction of the control         *)
(* component and of up to `cycl` attempts; each attempt is a Newton solve  *)
(* under the control equation  x[|j|] = x0[|j|] + sgn(j) * lim[|j|].       *)
(*                                                                         *)
(* This module holds the *functional core*: pure operators that decide     *)
(* what follows from the outcome of an attempt.  They are shared by the    *)
(* exhaustively checked model (MCPathFollow), by the generator of scripted *)
(* behaviours (GenPathFollow) and by the trace checker (TracePathFollow).  *)
(*                                                                         *)
(* All comparisons of real numbers carry a relative band c.band: inside    *)
(* the band both outcomes are admissible, so decisions are set-valued.     *)
(* The band is 0 for scripted (dyadic, exactly representable) behaviours.  *)
(*                                                                         *)
(* Configuration c: n, lim0 (limits), j0 (signed, 0 = not given), jfixed,  *)
(* jpre, incs, nfev, cycl, sc, minfac, maxfac, red = <<p,q>>,              *)
(* inc = <<p,q>>, dxtol, xlim = [on, comp, val], band.                     *)
(***************************************************************************)
EXTENDS Fix, FiniteSets

AbsI(i) == IF i < 0 THEN -i ELSE i
SgnI(i) == IF i < 0 THEN -1 ELSE 1

\* set-valued comparisons -------------------------------------------------
\* possible truth values of a < b, given the relative band
LtSet(a, b, band) ==
  LET m == FMul(band, FMax(FAbs(a), FAbs(b)))
  IN {v \in BOOLEAN : \/ v /\ (FLt(a, b) \/ FLt(FSub(a, m), b))
                      \/ ~v /\ (~FLt(a, b) \/ ~FLt(FAdd(a, m), b))}
\* possible truth values of a <= b
LeSet(a, b, band) ==
  LET m == FMul(band, FMax(FAbs(a), FAbs(b)))
  IN {v \in BOOLEAN : \/ v /\ (FLe(a, b) \/ FLe(FSub(a, m), b))
                      \/ ~v /\ (~FLe(a, b) \/ ~FLe(FAdd(a, m), b))}
AndSet(S, T) == {s /\ t : s \in S, t \in T}

\* current limits
Lim(c, fac) == TLCEval([k \in 1..c.n |-> FMul(c.lim0[k], fac)])

\* --- selection of the control component --------------------------------
\* |Dx[a]|/lim[a] >= |Dx[b]|/lim[b], within the band
LOCAL Beats(Dx, lim, band, a, b) ==
  LET x == FMul(FAbs(Dx[a]), lim[b])
      y == FMul(FAbs(Dx[b]), lim[a])
  IN FLe(y, FAdd(x, FMul(band, FMax(x, y))))
\* signed indices of the components with the largest movement relative to the limit
\* (several only if they tie)
Leading(c, lim, Dx) ==
  {IF FSgn(Dx[k]) < 0 THEN -k ELSE k :
     k \in {a \in 1..c.n : \A b \in 1..c.n : Beats(Dx, lim, c.band, a, b)}}

InitialControl(c) == IF c.j0 = 0 THEN c.n ELSE c.j0
Predicts(c) == c.jpre /\ ~c.jfixed

\* --- validity of a solution: no overshoot -------------------------------
ValidSet(c, lim, j, Dx) ==
  LET one(k) == LeSet(FAbs(Dx[k]), FMul(c.dxtol, lim[k]), c.band)
      all == {one(k) : k \in 1..c.n}
  IN IF c.jfixed THEN one(AbsI(j))
     ELSE IF {FALSE} \in all THEN {FALSE}
     ELSE IF all = {{TRUE}} THEN {TRUE} ELSE BOOLEAN

\* --- adaptive step width --------------------------------------------------
\* j0: control of the attempt, j: leading component found by the attempt,
\* n: iterations used of nf allowed.  Yields a set of [fac, z, b, chg, say];
\* say: what is announced in the log.
\* `inc0` is the relative growth granted for an instantly converged attempt.
StepWidth(c, fac, z, b, j, j0, ok, n, nf) ==
  LET keep == [fac |-> fac, z |-> z, b |-> b, chg |-> FALSE, say |-> <<>>]
  IN IF ~c.sc THEN {keep}
     ELSE IF ~ok
     THEN UNION { IF ~above THEN {keep}
                  ELSE LET last == (z + 1 = c.cycl)
                           z2 == IF last THEN 0 ELSE z
                           why == IF last THEN "limit" ELSE "wait"
                       IN IF j0 = j \/ last
                          THEN {[fac |-> FDivInt(FMulInt(fac, c.red[2]), c.red[1]), z |-> z2, b |-> 0, chg |-> TRUE, say |-> <<why, "reduce">>]}
                          ELSE {[keep EXCEPT !.z = z2, !.say = <<why>>]}
                  : above \in LtSet(c.minfac, fac, c.band)}
     ELSE IF j0 # j THEN {keep}
     ELSE UNION { IF ~below
                  THEN {[keep EXCEPT !.fac = c.maxfac, !.chg = TRUE]}
                  ELSE IF z > 0 THEN {keep}
                  ELSE IF b <= 3 THEN {[keep EXCEPT !.say = <<"hold">>]}
                  ELSE {[keep EXCEPT !.fac = FAdd(fac, FDivInt(FMulInt(fac, (nf - n) * c.inc[1]), nf * c.inc[2])),
                                     !.chg = TRUE, !.say = <<"grow">>]}
                  : below \in LtSet(fac, c.maxfac, c.band)}

\* --- consequences of one attempt --------------------------------------------
\* s: [fac, b, z, j] before the attempt; the attempt moved by Dx, used n of nf
\* iterations and converged or not.  Result: a set of
\*   [out |-> "accept" / "err1" / "err2" / "again", fac, b, z, j, say, lead]
\* lead: the leading component of the attempt
AfterAttempt(c, s, ok, n, nf, Dx) ==
  LET lim == Lim(c, s.fac)
      js == IF c.jfixed THEN {s.j} ELSE Leading(c, lim, Dx)
  IN UNION { UNION { {LET out == IF valid /\ ok THEN "accept"
                                 ELSE IF w.z + 1 = c.cycl THEN "err1"
                                 ELSE IF s.j = j /\ ~ok /\ ~w.chg THEN "err2"
                                 ELSE "again"
                      IN [out |-> out, fac |-> w.fac,
                          b |-> IF out = "accept" THEN w.b + 1 ELSE w.b,
                          z |-> IF out = "again" THEN w.z + 1 ELSE w.z,
                          j |-> IF out = "again" /\ ~ok THEN s.j ELSE j,
                          say |-> w.say, lead |-> j]
                      : w \in StepWidth(c, s.fac, s.z, s.b, j, s.j, ok, n, nf)}
                     : valid \in ValidSet(c, lim, s.j, Dx)}
             : j \in js}

\* iterations allowed in the attempt with recycle number z (fresh: directly after the prediction)
Budget(c, fresh) == IF fresh /\ Predicts(c) THEN c.nfev - 1 ELSE c.nfev

\* the observed component exceeds its limit after an accepted increment
ExceedsSet(c, x) ==
  IF ~c.xlim.on THEN {FALSE}
  ELSE LET k == IF c.xlim.comp = 0 THEN c.n ELSE c.xlim.comp
       IN LtSet(c.xlim.val, FAbs(x[k]), c.band)
=============================================================================
