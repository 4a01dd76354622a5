----------------------------- MODULE Material -----------------------------
(***************************************************************************)
(* The material laws.  A material is [mat, E, K, Sy]; its history is       *)
(* <<yield stress, plastic strain>> with <<0, 0>> for a virgin material.   *)
(***************************************************************************)
EXTENDS Fix

Virgin == <<FZero, FZero>>
YieldStress(m, sv) == IF sv[1] = FZero THEN m.Sy ELSE sv[1]

Elastic(m, sv, e) == [s |-> FMul(m.E, e), d |-> m.E, sv |-> sv, kink |-> FZero]

\* isotropic hardening: closest-point return to the yield surface
Plastic(m, sv, e) ==
  LET y == YieldStress(m, sv)
      trial == FMul(m.E, FSub(e, sv[2]))
      f == FSub(FAbs(trial), y)
  IN IF FSgn(f) <= 0
     THEN [s |-> trial, d |-> m.E, sv |-> <<y, sv[2]>>, kink |-> f]
     ELSE LET dg == FDiv(f, FAdd(m.E, m.K))
          IN [s |-> FSub(trial, FSigned(FMul(m.E, dg), FSgn(trial))),
              d |-> FDiv(FMul(m.E, m.K), FAdd(m.E, m.K)),
              sv |-> <<FAdd(y, FMul(m.K, dg)), FAdd(sv[2], FSigned(dg, FSgn(trial)))>>,
              kink |-> f]

\* kink: distance of the trial stress from the yield surface (the slope is discontinuous at 0)
Respond(m, sv, e) == IF m.mat = 2 THEN Plastic(m, sv, e) ELSE Elastic(m, sv, e)
=============================================================================
