---------------------------- MODULE MCMaterial ----------------------------
(***************************************************************************)
(* All strain histories over a grid of strains for a set of materials: the *)
(* laws of isotropic hardening.  With GEN = TRUE the histories are printed *)
(* and replayed into the real material functions.                          *)
(***************************************************************************)
EXTENDS Material, Json
CONSTANTS Depth, GEN
VARIABLES mid, sv, path, last, up

E8(q) == FRat(q, 8)
Mats == <<
  [mat |-> 2, E |-> FNum(1), K |-> FNum(1), Sy |-> FRat(1, 8)],
  [mat |-> 2, E |-> FNum(3), K |-> FNum(1), Sy |-> FRat(1, 4)],
  [mat |-> 2, E |-> FNum(4), K |-> FZero, Sy |-> FRat(3, 8)],
  [mat |-> 2, E |-> FNum(1), K |-> FRat(1, 7), Sy |-> FRat(1, 16)],
  [mat |-> 1, E |-> FNum(7), K |-> FNum(1), Sy |-> FRat(1, 8)] >>
Strains == {-3, -1, 0, 1, 2, 5}
m == Mats[mid]

Init == mid \in 1..Len(Mats) /\ sv = Virgin /\ path = <<>> /\ last = [s |-> FZero, e |-> FZero, d |-> m.E] /\ up = <<>>
Strain(q) ==
  LET r == Respond(m, sv, E8(q))
  IN /\ sv' = r.sv /\ last' = [s |-> r.s, e |-> E8(q), d |-> r.d]
     /\ path' = Append(path, q) /\ up' = sv
     /\ UNCHANGED mid
Next == /\ Len(path) < Depth
        /\ \E q \in Strains : Strain(q)
        /\ IF GEN /\ Len(path') = Depth THEN PrintT("PATH|" \o ToJson([m |-> mid, p |-> path'])) ELSE TRUE
Spec == Init /\ [][Next]_<<mid, sv, path, last, up>>

tol == FTen(20)
IsPl == m.mat = 2
\* the stress never exceeds the current yield stress
Admissible == IsPl /\ path # <<>> => FLe(FAbs(last.s), FAdd(sv[1], tol))
\* stress = modulus times elastic strain
Additive == IsPl => FNear(last.s, FMul(m.E, FSub(last.e, sv[2])), tol)
\* yield stress never decreases and grows with the accumulated plastic strain only
Monotone == IsPl /\ path # <<>> /\ up # Virgin =>
              /\ FLe(up[1], sv[1])
              /\ FNear(FSub(sv[1], up[1]), FMul(m.K, FAbs(FSub(sv[2], up[2]))), tol)
\* plastic flow only on the yield surface and in the direction of the stress
FlowRule == IsPl /\ path # <<>> /\ sv[2] # up[2] =>
              /\ FNear(FAbs(last.s), sv[1], tol)
              /\ FSgn(FSub(sv[2], up[2])) = FSgn(last.s)
\* the slope is the one of the response
Slope == LET h == FTen(9)
         IN \A q \in Strains :
              LET a == Respond(m, sv, E8(q)) b == Respond(m, sv, FAdd(E8(q), h))
              IN (FSgn(a.kink) = FSgn(b.kink)) => FNear(FSub(b.s, a.s), FMul(a.d, h), FTen(18))
\* evaluating twice at the same strain changes nothing (the committed state is a fixed point)
Idempotent == path # <<>> => LET r == Respond(m, sv, last.e)
                             IN VNear(r.sv, sv, tol) /\ FNear(r.s, last.s, tol)
\* continuity across the yield point
Continuous == \A q \in Strains :
   LET h == FTen(12) a == Respond(m, sv, E8(q)) b == Respond(m, sv, FAdd(E8(q), h))
   IN FLe(FAbs(FSub(b.s, a.s)), FMul(FTen(12), FAdd(m.E, FOne)))
=============================================================================
