------------------------------- MODULE Fix -------------------------------
(***************************************************************************)
(* Fixed-point reals with 28 decimals on top of Big, vectors of them, and  *)
(* comparisons with a tolerance.  The harness hands over every number of   *)
(* the implementation as its exact decimal value rounded to 28 decimals.   *)
(***************************************************************************)
EXTENDS Big, TLC

FRAC == 7                       \* fractional limbs: 28 decimals

FNum(n) == IF n = 0 THEN <<>> ELSE [i \in 1..FRAC |-> 0] \o BInt(n)
FZero == <<>>
FOne == FNum(1)
FAdd(a, b) == BAdd(a, b)
FSub(a, b) == BSub(a, b)
FNeg(a) == BNeg(a)
FAbs(a) == BAbs(a)
FSgn(a) == BSgn(a)
FLe(a, b) == BLe(a, b)
FLt(a, b) == BLt(a, b)
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FMul(a, b) == BScaleDown(BMul(a, b), FRAC)
FDiv(a, b) == BDiv([i \in 1..FRAC |-> 0] \o a, b)
FSqrt(a) == BSqrt([i \in 1..FRAC |-> 0] \o a)
FMulInt(a, k) == BMulInt(a, k)
FDivInt(a, k) == BDivInt(a, k)
FSigned(a, s) == IF s < 0 THEN FNeg(a) ELSE a
FRat(p, q) == FDivInt(FNum(p), q)

LOCAL Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] OTHER -> 1000
\* 10^-k as a fixed-point number, 0 <= k <= 28
FTen(k) == LET e == 28 - k IN [i \in 1..(e \div 4) |-> 0] \o <<Pow10(e % 4)>>

FNear(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)
\* relative closeness with respect to an explicit (non-negative) scale
FNearRel(a, b, tol, scale) == FLe(FAbs(FSub(a, b)), FMul(tol, scale))
\* closeness relative to the larger magnitude, plus an absolute floor
FClose(a, b, rel, abs) == FLe(FAbs(FSub(a, b)), FAdd(abs, FMul(rel, FMax(FAbs(a), FAbs(b)))))

FSum(s) == FoldLeft(LAMBDA x, y : FAdd(x, y), FZero, s)
FMaxSeq(s) == FoldLeft(LAMBDA x, y : FMax(x, FAbs(y)), FZero, s)
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> FAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> FSub(u[i], v[i])])
VScale(a, u) == TLCEval([i \in 1..Len(u) |-> FMul(a, u[i])])
VNeg(u) == TLCEval([i \in 1..Len(u) |-> FNeg(u[i])])
VZero(n) == TLCEval([i \in 1..n |-> FZero])
Dot(u, v) == FSum([i \in 1..Len(u) |-> FMul(u[i], v[i])])
VClose(u, v, rel, abs) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FClose(u[i], v[i], rel, abs)
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : FNear(u[i], v[i], tol)
=============================================================================
