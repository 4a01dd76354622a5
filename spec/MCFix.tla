------------------------------ MODULE MCFix ------------------------------
(* Self-check of the arithmetic: exhaustive comparison with TLC's integers *)
(* in a window, plus algebraic laws on large numbers.                      *)
EXTENDS Fix, TLC
VARIABLE a
W == 0..40
Val(n) == (n - 20) * 4999
Big1(n) == BMul(BMul(BInt(Val(n)), BInt(987654321)), BInt(123456789))
ToInt(x) == FoldRight(LAMBDA d, s : s * BASE + d, x, 0)
Init == a \in W
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(x, k) == IF x < 0 THEN -((-x) \div k) ELSE x \div k
SmallOK == \A b \in W :
   /\ ToInt(BAdd(BInt(Val(a)), BInt(Val(b)))) = Val(a) + Val(b)
   /\ ToInt(BSub(BInt(Val(a)), BInt(Val(b)))) = Val(a) - Val(b)
   /\ ToInt(BMul(BInt(Val(a)), BInt(b - 20))) = Val(a) * (b - 20)
   /\ BLe(BInt(Val(a)), BInt(Val(b))) = (Val(a) <= Val(b))
   /\ ToInt(BDivInt(BInt(Val(a)), b + 1)) = TDiv(Val(a), b + 1)
LawOK == \A b \in {0, 7, 19, 20, 21, 33, 40} : \A c \in {1, 20, 39} :
   /\ BMul(Big1(a), BAdd(Big1(b), Big1(c))) = BAdd(BMul(Big1(a), Big1(b)), BMul(Big1(a), Big1(c)))
   /\ BSub(BAdd(Big1(a), Big1(b)), Big1(b)) = Big1(a)
   /\ BMul(Big1(a), Big1(b)) = BMul(Big1(b), Big1(a))
   /\ \A k \in {1, 3, 7, 1000, 99991} : LET q == BDivInt(Big1(a), k) r == BSub(Big1(a), BMulInt(q, k))
        IN BLt(BAbs(r), BInt(k)) /\ BSgn(r) * BSgn(Big1(a)) >= 0
   /\ FMul(FNum(Val(a)), FNum(b)) = FNum(Val(a) * b)
DivOK == \A b \in {0, 7, 19, 21, 33, 40} :
   /\ LET q == BDiv(Big1(a), BInt(Val(b) * 3 + 1)) r == BSub(Big1(a), BMul(q, BInt(Val(b) * 3 + 1)))
      IN BLt(BAbs(r), BAbs(BInt(Val(b) * 3 + 1))) /\ BSgn(r) * BSgn(Big1(a)) >= 0
   /\ b # 20 => BDiv(BMul(Big1(a), Big1(b)), Big1(b)) = Big1(a)
   /\ LET x == BAbs(BAdd(Big1(a), Big1(b))) s == BSqrt(x) IN BLe(BMul(s, s), x) /\ BLt(x, BMul(BAdd(s, BInt(1)), BAdd(s, BInt(1))))
   /\ FNear(FSqrt(FMul(FNum(Val(a)), FNum(Val(a)))), FAbs(FNum(Val(a))), FTen(26))
TenOK == \A k \in 0..28 : \A j \in 0..(28 - k) : FMul(FTen(k), FTen(j)) = FTen(k + j)
=============================================================================
