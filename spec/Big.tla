------------------------------- MODULE Big -------------------------------
(***************************************************************************)
(* Exact integers of any size for TLC (whose own integers have 32 bits).   *)
(* A number is a sequence of limbs in base 10000, little endian; all limbs *)
(* have the sign of the number; no leading zero limb; zero is <<>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

BASE == 10000

LOCAL MaxOf(a, b) == IF a > b THEN a ELSE b
LOCAL At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BStrip(_)
BStrip(a) == IF a = <<>> THEN a
             ELSE IF a[Len(a)] = 0 THEN BStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE CarryOut(_, _)
LOCAL CarryOut(c, acc) ==
  IF c = 0 THEN acc
  ELSE IF c = -1 THEN Append(acc, -1)
  ELSE CarryOut(c \div BASE, Append(acc, c % BASE))

\* floor-propagated carries: all limbs in 0..BASE-1, except possibly a top limb -1
LOCAL Propagate(a) ==
  LET r == FoldLeft(LAMBDA st, x : LET v == x + st[2] IN <<Append(st[1], v % BASE), v \div BASE>>,
                    <<<<>>, 0>>, a)
  IN BStrip(CarryOut(r[2], r[1]))

BNeg(a) == [i \in 1..Len(a) |-> -a[i]]

BNorm(a) == LET p == Propagate(a)
            IN IF p # <<>> /\ p[Len(p)] < 0 THEN BNeg(Propagate(BNeg(p))) ELSE p

BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE BNorm([i \in 1..MaxOf(Len(a), Len(b)) |-> At(a, i) + At(b, i)])
BSub(a, b) == IF b = <<>> THEN a
              ELSE BNorm([i \in 1..MaxOf(Len(a), Len(b)) |-> At(a, i) - At(b, i)])

BSgn(a) == IF a = <<>> THEN 0 ELSE IF a[Len(a)] > 0 THEN 1 ELSE -1
BAbs(a) == IF BSgn(a) < 0 THEN BNeg(a) ELSE a
BLe(a, b) == BSgn(BSub(a, b)) <= 0
BLt(a, b) == BSgn(BSub(a, b)) < 0

\* each partial product is below 1e8, so up to 21 of them fit into 32 bits
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET la == Len(a)
           lb == Len(b)
       IN BNorm([k \in 1..(la + lb - 1) |->
                  LET lo == IF k - lb + 1 > 1 THEN k - lb + 1 ELSE 1
                      hi == IF k < la THEN k ELSE la
                  IN FoldLeft(LAMBDA s, i : s + a[i] * b[k + 1 - i], 0, [m \in 1..(hi - lo + 1) |-> lo + m - 1])])

\* multiplication and truncating division by a small integer (|k| < 200000)
BMulInt(a, k) == BMul(a, BNorm(<<k>>))
BDivInt(a, k) ==
  LET q == FoldRight(LAMBDA x, st : LET v == st[2] * BASE + (IF x < 0 THEN -x ELSE x)
                                    IN <<<<v \div k>> \o st[1], v % k>>, a, <<<<>>, 0>>)[1]
      r == BStrip(q)
  IN IF BSgn(a) < 0 THEN BNeg(r) ELSE r

\* division by BASE^k, towards zero
BScaleDown(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))

BInt(n) == BNorm(<<n>>)

\* division towards zero: schoolbook, each quotient limb by bisection
RECURSIVE Bisect(_, _, _, _)
LOCAL Bisect(r, b, lo, hi) ==       \* largest d in lo..hi with d * b <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF BLe(BMulInt(b, m), r) THEN Bisect(r, b, m, hi) ELSE Bisect(r, b, lo, m - 1)
BDiv(a, b) ==
  LET ab == BAbs(b)
      q == FoldRight(LAMBDA x, st :
             LET r == BStrip(<<IF x < 0 THEN -x ELSE x>> \o st[2])
                 d == Bisect(r, ab, 0, BASE - 1)
             IN <<<<d>> \o st[1], BSub(r, BMulInt(ab, d))>>, a, <<<<>>, <<>>>>)[1]
      t == BStrip(q)
  IN IF BSgn(a) * BSgn(b) < 0 THEN BNeg(t) ELSE t

\* integer square root of a non-negative number: Newton's iteration from above
RECURSIVE SqrtFrom(_, _)
LOCAL SqrtFrom(a, x) == LET y == BDivInt(BAdd(x, BDiv(a, x)), 2) IN IF BLt(y, x) THEN SqrtFrom(a, y) ELSE x
BSqrt(a) == IF a = <<>> THEN <<>> ELSE SqrtFrom(a, [i \in 1..(Len(a) \div 2 + 1) |-> IF i = Len(a) \div 2 + 1 THEN BASE - 1 ELSE 0])
=============================================================================
