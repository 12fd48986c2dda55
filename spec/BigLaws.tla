------------------------------ MODULE BigLaws ------------------------------
(***************************************************************************)
(* Checks of module Big: against TLC's integers where they are wide        *)
(* enough, and by the laws of ordered rings where they are not.  Run both  *)
(* with the definitions of Big.tla and with the Java override.             *)
(***************************************************************************)
EXTENDS Big

VARIABLES i, j
\* Around limb and two-limb boundaries, on both sides of zero.
Small == {-67108864, -67108863, -8193, -8192, -8191, -4097, -91, -2, -1, 0, 1, 2, 3, 10, 45, 91,
          4096, 4097, 8191, 8192, 8193, 16383, 32767, 65535, 65536, 67108863, 67108864, 67108865}
Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Product(m, n) == m = 0 \/ Abs(n) <= 2000000000 \div Abs(m)
\* Wide values built from small ones.
Wide(m, n) == BigAdd(BigMul(BigOfInt(m), BigShl(BigOfInt(n), 3)), BigOfInt(n))

Init == i \in Small /\ j \in Small
Next == UNCHANGED <<i, j>>

WellFormed(a) == /\ a[1] \in {-1, 0, 1}
                 /\ a[1] = 0 <=> Len(a) = 1
                 /\ Len(a) > 1 => a[Len(a)] # 0
                 /\ \A k \in 2..Len(a) : a[k] \in 0..8191
Agrees ==
    LET a == BigOfInt(i) b == BigOfInt(j)
    IN /\ WellFormed(a) /\ BigToInt(a) = i
       /\ BigToInt(BigAdd(a, b)) = i + j
       /\ BigToInt(BigSub(a, b)) = i - j
       /\ BigToInt(BigNeg(a)) = -i
       /\ BigToInt(BigAbs(a)) = Abs(i)
       /\ BigCmp(a, b) = Sign(i - j)
       /\ BigLe(a, b) = (i <= j) /\ BigLt(a, b) = (i < j)
       /\ BigEven(a) = (i % 2 = 0)
       /\ Product(i, j) => BigToInt(BigMul(a, b)) = i * j
       /\ i # 0 => 2^(BigBits(a) - 1) <= Abs(i) /\ (BigBits(a) < 31 => Abs(i) < 2^BigBits(a))
       /\ i # 0 => Abs(i) % 2^BigTwos(a) = 0 /\ (Abs(i) \div 2^BigTwos(a)) % 2 = 1
Laws ==
    LET a == Wide(i, j) b == Wide(j, 4097) c == Wide(i, -8191)
    IN /\ WellFormed(a) /\ WellFormed(BigMul(a, b)) /\ WellFormed(BigAdd(a, b)) /\ WellFormed(BigSub(a, b))
       /\ BigAdd(a, b) = BigAdd(b, a) /\ BigMul(a, b) = BigMul(b, a)
       /\ BigAdd(BigAdd(a, b), c) = BigAdd(a, BigAdd(b, c))
       /\ BigMul(BigMul(a, b), c) = BigMul(a, BigMul(b, c))
       /\ BigMul(a, BigAdd(b, c)) = BigAdd(BigMul(a, b), BigMul(a, c))
       /\ BigSub(BigAdd(a, b), b) = a /\ BigSub(a, a) = BZero
       /\ BigMul(a, BOne) = a /\ BigMul(a, BZero) = BZero
       /\ BigCmp(a, b) = BigSign(BigSub(a, b))
       /\ BigCmp(a, b) = -BigCmp(b, a)
       /\ BigShr(BigShl(a, 3), 3) = a /\ BigDivisible(BigShl(a, 3), 3)
       /\ BigShl(a, 2) = BigMul(a, BigPow2(26))
       /\ a # BZero => /\ BigLe(BigPow2(BigBits(a) - 1), BigAbs(a))
                       /\ BigLt(BigAbs(a), BigPow2(BigBits(a)))
       /\ BigBits(BigMul(a, BigPow2(17))) = (IF a = BZero THEN 0 ELSE BigBits(a) + 17)
       /\ a # BZero => BigTwos(BigMul(a, BigPow2(17))) = BigTwos(a) + 17
=============================================================================
