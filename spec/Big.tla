-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Arbitrary-precision signed integers.  TLC's own integers have 32 bits,  *)
(* but the library works with coefficients up to 128 bits and degrees up   *)
(* to 64 bits, so the specification carries its own arithmetic.            *)
(*                                                                         *)
(* A big integer is a sequence <<s, l1, ..., ln>>: s is the sign (-1, 0 or *)
(* 1) and l1 ... ln are the limbs of the magnitude in base 2^13, least     *)
(* significant first, with ln # 0.  Zero is <<0>>.                         *)
(*                                                                         *)
(* Base 2^13 keeps column sums of a product below 2^31 for magnitudes of   *)
(* up to 31 limbs (403 bits); BigMul asserts that bound.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

BASE == 8192

BZero == <<0>>
BOne == <<1, 1>>

BigSign(a) == a[1]
BigMag(a) == Tail(a)

\* Magnitudes: sequences of limbs, least significant first, no zero limb on top.
MLimb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MStrip(_)
MStrip(m) == IF m = <<>> THEN m
             ELSE IF m[Len(m)] = 0 THEN MStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MCarry(_, _, _, _)
\* Propagates carries (or borrows) through a sequence of columns.
MCarry(cols, i, carry, acc) ==
    IF i > Len(cols)
    THEN IF carry = 0 THEN acc ELSE MCarry(cols, i, carry \div BASE, Append(acc, carry % BASE))
    ELSE LET v == cols[i] + carry
         IN MCarry(cols, i + 1, v \div BASE, Append(acc, v % BASE))

MMax(i, j) == IF i > j THEN i ELSE j
MAdd(a, b) == MCarry([i \in 1..MMax(Len(a), Len(b)) |-> MLimb(a, i) + MLimb(b, i)], 1, 0, <<>>)
\* Requires a >= b.
MSub(a, b) == MStrip(MCarry([i \in 1..Len(a) |-> a[i] - MLimb(b, i)], 1, 0, <<>>))

RECURSIVE MColumn(_, _, _, _, _)
\* Sum of a[i] * b[k + 1 - i] for i in i..hi.
MColumn(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + MColumn(a, b, k, i + 1, hi)
MMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE LET la == Len(a)
             lb == Len(b)
         IN MStrip(MCarry([k \in 1..(la + lb - 1) |->
                MColumn(a, b, k, IF k > lb THEN k + 1 - lb ELSE 1, IF k > la THEN la ELSE k)],
                1, 0, <<>>))

BigOf(s, m) == IF m = <<>> THEN BZero ELSE <<s>> \o m

BigNeg(a) == <<-a[1]>> \o Tail(a)
BigAbs(a) == IF a[1] < 0 THEN BigNeg(a) ELSE a
BigAdd(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN BigOf(a[1], MAdd(Tail(a), Tail(b)))
    ELSE LET c == MCmp(Tail(a), Tail(b))
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN BigOf(a[1], MSub(Tail(a), Tail(b)))
            ELSE BigOf(b[1], MSub(Tail(b), Tail(a)))
BigSub(a, b) == BigAdd(a, BigNeg(b))
BigMul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN BZero
    ELSE IF MMax(Len(a), Len(b)) > 32 /\ (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) > 31
         THEN Assert(FALSE, "Big: product too wide")
         ELSE BigOf(a[1] * b[1], MMul(Tail(a), Tail(b)))
BigCmp(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[1] = 0 THEN 0
    ELSE IF a[1] > 0 THEN MCmp(Tail(a), Tail(b)) ELSE MCmp(Tail(b), Tail(a))
BigLe(a, b) == BigCmp(a, b) <= 0
BigLt(a, b) == BigCmp(a, b) < 0

RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o MOfNat(n \div BASE)
BigOfInt(n) == IF n = 0 THEN BZero
               ELSE IF n > 0 THEN <<1>> \o MOfNat(n) ELSE <<-1>> \o MOfNat(-n)

RECURSIVE MToNat(_)
MToNat(m) == IF m = <<>> THEN 0 ELSE m[1] + BASE * MToNat(Tail(m))
\* Only for values that fit TLC's integers.
BigToInt(a) == a[1] * MToNat(Tail(a))

\* a * BASE^k
BigShl(a, k) == IF a[1] = 0 THEN a ELSE <<a[1]>> \o [i \in 1..k |-> 0] \o Tail(a)
\* Is a a multiple of BASE^k, and a / BASE^k when it is.
BigDivisible(a, k) == \A i \in 1..k : i + 1 <= Len(a) => a[i + 1] = 0
BigShr(a, k) == IF a[1] = 0 THEN a ELSE IF Len(a) <= k + 1 THEN BZero
                ELSE <<a[1]>> \o SubSeq(a, k + 2, Len(a))

RECURSIVE LimbBits(_)
LimbBits(l) == IF l = 0 THEN 0 ELSE 1 + LimbBits(l \div 2)
RECURSIVE LimbTwos(_)
LimbTwos(l) == IF l % 2 = 1 THEN 0 ELSE 1 + LimbTwos(l \div 2)
\* Number of bits, and number of trailing zero bits, of a magnitude.
BigBits(a) == IF a[1] = 0 THEN 0 ELSE 13 * (Len(a) - 2) + LimbBits(a[Len(a)])
RECURSIVE BigTwosFrom(_, _)
BigTwosFrom(a, i) == IF a[i] = 0 THEN 13 + BigTwosFrom(a, i + 1) ELSE LimbTwos(a[i])
BigTwos(a) == IF a[1] = 0 THEN 0 ELSE BigTwosFrom(a, 2)
BigPow2(n) == <<1>> \o [i \in 1..(n \div 13) |-> 0] \o <<2^(n % 13)>>

BigEven(a) == a[1] = 0 \/ a[2] % 2 = 0
=============================================================================
