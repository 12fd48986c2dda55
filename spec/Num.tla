-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Number systems.  Every history the specification talks about is over    *)
(* one coefficient type of the library, described by a record N:           *)
(*                                                                         *)
(*  N.k   "int"  coefficients and degrees are TLC integers (the driver     *)
(*               keeps such histories small enough for exact arithmetic)   *)
(*        "mod"  coefficients are residues modulo N.p (a prime where       *)
(*               coefficients are divided)                                 *)
(*        "big"  coefficients and degrees are big integers (module Big)    *)
(*  N.fx  "big" only: coefficients are fixed-point numbers with N.fx limbs *)
(*        (13*N.fx bits) after the binary point; used for float types      *)
(*  N.t   "signed", "unsigned", "float" or "field"                         *)
(*  N.min, N.max  the representable range of an integer coefficient type   *)
(*        (absent bounds do not matter for "float" and "field")            *)
(*  N.prec  number of significant bits of a float type (0 otherwise)       *)
(*  N.rel -1 if results are exact, else ("big" floats) the number of bits  *)
(*        to which results that involve rounding have to agree             *)
(***************************************************************************)
EXTENDS Big

IsBig(N) == N.k = "big"
IsMod(N) == N.k = "mod"

NZero(N) == IF IsBig(N) THEN BZero ELSE 0
NOne(N) == IF IsBig(N) THEN BigShl(BOne, N.fx) ELSE 1
NIsZero(N, a) == a = NZero(N)
NNorm(N, a) == IF IsMod(N) THEN a % N.p ELSE a
NAdd(N, a, b) == IF IsBig(N) THEN BigAdd(a, b) ELSE NNorm(N, a + b)
NNeg(N, a) == IF IsBig(N) THEN BigNeg(a) ELSE NNorm(N, -a)
NSub(N, a, b) == IF IsBig(N) THEN BigSub(a, b) ELSE NNorm(N, a - b)
\* Fixed-point products are exact, or truncated where results are only compared up to rounding.
BigProduct(N, a, b) ==
    LET p == BigMul(a, b)
    IN IF N.fx = 0 THEN p
       ELSE IF N.rel >= 0 \/ BigDivisible(p, N.fx) THEN BigShr(p, N.fx)
       ELSE Assert(FALSE, "Num: inexact fixed-point product")
NMul(N, a, b) ==
    IF IsBig(N) THEN BigProduct(N, a, b) ELSE NNorm(N, a * b)
NAbs(N, a) == IF IsBig(N) THEN BigAbs(a) ELSE IF IsMod(N) THEN a ELSE IF a < 0 THEN -a ELSE a
NLe(N, a, b) == IF IsBig(N) THEN BigLe(a, b) ELSE a <= b
NLt(N, a, b) == IF IsBig(N) THEN BigLt(a, b) ELSE a < b
NSign(N, a) == IF IsBig(N) THEN a[1] ELSE IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
\* The number system's image of a TLC integer.
NOf(N, i) == IF IsBig(N) THEN BigShl(BigOfInt(i), N.fx) ELSE NNorm(N, i)
\* The number system's image of a degree.
NOfDeg(N, d) == IF IsBig(N) THEN BigShl(d, N.fx) ELSE NNorm(N, d)

Bounded(N) == N.t \in {"signed", "unsigned"}
\* Is the value a value of the coefficient type?
InRange(N, a) == Bounded(N) => NLe(N, N.min, a) /\ NLe(N, a, N.max)
\* Does a magnitude certainly fit, whatever signs its summands have?
MagFits(N, a) == Bounded(N) => NLe(N, a, N.max)

Exact(N) == N.rel < 0
\* a and b agree up to rounding of quantities of magnitude m.
Close(N, a, b, m) ==
    IF Exact(N) THEN a = b
    ELSE BigLe(BigMul(BigAbs(BigSub(a, b)), BigPow2(N.rel)), m)

\* q is a / b: exactly (fields), up to rounding (floats) or truncated toward zero (integers).
IsQuot(N, a, b, q) ==
    IF ~Exact(N) THEN LET A == BigShl(a, N.fx) IN Close(N, BigMul(q, b), A, BigAbs(A))
    ELSE IF N.t \in {"float", "field"} THEN NMul(N, q, b) = a
    ELSE LET r == NSub(N, a, NMul(N, q, b))
         IN /\ NLt(N, NAbs(N, r), NAbs(N, b))
            /\ NSign(N, r) \in {0, NSign(N, a)}

\* Division where the specification has to compute it (small integers and fields).
TruncDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
                  IN IF (a < 0) = (b < 0) THEN q ELSE -q
NDivides(N, b, a) == IF IsMod(N) THEN TRUE ELSE a % (IF b < 0 THEN -b ELSE b) = 0
NDiv(N, a, b) == IF IsMod(N) THEN CHOOSE q \in 0..(N.p - 1) : (q * b) % N.p = a
                 ELSE TruncDiv(a, b)

\* Degrees: natural numbers, big in "big" systems.
DZero(N) == IF IsBig(N) THEN BZero ELSE 0
DOne(N) == IF IsBig(N) THEN BOne ELSE 1
DOf(N, i) == IF IsBig(N) THEN BigOfInt(i) ELSE i
DAdd(N, a, b) == IF IsBig(N) THEN BigAdd(a, b) ELSE a + b
DSub(N, a, b) == IF IsBig(N) THEN BigSub(a, b) ELSE a - b
DMul(N, a, b) == IF IsBig(N) THEN BigMul(a, b) ELSE a * b
DLe(N, a, b) == IF IsBig(N) THEN BigLe(a, b) ELSE a <= b
DLt(N, a, b) == IF IsBig(N) THEN BigLt(a, b) ELSE a < b
\* Is the degree exactly a value of the coefficient type?
RECURSIVE OddPart(_)
OddPart(n) == IF n = 0 \/ n % 2 = 1 THEN n ELSE OddPart(n \div 2)
DRepresentable(N, d) ==
    IF N.t = "float"
    THEN IF IsBig(N)
         THEN BigBits(d) - BigTwos(d) <= N.prec
         ELSE d < 16777216 \/ OddPart(d) < 16777216
    ELSE InRange(N, NOfDeg(N, d))
\* Largest usize.
USizeMax == <<1, 8191, 8191, 8191, 8191, 4095>>
DFits(N, d) == IsBig(N) => BigLe(d, USizeMax)
=============================================================================
