-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Sanity of the specification itself: the operators of Poly, checked as   *)
(* laws over every triple of small polynomials.  A specification that      *)
(* passes these is the ring of polynomials, its derivation, evaluation     *)
(* homomorphism and Euclidean division, and not merely what the code does. *)
(***************************************************************************)
EXTENDS Poly

CONSTANTS System,     \* "int", "mod" or "big"
          Top         \* largest degree
VARIABLES f, g, h

N == CASE System = "int" -> [k |-> "int", t |-> "signed", p |-> 0, fx |-> 0, min |-> -100000, max |-> 100000, rel |-> -1, prec |-> 0]
       [] System = "mod" -> [k |-> "mod", t |-> "field", p |-> 3, fx |-> 0, min |-> 0, max |-> 0, rel |-> -1, prec |-> 0]
       [] System = "big" -> [k |-> "big", t |-> "float", p |-> 0, fx |-> 2, min |-> BZero, max |-> BZero, rel |-> -1, prec |-> 24]
Scalars == {NOf(N, -1), NOf(N, 0), NOf(N, 1)}
Degrees == {DOf(N, d) : d \in 0..Top}
Polys == {PTrim(N, p) : p \in [Degrees -> Scalars]}
X == PTerm(N, NOne(N), DOne(N))

Init == f \in Polys /\ g \in Polys /\ h \in Polys
Next == UNCHANGED <<f, g, h>>

Canon(p) == \A d \in DOMAIN p : ~NIsZero(N, p[d])
RingLaws ==
    /\ PAdd(N, f, g) = PAdd(N, g, f) /\ PMul(N, f, g) = PMul(N, g, f)
    /\ PAdd(N, PAdd(N, f, g), h) = PAdd(N, f, PAdd(N, g, h))
    /\ PMul(N, PMul(N, f, g), h) = PMul(N, f, PMul(N, g, h))
    /\ PMul(N, f, PAdd(N, g, h)) = PAdd(N, PMul(N, f, g), PMul(N, f, h))
    /\ PSub(N, f, f) = PZero /\ PSub(N, PAdd(N, f, g), g) = f /\ PNeg(N, PNeg(N, f)) = f
    /\ PMul(N, f, POne(N)) = f /\ PMul(N, f, PZero) = PZero
    /\ Canon(PAdd(N, f, g)) /\ Canon(PMul(N, f, g)) /\ Canon(PSub(N, f, g))
    \* no zero divisors, and degrees add up
    /\ ~PIsZero(f) /\ ~PIsZero(g) => PDeg(N, PMul(N, f, g)) = DAdd(N, PDeg(N, f), PDeg(N, g))
    /\ \A c \in Scalars : PScale(N, f, c) = PMul(N, f, PConst(N, c))
PowLaws == /\ PPow(N, f, 0) = POne(N) /\ PPow(N, f, 1) = f
           /\ PPow(N, f, 5) = PMul(N, PPow(N, f, 2), PPow(N, f, 3))
           /\ PPow(N, PMul(N, f, g), 2) = PMul(N, PPow(N, f, 2), PPow(N, g, 2))
EvalLaws ==
    \A x \in {NOf(N, i) : i \in -2..2} :
        /\ PEval(N, PAdd(N, f, g), x) = NAdd(N, PEval(N, f, x), PEval(N, g, x))
        /\ PEval(N, PMul(N, f, g), x) = NMul(N, PEval(N, f, x), PEval(N, g, x))
        /\ PEval(N, PMul(N, X, f), x) = NMul(N, x, PEval(N, f, x))
DeriveLaws ==
    /\ PDerive(N, PAdd(N, f, g)) = PAdd(N, PDerive(N, f), PDerive(N, g))
    /\ PDerive(N, PMul(N, f, g)) = PAdd(N, PMul(N, PDerive(N, f), g), PMul(N, f, PDerive(N, g)))
    /\ PDerive(N, X) = POne(N) /\ PDerive(N, PConst(N, NOne(N))) = PZero
ShiftLaws ==
    \A n \in 0..3 : LET m == DOf(N, n)
        IN /\ PShl(N, f, m) = PMul(N, f, PPow(N, X, n))
           /\ PShr(N, PShl(N, f, m), m) = f
           \* shifting right drops exactly the terms below n
           /\ LET low == PSub(N, f, PShl(N, PShr(N, f, m), m))
              IN PIsZero(low) \/ DLt(N, PDeg(N, low), m)
DivLaws ==
    PIsZero(g) \/ \E res \in {PDivMod(N, f, g)} :
        /\ PAdd(N, PMul(N, res.q, g), res.r) = f
        /\ res.exact => PIsZero(res.r) \/ DLt(N, PDeg(N, res.r), PDeg(N, g))
        /\ (System = "mod" \/ PLead(N, g) \in {NOne(N), NNeg(N, NOne(N))}) => res.exact
        \* the quotient and remainder of f*g + h by g, for h of smaller degree, are f and h
        /\ res.exact /\ (PIsZero(h) \/ DLt(N, PDeg(N, h), PDeg(N, g))) =>
              \E back \in {PDivMod(N, PAdd(N, PMul(N, f, g), h), g)} : back.q = f /\ back.r = h
ListingLaws ==
    /\ Lists(N, Listing(N, f), f) /\ Canonical(N, Listing(N, f))
    /\ OfListing(N, Listing(N, f)) = f /\ SumTerms(N, Listing(N, f)) = f
    /\ SumTerms(N, Listing(N, f) \o Listing(N, g)) = PAdd(N, f, g)
    /\ Lists(N, Listing(N, f), g) => f = g
\* The magnitudes the panic tolerances use do bound what can occur.
MassLaws ==
    System = "int" =>
    /\ \A d \in DOMAIN PMul(N, f, g) :
          NAbs(N, PMul(N, f, g)[d]) <= PCoeff(N, PMul(N, PAbs(N, f), PAbs(N, g)), d)
    /\ PMass(N, PMul(N, f, g)) <= PMass(N, f) * PMass(N, g)
    /\ \A x \in -2..2 : NAbs(N, PEval(N, f, x)) <= PEval(N, PAbs(N, f), NAbs(N, x))
=============================================================================
