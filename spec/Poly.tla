-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials as mathematical values: finite functions from degrees to    *)
(* non-zero coefficients over a number system N (module Num).  This is the *)
(* abstract state of every polynomial type of the library; how zeros are   *)
(* stored (leading zeros of a vector, explicit zeros in a map, a monomial  *)
(* with coefficient zero) is invisible here.                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets, FiniteSetsExt, SequencesExt

\* Op applied to the value of v, which is evaluated once (TLC passes unevaluated expressions otherwise).
Bind(v, Op(_)) == CHOOSE w \in {Op(x) : x \in {v}} : TRUE

PZero == [d \in {} |-> 0]
\* (TLCEval: TLC would otherwise re-evaluate a function at every use.)
PTrim(N, t) == LET s == TLCEval(t)
                   D == {d \in DOMAIN s : ~NIsZero(N, s[d])}
               IN IF D = DOMAIN s THEN s ELSE TLCEval([d \in D |-> s[d]])
PTerm(N, c, d) == IF NIsZero(N, c) THEN PZero ELSE (d :> c)
PConst(N, c) == PTerm(N, c, DZero(N))
POne(N) == PConst(N, NOne(N))
PIsZero(f) == DOMAIN f = {}
PCoeff(N, f, d) == IF d \in DOMAIN f THEN f[d] ELSE NZero(N)
\* Only for non-zero polynomials.
PDeg(N, f) == CHOOSE d \in DOMAIN f : \A e \in DOMAIN f : DLe(N, e, d)
PLead(N, f) == f[PDeg(N, f)]

PAdd(N, f, g) ==
    PTrim(N, [d \in DOMAIN f \cup DOMAIN g |->
        IF d \in DOMAIN f
        THEN IF d \in DOMAIN g THEN NAdd(N, f[d], g[d]) ELSE f[d]
        ELSE g[d]])
PNeg(N, f) == TLCEval([d \in DOMAIN f |-> NNeg(N, f[d])])
PSub(N, f, g) == PAdd(N, f, PNeg(N, g))
PScale(N, f, c) == IF NIsZero(N, c) THEN PZero
                   ELSE PTrim(N, [d \in DOMAIN f |-> NMul(N, f[d], c)])

NSumOver(N, Op(_), S) == FoldSet(LAMBDA e, acc : NAdd(N, acc, Op(e)), NZero(N), S)

PMul(N, f, g) ==
    LET D == {DAdd(N, i, j) : i \in DOMAIN f, j \in DOMAIN g}
        Col(d) == {i \in DOMAIN f : DSub(N, d, i) \in DOMAIN g}
    IN PTrim(N, [d \in D |-> NSumOver(N, LAMBDA i : NMul(N, f[i], g[DSub(N, d, i)]), Col(d))])

RECURSIVE PPow(_, _, _)
PPow(N, f, n) == IF n = 0 THEN POne(N)
                 ELSE IF n % 2 = 0 THEN LET h == PPow(N, f, n \div 2) IN PMul(N, h, h)
                 ELSE PMul(N, f, PPow(N, f, n - 1))

RECURSIVE NPow(_, _, _)
NPow(N, x, n) == IF n = 0 THEN NOne(N)
                 ELSE IF n % 2 = 0 THEN LET h == NPow(N, x, n \div 2) IN NMul(N, h, h)
                 ELSE NMul(N, x, NPow(N, x, n - 1))

\* x^d for a degree d; a big d only together with x in {-1, 0, 1}.
NPowDeg(N, x, d) ==
    IF ~IsBig(N) THEN NPow(N, x, d)
    ELSE IF x = NOne(N) \/ d = BZero THEN NOne(N)
    ELSE IF x = BZero THEN BZero
    ELSE IF x = BigNeg(NOne(N)) THEN (IF BigEven(d) THEN NOne(N) ELSE x)
    ELSE NPow(N, x, BigToInt(d))

PEval(N, f, x) == NSumOver(N, LAMBDA d : NMul(N, f[d], NPowDeg(N, x, d)), DOMAIN f)

PDerive(N, f) ==
    PTrim(N, [d \in {DSub(N, e, DOne(N)) : e \in DOMAIN f \ {DZero(N)}} |->
        LET e == DAdd(N, d, DOne(N)) IN NMul(N, f[e], NOfDeg(N, e))])

PShl(N, f, n) == TLCEval([d \in {DAdd(N, e, n) : e \in DOMAIN f} |-> f[DSub(N, d, n)]])
PShr(N, f, n) == TLCEval([d \in {DSub(N, e, n) : e \in {x \in DOMAIN f : DLe(N, n, x)}} |-> f[DAdd(N, d, n)]])

\* The polynomial of the absolute values, which bounds every partial sum.
PAbs(N, f) == TLCEval([d \in DOMAIN f |-> NAbs(N, f[d])])
PMass(N, f) == NSumOver(N, LAMBDA d : NAbs(N, f[d]), DOMAIN f)

\* Division of leading coefficients; big systems only divide by plus or minus one.
PLeadDivides(N, b, a) == IF IsBig(N) THEN NMul(N, b, b) = NOne(N) ELSE NDivides(N, b, a)
PLeadDiv(N, a, b) == IF IsBig(N) THEN NMul(N, a, b) ELSE NDiv(N, a, b)

RECURSIVE PDivStep(_, _, _, _, _)
\* Long division: quotient q, remainder r, whether every leading division was
\* exact, and whether some intermediate value leaves the coefficient type.
PDivStep(N, r, g, q, over) ==
    IF PIsZero(r) \/ DLt(N, PDeg(N, r), PDeg(N, g))
    THEN [q |-> q, r |-> r, exact |-> TRUE, over |-> over]
    ELSE IF IsBig(N) /\ ~PLeadDivides(N, PLead(N, g), PLead(N, r))
    THEN [q |-> q, r |-> r, exact |-> FALSE, over |-> TRUE]
    ELSE Bind([a |-> PLead(N, r), b |-> PLead(N, g), e |-> DSub(N, PDeg(N, r), PDeg(N, g))],
              LAMBDA l :
         Bind([t |-> PLeadDiv(N, l.a, l.b), e |-> l.e],
              LAMBDA j :
         Bind([t |-> j.t, e |-> j.e, s |-> PMul(N, g, PTerm(N, j.t, j.e))],
              LAMBDA m :
         Bind([rr |-> PSub(N, r, m.s), q |-> PAdd(N, q, PTerm(N, m.t, m.e))],
              LAMBDA n :
         Bind(\/ over
              \/ ~InRange(N, m.t)
              \/ \E d \in DOMAIN m.s : ~InRange(N, m.s[d]) \/ ~MagFits(N, NAbs(N, m.s[d]))
              \/ \E d \in DOMAIN n.rr : ~InRange(N, n.rr[d]),
              LAMBDA oo :
         IF ~PLeadDivides(N, l.b, l.a)
         THEN [q |-> n.q, r |-> n.rr, exact |-> FALSE, over |-> oo]
         ELSE PDivStep(N, n.rr, g, n.q, oo))))))
PDivMod(N, f, g) == PDivStep(N, f, g, PZero, FALSE)

(***************************************************************************)
(* Listings: how the library reports a polynomial, a sequence of           *)
(* <<coefficient, degree>> pairs.                                          *)
(***************************************************************************)
Lists(N, r, f) ==
    /\ Len(r) = Cardinality(DOMAIN f)
    /\ \A i \in 1..Len(r) : r[i][2] \in DOMAIN f /\ f[r[i][2]] = r[i][1]
    /\ \A i \in 1..(Len(r) - 1) : DLt(N, r[i + 1][2], r[i][2])
\* A listing in canonical form: strictly descending degrees, no zero coefficient.
Canonical(N, r) ==
    /\ \A i \in 1..Len(r) : ~NIsZero(N, r[i][1])
    /\ \A i \in 1..(Len(r) - 1) : DLt(N, r[i + 1][2], r[i][2])
\* The polynomial of a canonical listing, and the sum of any list of terms.
OfListing(N, r) ==
    LET D == {r[i][2] : i \in 1..Len(r)}
    IN TLCEval([d \in D |-> r[CHOOSE i \in 1..Len(r) : r[i][2] = d][1]])
SumTerms(N, r) == FoldLeft(LAMBDA acc, t : PAdd(N, acc, PTerm(N, t[1], t[2])), PZero, r)
Listing(N, f) ==
    LET s == SetToSortSeq(DOMAIN f, LAMBDA x, y : DLt(N, y, x))
    IN TLCEval([i \in 1..Len(s) |-> <<f[s[i]], s[i]>>])

(***************************************************************************)
(* Abstraction of stored representations.                                  *)
(***************************************************************************)
\* A coefficient vector or array, highest degree first.
AbsVec(N, v) ==
    LET n == Len(v)
        D == {i \in 1..n : ~NIsZero(N, v[i])}
    IN IF IsBig(N)
       THEN LET P == {<<BigOfInt(n - i), i>> : i \in D}
            IN TLCEval([d \in {p[1] : p \in P} |-> v[n - BigToInt(d)]])
       ELSE TLCEval([d \in {n - i : i \in D} |-> v[n - d]])
\* A map given as its list of <<coefficient, degree>> entries (distinct degrees).
AbsMap(N, m) == PTrim(N, OfListing(N, m))
AbsRaw(N, kind, raw) == IF kind \in {"S", "M"} THEN AbsMap(N, raw) ELSE AbsVec(N, raw)
=============================================================================
