------------------------------- MODULE Roots -------------------------------
(***************************************************************************)
(* Root finding.  What a root finder reports is a classification and a     *)
(* list of real or complex numbers (pairs <<re, im>>).  The specification  *)
(* does not compute roots: it decides whether reported numbers are roots   *)
(* by substituting them, and whether all are there by multiplying the      *)
(* linear factors out again.  Where roots are exactly representable the    *)
(* history may carry them as witnesses; the specification verifies a       *)
(* witness before it holds the library to it.                              *)
(***************************************************************************)
EXTENDS Machine

Coef(f, d) == PCoeff(N, f, DOf(N, d))
HasDegree(f, d) == ~PIsZero(f) /\ PDeg(N, f) = DOf(N, d)

(***************************************************************************)
(* Complex numbers over N.                                                 *)
(***************************************************************************)
CMul(x, y) == <<NSub(N, NMul(N, x[1], y[1]), NMul(N, x[2], y[2])),
                NAdd(N, NMul(N, x[1], y[2]), NMul(N, x[2], y[1]))>>
CAdd(x, y) == <<NAdd(N, x[1], y[1]), NAdd(N, x[2], y[2])>>
CNeg(x) == <<NNeg(N, x[1]), NNeg(N, x[2])>>
CReal(x) == <<x, NZero(N)>>
CAbs(x) == NAdd(N, NAbs(N, x[1]), NAbs(N, x[2]))       \* at least the modulus

\* The polynomial k * (x - z1) * ... * (x - zn) as its complex coefficients,
\* lowest degree first.
RECURSIVE Expand(_, _, _)
Expand(acc, zs, i) ==
    IF i > Len(zs) THEN acc
    ELSE Expand(TLCEval([j \in 1..(Len(acc) + 1) |->
                    CAdd(IF j > 1 THEN acc[j - 1] ELSE CReal(NZero(N)),
                         IF j <= Len(acc) THEN CNeg(CMul(acc[j], zs[i])) ELSE CReal(NZero(N)))]),
                zs, i + 1)
\* The same with magnitudes: bounds every term of the expansion.
RECURSIVE ExpandMass(_, _, _)
ExpandMass(acc, zs, i) ==
    IF i > Len(zs) THEN acc
    ELSE ExpandMass(TLCEval([j \in 1..(Len(acc) + 1) |->
                        NAdd(N, IF j > 1 THEN acc[j - 1] ELSE NZero(N),
                             IF j <= Len(acc) THEN NMul(N, acc[j], CAbs(zs[i])) ELSE NZero(N))]),
                    zs, i + 1)
\* f = k * product of (x - z), exactly.
Factors(f, k, zs) ==
    LET e == Expand(<<CReal(k)>>, zs, 1)
    IN /\ \A j \in 1..Len(e) : e[j] = CReal(Coef(f, j - 1))
       /\ \A d \in DOMAIN f : DLe(N, d, DOf(N, Len(zs)))
\* The same up to rounding.
FactorsNearly(f, k, zs) ==
    LET e == Expand(<<CReal(k)>>, zs, 1)
        m == FoldLeft(LAMBDA x, y : NAdd(N, x, y), PMass(N, f), ExpandMass(<<NAbs(N, k)>>, zs, 1))
    IN /\ \A j \in 1..Len(e) :
             /\ Close(N, e[j][1], Coef(f, j - 1), m)
             /\ Close(N, e[j][2], NZero(N), m)
       /\ \A d \in DOMAIN f : DLe(N, d, DOf(N, Len(zs)))
Reals(re) == TLCEval([i \in 1..Len(re) |-> CReal(re[i])])

(***************************************************************************)
(* Degree at most one.                                                     *)
(***************************************************************************)
\* x solves a*x + b = 0: exactly when a divides b, up to rounding for floats.
SolvesLinear(a, b, x) ==
    IF ~Exact(N) \/ N.t \in {"float", "field"} THEN IsQuot(N, NNeg(N, b), a, x)
    ELSE IsQuot(N, NNeg(N, b), a, x) \/ ~(\E e \in {-1, 0, 1} :
            NMul(N, NAdd(N, x, NOf(N, e)), a) = NNeg(N, b))
NoList(re, co) == re = <<>> /\ co = <<>>
Linear(a, b, cl, re, co) ==
    /\ co = <<>>
    /\ IF ~NIsZero(N, a) THEN cl = "OneRealRoot" /\ Len(re) = 1 /\ SolvesLinear(a, b, re[1])
       ELSE re = <<>> /\ cl = IF NIsZero(N, b) THEN "InfiniteRoots" ELSE "NoRoots"
LinearRoot(a, out, cl, re, co) ==
    /\ Present(a)
    /\ LET f == reg[a]
       IN \/ out = "ok" /\ Linear(Coef(f, 1), Coef(f, 0), cl, re, co)
          \/ out = "panic" /\ ~InRange(N, NNeg(N, Coef(f, 0)))
    /\ Keep
MonomialRoot(a, out, cl, re, co) ==
    /\ Present(a) /\ out = "ok" /\ co = <<>>
    /\ IF PIsZero(reg[a]) THEN cl = "InfiniteRoots" /\ re = <<>>
       ELSE IF HasDegree(reg[a], 0) THEN cl = "NoRoots" /\ re = <<>>
       ELSE cl = "OneRealRoot" /\ re = <<NZero(N)>>
    /\ Keep

(***************************************************************************)
(* Quadratics.                                                             *)
(***************************************************************************)
Disc(f) == NSub(N, NMul(N, Coef(f, 1), Coef(f, 1)), NMul(N, NOf(N, 4), NMul(N, Coef(f, 2), Coef(f, 0))))
DiscMayPanic(f) ==
    LET b2 == NMul(N, Coef(f, 1), Coef(f, 1))
        ac == NMul(N, Coef(f, 2), Coef(f, 0))
        ac4 == NMul(N, NOf(N, 4), ac)
    IN \/ ~InRange(N, b2) \/ ~InRange(N, ac) \/ ~InRange(N, ac4) \/ ~InRange(N, Disc(f))
       \/ \E x \in {Coef(f, 2), Coef(f, 0)} : ~InRange(N, NMul(N, NOf(N, 4), x))   \* 4ac in any order
Discriminant(a, out, v) ==
    /\ Present(a)
    /\ \/ out = "ok" /\ v = Disc(reg[a])
       \/ out = "panic" /\ DiscMayPanic(reg[a])
    /\ Keep
\* |sqrt(disc)| <= |b| + |2a| + |2c|, so nothing below can overflow unless this does.
QuadraticMayPanic(f) ==
    LET s == NAdd(N, NAbs(N, Coef(f, 1)), NMul(N, NOf(N, 2), NAdd(N, NAbs(N, Coef(f, 2)), NAbs(N, Coef(f, 0)))))
    IN \/ ~InRange(N, NNeg(N, Coef(f, 1))) \/ ~InRange(N, NNeg(N, Coef(f, 0)))
       \/ ~NIsZero(N, Coef(f, 2)) /\ (DiscMayPanic(f) \/ ~InRange(N, NNeg(N, Disc(f)))
                                      \/ ~InRange(N, NMul(N, NOf(N, 2), Coef(f, 2)))
                                      \/ ~MagFits(N, NAdd(N, s, s)))
Conjugates(co) == co[1][1] = co[2][1] /\ co[1][2] = NNeg(N, co[2][2])
\* w: witnesses for the two roots as complex numbers, or <<>>.
\* Roots the library must have found exactly, given a verified witness.
ExactlyRoots(zs, w) == {zs[1], zs[2]} = {w[1], w[2]}
Quadratic(f, cl, re, co, w) ==
    IF NIsZero(N, Coef(f, 2)) THEN Linear(Coef(f, 1), Coef(f, 0), cl, re, co)
    ELSE LET d == Disc(f)
             zs == IF NSign(N, d) >= 0 THEN Reals(re) ELSE co
         IN /\ IF NSign(N, d) >= 0
               THEN cl = "TwoRealRoots" /\ Len(re) = 2 /\ co = <<>> /\ NLe(N, re[2], re[1])
               ELSE cl = "TwoComplexRoots" /\ Len(co) = 2 /\ re = <<>> /\ Conjugates(co)
            /\ IF Len(w) = 2 /\ Factors(f, Coef(f, 2), w) THEN ExactlyRoots(zs, w) ELSE TRUE
            /\ IF N.t = "float" THEN FactorsNearly(f, Coef(f, 2), zs) ELSE TRUE
QuadraticRoots(a, out, cl, re, co, w) ==
    /\ Present(a)
    /\ \/ out = "ok" /\ Quadratic(reg[a], cl, re, co, w)
       \/ out = "panic" /\ QuadraticMayPanic(reg[a])
    /\ Keep
\* Factors: leading coefficient k and two monic linear factors, given as
\* complex coefficient pairs fs = << <<1, -z1>>, <<1, -z2>> >>.
FactorRoots(fs) == TLCEval([i \in 1..2 |-> CNeg(fs[i][2])])
Monic(fs) == \A i \in 1..2 : fs[i][1] = CReal(NOne(N))
FactorsRight(f, k, fs, w) ==
    /\ k = Coef(f, 2) /\ Len(fs) = 2 /\ Monic(fs)
    /\ IF Len(w) = 2 /\ Factors(f, Coef(f, 2), w) THEN ExactlyRoots(FactorRoots(fs), w) ELSE TRUE
    /\ IF N.t = "float" THEN FactorsNearly(f, k, FactorRoots(fs)) ELSE TRUE
RealFactors(a, out, some, k, fs, w) ==
    /\ Present(a)
    /\ LET f == reg[a]
           any == ~NIsZero(N, Coef(f, 2)) /\ NSign(N, Disc(f)) >= 0
       IN \/ /\ out = "ok" /\ some = any
             /\ some => FactorsRight(f, k, fs, w) /\ \A i \in 1..2 : fs[i][2][2] = NZero(N)
          \/ out = "panic" /\ QuadraticMayPanic(f)
    /\ Keep
ComplexFactors(a, out, k, fs, w) ==
    /\ Present(a)
    /\ LET f == reg[a]
       IN \/ out = "ok" /\ ~NIsZero(N, Coef(f, 2)) /\ FactorsRight(f, k, fs, w)
          \/ out = "panic" /\ (NIsZero(N, Coef(f, 2)) \/ QuadraticMayPanic(f))
    /\ Keep

(***************************************************************************)
(* Dense and sparse f64 polynomials of any degree.                         *)
(***************************************************************************)
\* Horner evaluation at a real point, and of the magnitudes.
RECURSIVE REval(_, _, _, _)
REval(f, x, d, acc) == IF d < 0 THEN acc ELSE REval(f, x, d - 1, TLCEval(NAdd(N, NMul(N, acc, x), Coef(f, d))))
RECURSIVE MEval(_, _, _, _)
MEval(f, m, d, acc) == IF d < 0 THEN acc ELSE MEval(f, m, d - 1, TLCEval(NAdd(N, NMul(N, acc, m), NAbs(N, Coef(f, d)))))
DegInt(f) == IF IsBig(N) THEN BigToInt(PDeg(N, f)) ELSE PDeg(N, f)
IsRoot(f, x) == Close(N, REval(f, x, DegInt(f), NZero(N)), NZero(N), MEval(f, NAbs(N, x), DegInt(f), NZero(N)))
\* Discriminant of a cubic.
CubicDisc(f) ==
    LET a == Coef(f, 3) b == Coef(f, 2) c == Coef(f, 1) d == Coef(f, 0)
        M(x, y) == NMul(N, x, y)
        K(i, x) == NMul(N, NOf(N, i), x)
    IN NAdd(N, NAdd(N, K(18, M(M(a, b), M(c, d))), NSub(N, M(M(b, b), M(c, c)), K(4, M(M(b, M(b, b)), d)))),
            NNeg(N, NAdd(N, K(4, M(a, M(c, M(c, c)))), K(27, M(M(a, a), M(d, d))))))
SingleTerm(f) == Cardinality(DOMAIN f) = 1
\* Degree at most three: everything, with multiplicity.
SmallRoots(f, cl, re, co) ==
    LET n == DegInt(f)
        zs == IF cl = "ManyRealRoots" THEN Reals(re) ELSE co
        disc == IF n = 2 THEN Disc(f) ELSE IF n = 3 THEN CubicDisc(f) ELSE NOne(N)
    IN /\ cl \in {"ManyRealRoots", "ManyComplexRoots"}
       /\ IF cl = "ManyRealRoots" THEN co = <<>> ELSE re = <<>>
       /\ Len(zs) = n
       /\ FactorsNearly(f, Coef(f, n), zs)
       /\ NSign(N, disc) > 0 => cl = "ManyRealRoots"
       /\ NSign(N, disc) < 0 => cl = "ManyComplexRoots"
\* The witness of a well separated polynomial: w distinct real roots, pairs
\* a list of <<u, v>> for further factors x^2 + u*x + v without real roots.
RECURSIVE ProdLinear(_, _)
ProdLinear(f, w) == IF w = <<>> THEN f
    ELSE ProdLinear(PAdd(N, PShl(N, f, DOne(N)), PScale(N, f, NNeg(N, w[1]))), Tail(w))
MonicQuadratic(p) == PAdd(N, PTerm(N, NOne(N), DOf(N, 2)),
                          PAdd(N, PTerm(N, p[1], DOne(N)), PConst(N, p[2])))
RECURSIVE ProdQuadratic(_, _)
ProdQuadratic(f, ps) == IF ps = <<>> THEN f
    ELSE ProdQuadratic(PMul(N, f, MonicQuadratic(ps[1])), Tail(ps))
WitnessHolds(f, w, pairs) ==
    /\ \A i \in 1..Len(w) : \A j \in 1..Len(w) : i # j => w[i] # w[j]
    /\ \A i \in 1..Len(pairs) : NSign(N, Disc(MonicQuadratic(pairs[i]))) < 0
    /\ ProdQuadratic(ProdLinear(PConst(N, PLead(N, f)), w), pairs) = f
NearRoot(x, y) == Close(N, x, y, NAdd(N, NOne(N), NAbs(N, y)))
Found(re, w) ==
    /\ Len(re) = Len(w)
    /\ \A i \in 1..Len(w) : \E j \in 1..Len(re) : NearRoot(re[j], w[i])
\* All real roots of a polynomial with known, separated roots.
LargeRoots(f, cl, re, co, w, pairs) ==
    /\ Found(re, w) /\ co = <<>>
    /\ \A i \in 1..Len(re) : IsRoot(f, re[i])
    /\ cl = IF w = <<>> THEN "NoRoots" ELSE IF pairs = <<>> THEN "ManyRealRoots" ELSE "OnlyRealRoots"
FloatRoots(a, out, cl, re, co, wit, w, pairs) ==
    /\ Present(a) /\ out = "ok"
    /\ LET f == reg[a]
       IN IF PIsZero(f) THEN cl = "InfiniteRoots" /\ NoList(re, co)
          ELSE IF HasDegree(f, 0) THEN cl = "NoRoots" /\ NoList(re, co)
          ELSE IF SingleTerm(f) THEN cl = "ManyRealRoots" /\ re = <<NZero(N)>> /\ co = <<>>
          ELSE IF DLe(N, PDeg(N, f), DOf(N, 3)) THEN SmallRoots(f, cl, re, co)
          ELSE /\ cl \in {"NoRoots", "NoRootsFound"} <=> NoList(re, co)
               /\ Len(re) + Len(co) <= DegInt(f)
               /\ IF wit
                  THEN IF WitnessHolds(f, w, pairs) THEN LargeRoots(f, cl, re, co, w, pairs)
                       ELSE Assert(FALSE, "Roots: witness does not hold")
                  ELSE TRUE
    /\ Keep
=============================================================================
