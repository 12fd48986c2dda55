------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The library as a state machine.  A client owns registers, each holding  *)
(* a polynomial of some kind:                                              *)
(*    "D" Polynomial  "S" SparsePolynomial  "M" Monomial                   *)
(*    "L" LinearBinomial  "Q" QuadraticTrinomial  "A" ArrayPolynomial      *)
(* and every public call is one action.  The abstract content of a         *)
(* register is the mathematical polynomial (module Poly); kind[r] is       *)
(* "none" when the register holds nothing (never written, or the call      *)
(* that was writing it panicked).                                          *)
(*                                                                         *)
(* Each action takes the observable outcome of the call as a parameter     *)
(* ("ok" and the listing of the result, an error, or "panic") and is       *)
(* enabled exactly for the outcomes the library may produce.               *)
(***************************************************************************)
EXTENDS Poly

CONSTANT Regs
VARIABLES num,      \* the number system of this history
          reg,      \* register -> polynomial
          kind      \* register -> kind of the stored value

mvars == <<num, reg, kind>>
Kinds == {"D", "S", "M", "L", "Q", "A"}

Present(r) == kind[r] # "none"
N == num

Set(d, k, f) == /\ reg' = [reg EXCEPT ![d] = f]
                /\ kind' = [kind EXCEPT ![d] = k]
                /\ UNCHANGED num
Keep == UNCHANGED mvars
Drop(d) == Set(d, "none", PZero)

(***************************************************************************)
(* A call computing polynomial f into register d: either it returns and    *)
(* the listing is exactly f, or it panics, which needs a reason.           *)
(***************************************************************************)
Yield(d, k, f, out, r, mayPanic) ==
    \/ /\ out = "ok"
       /\ Lists(N, r, f)
       /\ Set(d, k, f)
    \/ /\ out = "panic"
       /\ mayPanic
       /\ Drop(d)

CoeffOverflow(f) == \E d \in DOMAIN f : ~InRange(N, f[d])
DegreeOverflow(f) == \E d \in DOMAIN f : ~DFits(N, d)
MassOverflow(f) == \E d \in DOMAIN f : ~MagFits(N, f[d])

\* Storing a raw representation.
Put(d, k, raw, r) ==
    LET f == AbsRaw(N, k, raw) IN Lists(N, r, f) /\ Set(d, k, f)

Add(a, b, d, out, r) ==
    /\ Present(a) /\ Present(b)
    /\ LET f == PAdd(N, reg[a], reg[b])
       IN Yield(d, kind[a], f, out, r, CoeffOverflow(f))
Sub(a, b, d, out, r) ==
    /\ Present(a) /\ Present(b)
    /\ LET f == PSub(N, reg[a], reg[b])
       IN Yield(d, kind[a], f, out, r, CoeffOverflow(f))
Neg(a, d, out, r) ==
    /\ Present(a)
    /\ LET f == PNeg(N, reg[a]) IN Yield(d, kind[a], f, out, r, CoeffOverflow(f))

\* Products: any partial sum of coefficient products may overflow.
ProductOverflow(f, g) ==
    LET m == PMul(N, PAbs(N, f), PAbs(N, g)) IN MassOverflow(m) \/ DegreeOverflow(m)
Mul(a, b, d, out, r) ==
    /\ Present(a) /\ Present(b)
    /\ Yield(d, kind[a], PMul(N, reg[a], reg[b]), out, r, ProductOverflow(reg[a], reg[b]))
Scale(a, c, d, out, r) ==
    /\ Present(a)
    /\ LET f == PScale(N, reg[a], c) IN Yield(d, kind[a], f, out, r, CoeffOverflow(f))
\* Division by a scalar: checked coefficient by coefficient.
Unscale(a, c, d, out, r) ==
    /\ Present(a)
    /\ \/ /\ out = "ok"
          /\ (NIsZero(N, c) => PIsZero(reg[a]))
          /\ Canonical(N, r)
          /\ LET f == reg[a]
                 q == OfListing(N, r)
             IN /\ DOMAIN q \subseteq DOMAIN f
                /\ \A e \in DOMAIN f : IsQuot(N, f[e], c, PCoeff(N, q, e))
                /\ Set(d, kind[a], q)
       \/ /\ out = "panic"
          /\ \/ NIsZero(N, c)
             \/ c = NOf(N, -1) /\ CoeffOverflow(PNeg(N, reg[a]))
          /\ Drop(d)

RECURSIVE MassPow(_, _, _)
\* mass^n, saturated just above the largest value.
MassPow(m, n, acc) ==
    IF n = 0 \/ ~MagFits(N, acc) THEN acc ELSE MassPow(m, n - 1, NMul(N, acc, m))
PowMayOverflow(f, n) ==
    /\ ~PIsZero(f)
    /\ \/ Bounded(N) /\ PMass(N, f) # NOne(N) /\ ~MagFits(N, MassPow(PMass(N, f), n, NOne(N)))
       \/ IsBig(N) /\ ~DFits(N, DMul(N, PDeg(N, f), BigOfInt(n)))
Pow(a, n, d, out, r) ==
    /\ Present(a)
    /\ IF PowMayOverflow(reg[a], n)
       THEN \/ out = "panic" /\ Drop(d)
            \/ /\ out = "ok" /\ Lists(N, r, PPow(N, reg[a], n)) /\ Set(d, kind[a], PPow(N, reg[a], n))
       ELSE Yield(d, kind[a], PPow(N, reg[a], n), out, r, FALSE)

\* An exponent n beyond what can be multiplied out: nothing, or a single term.
PowHuge(a, n, d, out, r) ==
    /\ Present(a) /\ IsBig(N)
    /\ IF PIsZero(reg[a]) THEN Yield(d, kind[a], PZero, out, r, FALSE)
       ELSE /\ Cardinality(DOMAIN reg[a]) = 1
            /\ LET e == PDeg(N, reg[a])
                   c == reg[a][e]
                   up == DMul(N, e, n)
               IN IF NAbs(N, c) = NOne(N)
                  THEN Yield(d, kind[a], PTerm(N, NPowDeg(N, c, n), up), out, r, ~DFits(N, up))
                  ELSE Bounded(N) /\ out = "panic" /\ Drop(d)

Shl(a, n, d, out, r) ==
    /\ Present(a)
    /\ LET f == PShl(N, reg[a], n) IN Yield(d, kind[a], f, out, r, DegreeOverflow(f))
Shr(a, n, d, out, r) ==
    /\ Present(a)
    /\ Yield(d, kind[a], PShr(N, reg[a], n), out, r, FALSE)

(***************************************************************************)
(* Division.  q and r are the listings of quotient and remainder.          *)
(***************************************************************************)
DivIdentity(f, g, q, r) ==
    LET h == PAdd(N, PMul(N, q, g), r)
    IN IF Exact(N) THEN h = f
       ELSE LET m == NAdd(N, NMul(N, PMass(N, q), PMass(N, g)), NAdd(N, PMass(N, r), PMass(N, f)))
            IN \A d \in DOMAIN h \cup DOMAIN f : Close(N, PCoeff(N, h, d), PCoeff(N, f, d), m)
LowerDegree(r, g) == IF PIsZero(r) THEN TRUE ELSE DLt(N, PDeg(N, r), PDeg(N, g))
\* May a step of the exact computation leave the coefficient type?
DivMayPanic(f, g) == IF PIsZero(g) THEN TRUE ELSE IF Bounded(N) THEN PDivMod(N, f, g).over ELSE FALSE
QuotRem(f, g, q, r) ==
    /\ ~PIsZero(g)
    /\ DivIdentity(f, g, q, r)
    /\ (N.t = "float" \/ PDivMod(N, f, g).exact) => LowerDegree(r, g)
DivMod(a, b, d, e, out, q, r) ==
    /\ Present(a) /\ Present(b)
    /\ \/ /\ out = "ok"
          /\ Canonical(N, q) /\ Canonical(N, r)
          /\ QuotRem(reg[a], reg[b], OfListing(N, q), OfListing(N, r))
          /\ reg' = [reg EXCEPT ![d] = OfListing(N, q), ![e] = OfListing(N, r)]
          /\ kind' = [kind EXCEPT ![d] = kind[a], ![e] = kind[a]]
          /\ UNCHANGED num
       \/ /\ out = "panic"
          /\ DivMayPanic(reg[a], reg[b])
          /\ reg' = [reg EXCEPT ![d] = PZero, ![e] = PZero]
          /\ kind' = [kind EXCEPT ![d] = "none", ![e] = "none"]
          /\ UNCHANGED num
\* floor_div, % and %= agree with the div_mod of the same operands, whose
\* results q and r the client holds in registers.
SameAs(a, b, src, d, out, r) ==
    /\ Present(a) /\ Present(b)
    /\ \/ Present(src) /\ Yield(d, kind[a], reg[src], out, r, FALSE)
       \/ ~Present(src) /\ out = "ok" /\ ~PIsZero(reg[b]) /\ Canonical(N, r)
          /\ Set(d, kind[a], OfListing(N, r))
       \/ out = "panic" /\ DivMayPanic(reg[a], reg[b]) /\ Drop(d)

(***************************************************************************)
(* Evaluation and calculus.                                                *)
(***************************************************************************)
\* |x|^d, saturated just above the largest value.
MagPow(x, d) ==
    LET m == NAbs(N, x)
    IN IF m = NOne(N) \/ d = DZero(N) THEN NOne(N)
       ELSE IF IsBig(N) /\ Len(d) > 2 THEN NAdd(N, N.max, NOne(N))
       ELSE MassPow(m, IF IsBig(N) THEN BigToInt(d) ELSE d, NOne(N))
EvalMayOverflow(f, x) ==
    /\ Bounded(N)
    /\ ~NIsZero(N, x)
    /\ \/ \E d \in DOMAIN f : ~MagFits(N, MagPow(x, d))
       \/ ~MagFits(N, NSumOver(N, LAMBDA d : NMul(N, NAbs(N, f[d]), MagPow(x, d)), DOMAIN f))
\* A term so large that the value cannot be representable (traces hold at most one such term).
TooWide(f, x) ==
    /\ Bounded(N) /\ IsBig(N) /\ BigBits(x) > 1
    /\ \E d \in DOMAIN f : BigBits(d) > 20 \/ BigToInt(d) * (BigBits(x) - 1) > 390
EvalMass(f, x) == NSumOver(N, LAMBDA d : NAbs(N, NMul(N, f[d], NPowDeg(N, x, d))), DOMAIN f)
Eval(a, x, out, v) ==
    /\ Present(a)
    /\ \/ /\ out = "ok"
          /\ ~TooWide(reg[a], x)
          /\ IF Exact(N) THEN v = PEval(N, reg[a], x)
             ELSE Close(N, v, PEval(N, reg[a], x), EvalMass(reg[a], x))
       \/ out = "panic" /\ EvalMayOverflow(reg[a], x)
    /\ Keep

DegreeUnrepresentable(D) == \E e \in D : ~DRepresentable(N, e)
\* The dense types store, and walk, every degree up to the highest.
PastContiguous(k, D) == k # "S" /\ k # "M" /\ N.t = "float"
    /\ \E e \in D : IF IsBig(N) THEN BigLt(BigPow2(N.prec), e) ELSE e > 16777216
Derive(a, d, out, r) ==
    /\ Present(a)
    /\ LET f == PDerive(N, reg[a])
       IN Yield(d, kind[a], f, out, r,
                CoeffOverflow(f) \/ DegreeUnrepresentable(DOMAIN reg[a] \ {DZero(N)})
                \/ PastContiguous(kind[a], DOMAIN reg[a]))

\* Integrals live in a register as the antiderivative without constant.
UpDegree(e) == DAdd(N, e, DOne(N))
IsIntegral(f, g) ==
    /\ \A e \in DOMAIN f :
          IsQuot(N, f[e], NOfDeg(N, UpDegree(e)), PCoeff(N, g, UpDegree(e)))
    /\ \A e \in DOMAIN g : e # DZero(N) /\ DSub(N, e, DOne(N)) \in DOMAIN f
IntegralKind(k) == IF k \in {"M", "S"} THEN "S" ELSE "D"
Integrate(a, d, out, r) ==
    /\ Present(a)
    /\ \/ /\ out = "ok"
          /\ Canonical(N, r)
          /\ IsIntegral(reg[a], OfListing(N, r))
          /\ Set(d, IntegralKind(kind[a]), OfListing(N, r))
       \/ /\ out = "panic"
          /\ LET up == {UpDegree(e) : e \in DOMAIN reg[a]} 
             IN DegreeUnrepresentable(up) \/ PastContiguous(kind[a], up) \/ \E e \in up : ~DFits(N, e)
          /\ Drop(d)
\* Definite integral of the antiderivative in register a.
Area(a, x, y, out, v) ==
    /\ IF ~Present(a) THEN out = "panic" ELSE
       LET w == NSub(N, PEval(N, reg[a], y), PEval(N, reg[a], x))
       IN \/ /\ out = "ok"
             /\ IF Exact(N) THEN v = w
                ELSE Close(N, v, w, NAdd(N, EvalMass(reg[a], x), EvalMass(reg[a], y)))
          \/ /\ out = "panic"
             /\ EvalMayOverflow(reg[a], x) \/ EvalMayOverflow(reg[a], y) \/ ~InRange(N, w)
    /\ Keep
\* replace_c integrates first: without an antiderivative it panics too.
ReplaceC(a, c, d, out, r) ==
    IF ~Present(a) THEN out = "panic" /\ Drop(d)
    ELSE LET f == PAdd(N, reg[a], PConst(N, c)) IN Yield(d, kind[a], f, out, r, CoeffOverflow(f))

(***************************************************************************)
(* Term insertion and removal.                                             *)
(***************************************************************************)
Capacity(k, n) == IF k = "L" THEN 1 ELSE IF k = "Q" THEN 2 ELSE n - 1
\* The error a type reports when it has no room for degree g ("none" if it has).
\* n is the size of an array polynomial.
Refusal(k, n, f, g) ==
    IF k \in {"L", "Q", "A"} /\ ~DLe(N, g, DOf(N, Capacity(k, n))) THEN "DegreeOutOfBounds"
    ELSE IF k = "M" /\ ~PIsZero(f) /\ DOMAIN f # {g} THEN "TooManyTerms"
    ELSE "none"
\* Adding a zero coefficient changes nothing, so a type may accept or refuse it.
TryTerm(a, n, c, g, plus, out, r) ==
    /\ Present(a)
    /\ LET f == reg[a]
           t == PTerm(N, IF plus THEN c ELSE NNeg(N, c), g)
           h == PAdd(N, f, t)
           no == Refusal(kind[a], n, f, g)
           negative == N.t = "unsigned" /\ ~plus /\ CoeffOverflow(h)
       IN \/ /\ out = "ok" /\ (no = "none" \/ NIsZero(N, c))
             /\ ~CoeffOverflow(h)
             /\ Lists(N, r, h) /\ Set(a, kind[a], h)
          \/ /\ out = no /\ no # "none"
             /\ Lists(N, r, f) /\ Keep
          \/ /\ out = "CanNotNegate"
             /\ N.t = "unsigned" /\ ~plus
             /\ negative \/ (NIsZero(N, c) /\ kind[a] \in {"D", "S"})
             /\ Lists(N, r, f) /\ Keep
          \/ /\ out = "panic" /\ no = "none" /\ CoeffOverflow(h)
             /\ Drop(a)

\* Applying a list of terms in order until one is refused; returns
\* [f |-> polynomial reached, out |-> "ok" or the first error].
RECURSIVE ApplyTerms(_, _, _, _, _)
ApplyTerms(k, n, f, ts, plus) ==
    IF ts = <<>> THEN [f |-> f, out |-> "ok"]
    ELSE LET no == Refusal(k, n, f, ts[1][2])
             h == PAdd(N, f, PTerm(N, IF plus THEN ts[1][1] ELSE NNeg(N, ts[1][1]), ts[1][2]))
         IN IF ~InRange(N, ts[1][1]) THEN [f |-> f, out |-> "overflow"]
            ELSE IF no # "none" THEN [f |-> f, out |-> no]
            ELSE IF CoeffOverflow(h)
                 THEN [f |-> f, out |-> IF N.t = "unsigned" /\ ~plus THEN "negative" ELSE "overflow"]
            ELSE ApplyTerms(k, n, h, Tail(ts), plus)
\* Adds (plus) or subtracts the terms of src to the sink register b.
Accumulate(b, n, ts, plus, out, r) ==
    /\ Present(b)
    /\ LET res == ApplyTerms(kind[b], n, reg[b], ts, plus)
       IN \/ /\ res.out = out /\ Lists(N, r, res.f) /\ Set(b, kind[b], res.f)
          \/ /\ res.out = "negative" /\ out = "CanNotNegate"
             /\ Lists(N, r, res.f) /\ Set(b, kind[b], res.f)
          \/ /\ res.out \in {"negative", "overflow"} /\ out = "panic" /\ Drop(b)

RECURSIVE CrossTerms(_, _)
\* The products mul_poly_vec adds to its sink, in order.
CrossTerms(rs, ls) ==
    IF rs = <<>> THEN <<>>
    ELSE TLCEval([i \in 1..Len(ls) |-> <<NMul(N, rs[1][1], ls[i][1]), DAdd(N, rs[1][2], ls[i][2])>>])
         \o CrossTerms(Tail(rs), ls)

(***************************************************************************)
(* Observers.                                                              *)
(***************************************************************************)
Observe(a, deg, zero, it, tv, looks) ==
    /\ Present(a)
    /\ LET f == reg[a]
       IN /\ zero = PIsZero(f)
          /\ deg = IF PIsZero(f) THEN <<>> ELSE <<PDeg(N, f)>>
          /\ Lists(N, it, f)
          /\ Lists(N, tv, f)
          /\ \A i \in 1..Len(looks) :
                looks[i] = IF looks[i][1] \in DOMAIN f
                           THEN <<looks[i][1], f[looks[i][1]], looks[i][1]>>
                           ELSE <<looks[i][1]>>
    /\ Keep
\* What a trimmed representation stores: a dense one nothing above the leading term,
\* a sparse one nothing but the terms.
Trimmed(a, out, m) ==
    /\ Present(a) /\ out = "ok"
    /\ DOf(N, m) = IF PIsZero(reg[a]) THEN DZero(N)
                   ELSE IF kind[a] = "D" THEN DAdd(N, PDeg(N, reg[a]), DOne(N))
                   ELSE DOf(N, Cardinality(DOMAIN reg[a]))
    /\ Keep
Equal(a, b, v) == Present(a) /\ Present(b) /\ v = (reg[a] = reg[b]) /\ Keep
MakeZero(d, k, r) == Lists(N, r, PZero) /\ Set(d, k, PZero)
\* trim, clone, and anything else that must not change the value.
Same(a, d, r) == Present(a) /\ Lists(N, r, reg[a]) /\ Set(d, kind[a], reg[a])
=============================================================================
