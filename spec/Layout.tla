------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The storage level.  Polynomial keeps a vector of coefficients, highest  *)
(* degree first, possibly with zeros in front; SparsePolynomial keeps a    *)
(* map from degrees to coefficients, possibly with explicit zeros.  The    *)
(* algorithms the library runs on these representations are written out    *)
(* here, and each is checked to commute with the abstraction to the        *)
(* mathematical polynomial (AbsVec, AbsMap of module Poly): what a stored  *)
(* zero does is decided here, once, for every small representation.        *)
(***************************************************************************)
EXTENDS Poly

CONSTANTS System,     \* "int" or "mod"
          Size        \* longest vector, number of degrees in a map
VARIABLES v, w,       \* two vectors
          m, n        \* two maps

N == IF System = "int"
     THEN [k |-> "int", t |-> "signed", p |-> 0, fx |-> 0, min |-> -100000, max |-> 100000, rel |-> -1, prec |-> 0]
     ELSE [k |-> "mod", t |-> "field", p |-> 3, fx |-> 0, min |-> 0, max |-> 0, rel |-> -1, prec |-> 0]
Scalars == {NOf(N, -1), NOf(N, 0), NOf(N, 1)}
Vectors == UNION {[1..l -> Scalars] : l \in 0..Size}
Maps == UNION {[D -> Scalars] : D \in SUBSET (0..(Size - 1))}

Init == \/ v \in Vectors /\ w \in Vectors /\ m = <<>> /\ n = <<>>
        \/ v = <<>> /\ w = <<>> /\ m \in Maps /\ n \in Maps
Next == UNCHANGED <<v, w, m, n>>

(***************************************************************************)
(* Vectors.                                                                *)
(***************************************************************************)
VecCoeff(a, d) == IF d < Len(a) THEN a[Len(a) - d] ELSE 0
RECURSIVE VTrim(_)
VTrim(a) == IF a = <<>> THEN a ELSE IF a[1] = 0 THEN VTrim(Tail(a)) ELSE a
\* Operands are aligned at the constant term; the longer one decides the length.
VZip(a, b, Op(_, _)) ==
    LET l == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
    IN TLCEval([i \in 1..l |-> Op(VecCoeff(a, l - i), VecCoeff(b, l - i))])
VAdd(a, b) == VZip(a, b, LAMBDA x, y : NAdd(N, x, y))
VSub(a, b) == VZip(a, b, LAMBDA x, y : NSub(N, x, y))
VMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
            NSumOver(N, LAMBDA i : NMul(N, a[i], b[k + 1 - i]),
                     {i \in 1..Len(a) : k + 1 - i \in 1..Len(b)})])
VShl(a, k) == a \o [i \in 1..k |-> 0]
VShr(a, k) == IF k >= Len(a) THEN <<>> ELSE SubSeq(a, 1, Len(a) - k)
VDerive(a) == IF Len(a) <= 1 THEN <<>>
              ELSE TLCEval([i \in 1..(Len(a) - 1) |-> NMul(N, a[i], NOf(N, Len(a) - i))])
RECURSIVE Horner(_, _, _, _)
Horner(a, x, i, acc) == IF i > Len(a) THEN acc ELSE Horner(a, x, i + 1, NAdd(N, NMul(N, acc, x), a[i]))
VDegree(a) == IF \A i \in 1..Len(a) : a[i] = 0 THEN <<>>
              ELSE <<Len(a) - (CHOOSE i \in 1..Len(a) : a[i] # 0 /\ \A j \in 1..(i - 1) : a[j] = 0)>>
VEq(a, b) == VTrim(a) = VTrim(b)
RECURSIVE VDivFrom(_, _, _, _)
\* Long division in place: a is the remainder so far, its coefficients are cleared from the front;
\* the coefficient at position i of a (counted from the front) is divided while b still fits.
VDivFrom(a, b, i, q) ==
    IF i + Len(b) - 1 > Len(a) THEN [q |-> q, r |-> a]
    ELSE LET t == NDiv(N, a[i], b[1])
             c == TLCEval([j \in 1..Len(a) |-> IF j \in i..(i + Len(b) - 1)
                                               THEN NSub(N, a[j], NMul(N, t, b[j - i + 1])) ELSE a[j]])
         IN VDivFrom(c, b, i + 1, Append(q, t))
VDivMod(a, b) == VDivFrom(a, VTrim(b), 1, <<>>)

A(a) == AbsVec(N, a)
DenseRefines ==
    /\ A(VTrim(v)) = A(v) /\ (VTrim(v) = <<>> \/ VTrim(v)[1] # 0)
    /\ A(VAdd(v, w)) = PAdd(N, A(v), A(w))
    /\ A(VSub(v, w)) = PSub(N, A(v), A(w))
    /\ A(VMul(v, w)) = PMul(N, A(v), A(w))
    /\ \A k \in 0..3 : A(VShl(v, k)) = PShl(N, A(v), k) /\ A(VShr(v, k)) = PShr(N, A(v), k)
    /\ A(VDerive(v)) = PDerive(N, A(v))
    /\ \A x \in Scalars \cup {NOf(N, 2)} : Horner(v, x, 1, NZero(N)) = PEval(N, A(v), x)
    /\ VDegree(v) = IF PIsZero(A(v)) THEN <<>> ELSE <<PDeg(N, A(v))>>
    /\ VEq(v, w) = (A(v) = A(w))
    /\ ~PIsZero(A(w)) => \E d \in {VDivMod(v, w)}, p \in {PDivMod(N, A(v), A(w))} :
          A(d.q) = p.q /\ A(d.r) = p.r

(***************************************************************************)
(* Maps.                                                                   *)
(***************************************************************************)
\* entry(d).or_insert(0) += c, which leaves a zero behind when terms cancel.
Entry(a, d, c) == IF d \in DOMAIN a THEN [a EXCEPT ![d] = NAdd(N, @, c)] ELSE a @@ (d :> c)
MapAdd(a, b) == FoldSet(LAMBDA d, acc : Entry(acc, d, b[d]), a, DOMAIN b)
MapSub(a, b) == FoldSet(LAMBDA d, acc : Entry(acc, d, NNeg(N, b[d])), a, DOMAIN b)
MapMul(a, b) == FoldSet(LAMBDA p, acc : Entry(acc, p[1] + p[2], NMul(N, a[p[1]], b[p[2]])),
                        [d \in {} |-> 0], (DOMAIN a) \X (DOMAIN b))
MapShl(a, k) == [d \in {e + k : e \in DOMAIN a} |-> a[d - k]]
MapShr(a, k) == [d \in {e - k : e \in {x \in DOMAIN a : x >= k}} |-> a[d + k]]
MapDerive(a) == [d \in {e - 1 : e \in DOMAIN a \ {0}} |-> NMul(N, a[d + 1], NOf(N, d + 1))]
MapTrim(a) == [d \in {e \in DOMAIN a : a[e] # 0} |-> a[d]]
MapDegree(a) == LET D == {d \in DOMAIN a : a[d] # 0} IN IF D = {} THEN <<>> ELSE <<Max(D)>>
MapEq(a, b) == \A d \in DOMAIN a \cup DOMAIN b :
    (IF d \in DOMAIN a THEN a[d] ELSE 0) = (IF d \in DOMAIN b THEN b[d] ELSE 0)
B(a) == PTrim(N, a)
SparseRefines ==
    /\ B(MapTrim(m)) = B(m) /\ MapTrim(m) = B(m)
    /\ B(MapAdd(m, n)) = PAdd(N, B(m), B(n))
    /\ B(MapSub(m, n)) = PSub(N, B(m), B(n))
    /\ B(MapMul(m, n)) = PMul(N, B(m), B(n))
    /\ \A k \in 0..3 : B(MapShl(m, k)) = PShl(N, B(m), k) /\ B(MapShr(m, k)) = PShr(N, B(m), k)
    /\ B(MapDerive(m)) = PDerive(N, B(m))
    /\ MapDegree(m) = IF PIsZero(B(m)) THEN <<>> ELSE <<PDeg(N, B(m))>>
    /\ MapEq(m, n) = (B(m) = B(n))
\* Converting a vector to a map and back keeps the polynomial.
Conversions ==
    LET asMap == [d \in 0..(Len(v) - 1) |-> VecCoeff(v, d)]
        top == IF DOMAIN m = {} THEN -1 ELSE Max(DOMAIN m)
        asVec == TLCEval([i \in 1..(top + 1) |-> IF top + 1 - i \in DOMAIN m THEN m[top + 1 - i] ELSE 0])
    IN B(asMap) = A(v) /\ A(asVec) = B(m)
=============================================================================
