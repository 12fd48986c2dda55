------------------------------ MODULE RootsLaws -----------------------------
(***************************************************************************)
(* Sanity of module Roots: for every quadratic k(x - r)(x - s) with small  *)
(* integer roots the specification accepts exactly the right report, and   *)
(* for every small quadratic it accepts at most one classification.        *)
(***************************************************************************)
EXTENDS Roots

VARIABLES k, r, s
lvars == <<num, reg, kind, k, r, s>>
System == [k |-> "int", t |-> "signed", p |-> 0, fx |-> 0, min |-> -100000, max |-> 100000, rel |-> -1, prec |-> 0]
LInit == /\ num = System /\ reg = [x \in Regs |-> PZero] /\ kind = [x \in Regs |-> "none"]
         /\ k \in -3..3 /\ r \in -4..4 /\ s \in -4..4
LNext == UNCHANGED lvars

Quad(a, b, c) == PTrim(N, (2 :> a) @@ (1 :> b) @@ (0 :> c))
F == Quad(k, -k * (r + s), k * r * s)
Hi == IF r > s THEN r ELSE s
Lo == IF r > s THEN s ELSE r
W == <<CReal(r), CReal(s)>>
RealReport ==
    k # 0 =>
    /\ Factors(F, k, W) /\ NSign(N, Disc(F)) >= 0
    /\ Quadratic(F, "TwoRealRoots", <<Hi, Lo>>, <<>>, W)
    /\ Hi # Lo => ~Quadratic(F, "TwoRealRoots", <<Lo, Hi>>, <<>>, W)
    /\ \A x \in -5..5, y \in -5..5 :
          Quadratic(F, "TwoRealRoots", <<x, y>>, <<>>, W) => x = Hi /\ y = Lo
    /\ ~Quadratic(F, "TwoComplexRoots", <<>>, <<CReal(Hi), CReal(Lo)>>, W)
\* r + s*i and its conjugate.
G == Quad(k, -2 * k * r, k * (r * r + s * s))
CW == <<<<r, s>>, <<r, -s>>>>
ComplexReport ==
    k # 0 /\ s # 0 =>
    /\ Factors(G, k, CW) /\ NSign(N, Disc(G)) < 0
    /\ Quadratic(G, "TwoComplexRoots", <<>>, CW, CW)
    /\ Quadratic(G, "TwoComplexRoots", <<>>, <<CW[2], CW[1]>>, CW)
    /\ ~Quadratic(G, "TwoRealRoots", <<r, s>>, <<>>, CW)
    /\ ~Quadratic(G, "TwoComplexRoots", <<>>, <<<<r, s + 1>>, <<r, -s - 1>>>>, CW)
Degenerate ==
    /\ Quadratic(Quad(0, 0, 0), "InfiniteRoots", <<>>, <<>>, <<>>)
    /\ (k # 0 => Quadratic(Quad(0, 0, k), "NoRoots", <<>>, <<>>, <<>>))
    /\ (k # 0 => Quadratic(Quad(0, k, -k * r), "OneRealRoot", <<r>>, <<>>, <<>>)
                 /\ ~Quadratic(Quad(0, k, -k * r), "OneRealRoot", <<r + 1>>, <<>>, <<>>))
\* Discriminant of a cubic k(x - r)(x - s)(x - r - s): zero iff two roots coincide.
H == PMul(N, F, PTrim(N, (1 :> 1) @@ (0 :> -(r + s))))
CubicLaw == k # 0 =>
    /\ (CubicDisc(H) = 0) = (r = s \/ s = r + s \/ r = r + s)
    /\ CubicDisc(H) >= 0
=============================================================================
