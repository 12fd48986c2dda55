----------------------------- MODULE RootsTrace -----------------------------
(* Trace validation for histories that look for roots.                     *)
EXTENDS Roots, Trace

RLinear == IsEvent("lroot") /\ LinearRoot(Ev.a, Ev.x, Ev.cl, Ev.re, Ev.co)
RMonomial == IsEvent("root") /\ MonomialRoot(Ev.a, Ev.x, Ev.cl, Ev.re, Ev.co)
RDisc == IsEvent("disc") /\ Discriminant(Ev.a, Ev.x, Ev.v)
RQuadratic == IsEvent("qroots") /\ QuadraticRoots(Ev.a, Ev.x, Ev.cl, Ev.re, Ev.co, Ev.cw)
RReal == IsEvent("rfac") /\ RealFactors(Ev.a, Ev.x, Ev.some, Ev.v, Ev.fs, Ev.cw)
RComplex == IsEvent("cfac") /\ ComplexFactors(Ev.a, Ev.x, Ev.v, Ev.fs, Ev.cw)
RFloat == IsEvent("froots") /\ FloatRoots(Ev.a, Ev.x, Ev.cl, Ev.re, Ev.co, Ev.wit, Ev.w, Ev.pair)
RootsNext == \/ /\ (RLinear \/ RMonomial \/ RDisc \/ RQuadratic \/ RReal \/ RComplex \/ RFloat)
                /\ pos' = pos + 1 /\ UNCHANGED hist
             \/ TraceNext
RootsSpec == TraceInit /\ [][RootsNext]_tvars
=============================================================================
