-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of Machine to be replayed into the library.  A client makes  *)
(* random calls whose operands suit the types involved; the machine says   *)
(* what each must answer, and the call with its answer goes to the log.    *)
(* TLC's simulator produces the behaviours, Emit prints finished ones.     *)
(*                                                                         *)
(* Only calls with a determined answer are made: no overflow (integers     *)
(* stay small enough for every signed type above i8 and for f32), and      *)
(* division only where every leading division is exact.                    *)
(***************************************************************************)
EXTENDS Machine, Json, Randomization

CONSTANTS Field,      \* TRUE: integers modulo 97, FALSE: small integers
          Depth,      \* calls per behaviour
          Ops         \* the calls to choose from

VARIABLE log
gvars == <<num, reg, kind, log>>

System == IF Field
    THEN [k |-> "mod", t |-> "field", p |-> 97, fx |-> 0, min |-> 0, max |-> 0, rel |-> -1, prec |-> 0]
    ELSE [k |-> "int", t |-> "signed", p |-> 0, fx |-> 0, min |-> -2000, max |-> 2000, rel |-> -1, prec |-> 0]

Pick(S) == RandomElement(S)
Scalars == IF Field THEN 0..96 ELSE -9..9
NonZero == Scalars \ {0}
\* Zeros are frequent: stored zeros are what distinguishes the representations.
RandomScalar(z) == IF Pick(1..10) <= z THEN 0 ELSE Pick(NonZero)
RandomVec(n, z) == TLCEval([i \in 1..n |-> RandomScalar(z)])
RandomRaw(k) ==
    IF k = "D" THEN TLCEval([i \in 1..Pick({0, 1, 2, 4, 5}) |-> 0]) \o RandomVec(Pick(0..7), Pick({0, 3, 6}))
    ELSE IF k = "L" THEN RandomVec(2, 3)
    ELSE IF k = "Q" THEN RandomVec(3, 3)
    ELSE IF k = "M" THEN <<<<RandomScalar(2), Pick(0..8)>>>>
    ELSE CHOOSE m \in {TLCEval([i \in 1..Len(s) |-> <<RandomScalar(3), s[i]>>]) :
                       s \in {SetToSortSeq(D, LAMBDA x, y : x < y) : D \in {RandomSubset(Pick(0..5), 0..12)}}} : TRUE

Full == {r \in Regs : Present(r)}
OfKinds(K) == {r \in Full : kind[r] \in K}

Small(f) == IF Field THEN TRUE ELSE (/\ \A d \in DOMAIN f : f[d] \in -2000..2000
                      /\ \A d \in DOMAIN f : d <= 60)
\* A result that may be stored.
Fine(f) == Small(f) /\ Cardinality(DOMAIN f) <= 24 /\ \A d \in DOMAIN f : d <= 60
LightProduct(f, g) == IF Field THEN TRUE ELSE LET m == PMul(N, PAbs(N, f), PAbs(N, g))
                               IN \A d \in DOMAIN m : m[d] <= 2000

Log(e) == log' = Append(log, e)
R(d) == Listing(N, reg'[d])

(***************************************************************************)
(* The calls.  P is a record of random parameters, so that each call has   *)
(* one successor.                                                          *)
(***************************************************************************)
Fill(P) == /\ Put(P.d, P.k, P.raw, Listing(N, AbsRaw(N, P.k, P.raw)))
           /\ Log([o |-> "put", d |-> P.d, k |-> P.k, raw |-> P.raw, r |-> R(P.d)])

Offered == [add |-> {"D", "S", "L", "Q"}, mul |-> {"D", "S", "M"}, all |-> {"D", "S", "M", "L", "Q"},
            shift |-> {"D", "S", "M"}, div |-> {"D", "S"},
            pow |-> IF Field THEN {"D", "S"} ELSE {"D", "S", "M"},
            eval |-> IF Field THEN {"D", "L", "Q"} ELSE {"D", "S", "M", "L", "Q"}]

\* Two-operand calls: is the pair offered, and the result.
Binary(o, a, b) ==
    CASE o = "add" -> [ok |-> kind[a] = kind[b] /\ kind[a] \in Offered.add, f |-> PAdd(N, reg[a], reg[b])]
      [] o = "sub" -> [ok |-> (kind[a] = kind[b] /\ kind[a] \in Offered.add) \/ (kind[a] = "S" /\ kind[b] = "D"),
                       f |-> PSub(N, reg[a], reg[b])]
      [] o = "mul" -> [ok |-> kind[a] = kind[b] /\ kind[a] \in Offered.mul /\ LightProduct(reg[a], reg[b])
                              /\ Cardinality(DOMAIN reg[a]) * Cardinality(DOMAIN reg[b]) <= 150,
                       f |-> PMul(N, reg[a], reg[b])]
DoBinary(o, P) ==
    LET b == Binary(o, P.a, P.b)
    IN /\ b.ok /\ Fine(b.f)
       /\ CASE o = "add" -> Add(P.a, P.b, P.d, "ok", Listing(N, b.f))
            [] o = "sub" -> Sub(P.a, P.b, P.d, "ok", Listing(N, b.f))
            [] o = "mul" -> Mul(P.a, P.b, P.d, "ok", Listing(N, b.f))
       /\ Log([o |-> o, a |-> P.a, b |-> P.b, d |-> P.d, r |-> R(P.d)])

\* One-operand calls.
Unary(o, P) ==
    LET f == reg[P.a] k == kind[P.a]
    IN CASE o = "neg" -> [ok |-> TRUE, f |-> PNeg(N, f), x |-> 0]
         [] o = "smul" -> [ok |-> TRUE, f |-> PScale(N, f, P.c), x |-> P.c]
         [] o = "sdiv" -> [ok |-> P.c # 0, x |-> P.c,
                           f |-> IF P.c = 0 THEN PZero ELSE PTrim(N, [d \in DOMAIN f |-> NDiv(N, f[d], P.c)])]
         [] o = "pow" -> LET ok == /\ k \in Offered.pow /\ Cardinality(DOMAIN f) <= 6
                                   /\ IF Field THEN TRUE ELSE PMass(N, f) <= 12
                         IN [ok |-> ok, x |-> P.n, f |-> IF ok THEN PPow(N, f, P.n) ELSE PZero]
         [] o = "shl" -> [ok |-> k \in Offered.shift, x |-> P.s,
                          f |-> IF P.s >= 0 THEN PShl(N, f, P.s) ELSE PShr(N, f, -P.s)]
         [] o = "shr" -> [ok |-> k \in Offered.shift \/ P.s >= 0, x |-> P.s,
                          f |-> IF P.s >= 0 THEN PShr(N, f, P.s) ELSE PShl(N, f, -P.s)]
         [] o = "der" -> [ok |-> ~Field, x |-> 0, f |-> PDerive(N, f)]
         [] o = "setz" -> [ok |-> TRUE, x |-> 0, f |-> PZero]
         [] o = "trim" -> [ok |-> k = "D", x |-> 0, f |-> f]
         [] o = "clone" -> [ok |-> TRUE, x |-> 0, f |-> f]
Target(o, P) == IF o \in {"setz", "trim"} THEN P.a ELSE P.d
DoUnary(o, P) ==
    LET u == Unary(o, P)
        l == Listing(N, u.f)
        d == Target(o, P)
    IN /\ u.ok /\ Fine(u.f)
       /\ CASE o = "neg" -> Neg(P.a, d, "ok", l)
            [] o = "smul" -> Scale(P.a, P.c, d, "ok", l)
            [] o = "sdiv" -> Unscale(P.a, P.c, d, "ok", l)
            [] o = "pow" -> Pow(P.a, P.n, d, "ok", l)
            [] o = "shl" -> IF P.s >= 0 THEN Shl(P.a, P.s, d, "ok", l) ELSE Shr(P.a, -P.s, d, "ok", l)
            [] o = "shr" -> IF P.s >= 0 THEN Shr(P.a, P.s, d, "ok", l) ELSE Shl(P.a, -P.s, d, "ok", l)
            [] o = "der" -> Derive(P.a, d, "ok", l)
            [] o = "setz" -> MakeZero(P.a, kind[P.a], l)
            [] o \in {"trim", "clone"} -> Same(P.a, d, l)
       /\ Log([o |-> o, a |-> P.a, d |-> d, x |-> u.x, r |-> R(d)])

\* Division: the quotient goes to d, the remainder to e.
\* Does long division of r by g stay exact and small all the way?
RECURSIVE Tame(_, _)
Tame(r, g) ==
    IF PIsZero(r) THEN TRUE
    ELSE IF PDeg(N, r) < PDeg(N, g) THEN TRUE
    ELSE IF ~NDivides(N, PLead(N, g), PLead(N, r)) THEN FALSE
    ELSE \E rr \in {PSub(N, r, PMul(N, g, PTerm(N, NDiv(N, PLead(N, r), PLead(N, g)), PDeg(N, r) - PDeg(N, g))))} :
            Small(rr) /\ Tame(rr, g)
Divides(f, g) == /\ ~PIsZero(g)
                 /\ IF Field THEN TRUE ELSE Tame(f, g)
                 /\ \E q \in {PDivMod(N, f, g)} : q.exact /\ ~q.over /\ Fine(q.q) /\ Fine(q.r)
DoDivide(P) ==
    /\ kind[P.a] = kind[P.b] /\ kind[P.a] \in Offered.div /\ P.d # P.e
    /\ Divides(reg[P.a], reg[P.b])
    /\ \E q \in {PDivMod(N, reg[P.a], reg[P.b])} :
          DivMod(P.a, P.b, P.d, P.e, "ok", Listing(N, q.q), Listing(N, q.r))
    /\ Log([o |-> "div", a |-> P.a, b |-> P.b, d |-> P.d, e |-> P.e, q |-> R(P.d), r |-> R(P.e)])
DoRemainder(P) ==
    /\ kind[P.a] = kind[P.b] /\ kind[P.a] \in Offered.div
    /\ Divides(reg[P.a], reg[P.b])
    /\ Set(P.a, kind[P.a], PDivMod(N, reg[P.a], reg[P.b]).r)
    /\ Log([o |-> "remas", a |-> P.a, b |-> P.b, d |-> P.a, r |-> R(P.a)])

\* Terms.
DoTerm(o, P) ==
    LET f == reg[P.a]
        h == PAdd(N, f, PTerm(N, IF o = "tadd" THEN P.c ELSE NNeg(N, P.c), P.g))
        no == Refusal(kind[P.a], 0, f, P.g)
    IN /\ ~Field /\ P.c # 0 /\ Fine(h)
       /\ TryTerm(P.a, 0, P.c, P.g, o = "tadd", IF no = "none" THEN "ok" ELSE no,
                  Listing(N, IF no = "none" THEN h ELSE f))
       /\ Log([o |-> o, a |-> P.a, c |-> P.c, g |-> P.g, x |-> IF no = "none" THEN "ok" ELSE no, r |-> R(P.a)])
\* Whole polynomials, term by term, across types.
DoPoly(o, P) ==
    LET res == ApplyTerms(kind[P.b], 0, reg[P.b], Listing(N, reg[P.a]), o = "addp")
    IN /\ ~Field /\ P.a # P.b /\ Fine(res.f) /\ res.out \notin {"overflow", "negative"}
       /\ Accumulate(P.b, 0, Listing(N, reg[P.a]), o = "addp", res.out, Listing(N, res.f))
       /\ Log([o |-> o, a |-> P.a, b |-> P.b, x |-> res.out, r |-> R(P.b)])

\* Calls that change nothing.
DoLook(o, P) ==
    /\ CASE o = "eval" -> kind[P.a] \in Offered.eval /\ ~EvalMayOverflow(reg[P.a], P.c)
         [] o = "eq" -> kind[P.a] = kind[P.b]
         [] o = "obs" -> TRUE
    /\ Keep
    /\ CASE o = "eval" -> Log([o |-> o, a |-> P.a, c |-> P.c, v |-> PEval(N, reg[P.a], P.c)])
         [] o = "eq" -> Log([o |-> o, a |-> P.a, b |-> P.b, v |-> (reg[P.a] = reg[P.b])])
         [] o = "obs" -> Log([o |-> o, a |-> P.a, r |-> Listing(N, reg[P.a]),
                              deg |-> IF PIsZero(reg[P.a]) THEN <<>> ELSE <<PDeg(N, reg[P.a])>>])

Able(o, P) ==
    LET two == P.a \in Full /\ P.b \in Full
    IN CASE o = "put" -> TRUE
         [] o \in {"add", "sub", "mul"} -> two /\ LET b == Binary(o, P.a, P.b) IN b.ok /\ Fine(b.f)
         [] o \in {"neg", "smul", "sdiv", "pow", "shl", "shr", "der", "setz", "trim", "clone"} ->
                P.a \in Full /\ LET u == Unary(o, P) IN u.ok /\ Fine(u.f)
         [] o = "div" -> two /\ kind[P.a] = kind[P.b] /\ kind[P.a] \in Offered.div /\ P.d # P.e /\ Divides(reg[P.a], reg[P.b])
         [] o = "remas" -> two /\ kind[P.a] = kind[P.b] /\ kind[P.a] \in Offered.div /\ Divides(reg[P.a], reg[P.b])
         [] o \in {"tadd", "tsub"} -> ~Field /\ P.a \in Full /\ P.c # 0
                /\ Fine(PAdd(N, reg[P.a], PTerm(N, IF o = "tadd" THEN P.c ELSE -P.c, P.g)))
         [] o \in {"addp", "subp"} -> ~Field /\ two /\ P.a # P.b
                /\ LET res == ApplyTerms(kind[P.b], 0, reg[P.b], Listing(N, reg[P.a]), o = "addp")
                   IN Fine(res.f) /\ res.out \notin {"overflow", "negative"}
         [] o = "eval" -> P.a \in Full /\ kind[P.a] \in Offered.eval /\ ~EvalMayOverflow(reg[P.a], P.c)
         [] o = "eq" -> two /\ kind[P.a] = kind[P.b]
         [] o = "obs" -> P.a \in Full
Do(o, P) ==
    CASE o = "put" -> Fill(P)
      [] o \in {"add", "sub", "mul"} -> DoBinary(o, P)
      [] o \in {"neg", "smul", "sdiv", "pow", "shl", "shr", "der", "setz", "trim", "clone"} -> DoUnary(o, P)
      [] o = "div" -> DoDivide(P)
      [] o = "remas" -> DoRemainder(P)
      [] o \in {"tadd", "tsub"} -> DoTerm(o, P)
      [] o \in {"addp", "subp"} -> DoPoly(o, P)
      [] o \in {"eval", "eq", "obs"} -> DoLook(o, P)

\* Random parameters; b prefers a register of the same kind as a.
Someone == IF Full = {} THEN 1 ELSE Pick(Full)
Params(o, a, k) ==
    [a |-> a,
     b |-> IF Full = {} THEN 1
           ELSE IF o \in {"addp", "subp"} \/ Pick(1..8) = 1 THEN Pick(Full)
           ELSE Pick({r \in Full : kind[r] = kind[a]}),
     d |-> IF o = "put" /\ Full # Regs THEN Pick(Regs \ Full)
           ELSE IF Pick(1..2) = 1 THEN a ELSE Pick(Regs),
     e |-> Pick(Regs), k |-> k, raw |-> RandomRaw(k),
     c |-> IF Pick(1..3) = 1 /\ ~PIsZero(reg[a])
           THEN CHOOSE v \in {IF w \in Scalars THEN w ELSE 1 : w \in {reg[a][d] : d \in {Pick(DOMAIN reg[a])}}} : TRUE
           ELSE Pick(Scalars),
     n |-> Pick(0..3), s |-> Pick({-4, -2, -1, 0, 1, 2, 3, 5, 8}),
     g |-> IF Pick(1..2) = 1 /\ ~PIsZero(reg[a]) THEN Pick(DOMAIN reg[a]) ELSE Pick(0..6)]
SomeKind(l) == Pick({"D", "S", "M", "L", "Q", "D2", "S2"})
KindOf(x) == IF x = "D2" THEN "D" ELSE IF x = "S2" THEN "S" ELSE x

GenInit == /\ num = System
           /\ reg = [r \in Regs |-> PZero]
           /\ kind = [r \in Regs |-> "none"]
           /\ log = <<>>
\* The calls actually possible with three random attempts; filling a register is always possible.
GenNext == /\ Len(log) < Depth
           /\ \E o1 \in {IF Cardinality(Full) < 4 THEN "put" ELSE Pick(Ops)}, o2 \in {Pick(Ops)},
                 a1 \in {Someone}, a2 \in {Someone}, k \in {SomeKind(log)} :
              \E P1 \in {Params(o1, a1, KindOf(k))}, P2 \in {Params(o2, a2, KindOf(k))} :
                 IF Able(o1, P1) THEN Do(o1, P1)
                 ELSE IF Able(o2, P2) THEN Do(o2, P2)
                 ELSE Fill(P1)
GenSpec == GenInit /\ [][GenNext]_gvars

\* Every register is canonical in every reachable state, and holds only degrees its type has room for.
TypeOK == \A r \in Regs :
    /\ \A d \in DOMAIN reg[r] : ~NIsZero(N, reg[r][d])
    /\ kind[r] = "none" => PIsZero(reg[r])
    /\ kind[r] = "L" => DOMAIN reg[r] \subseteq 0..1
    /\ kind[r] = "Q" => DOMAIN reg[r] \subseteq 0..2
    /\ kind[r] = "M" => Cardinality(DOMAIN reg[r]) <= 1
Emit == Len(log) = Depth => PrintT("BEHAVIOUR " \o ToJson(log))
=============================================================================
