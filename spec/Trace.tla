------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: histories recorded from the real library (one JSON    *)
(* object per line: the number system and the list of events) are replayed *)
(* through the actions of Machine.  Each history is one initial state; a   *)
(* recorded event that no action allows leaves that history stuck, which   *)
(* TLC reports as a deadlock whose last state names the history and event. *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos
tvars == <<num, reg, kind, hist, pos>>

Events(h) == TraceLog[h].ev
TraceInit ==
    /\ hist \in 1..Len(TraceLog)
    /\ pos = 1
    /\ num = TraceLog[hist].n
    /\ reg = [r \in Regs |-> PZero]
    /\ kind = [r \in Regs |-> "none"]

Ev == Events(hist)[pos]
IsEvent(o) == pos <= Len(Events(hist)) /\ Ev.o = o

\* A signed shift distance m shifts the other way when negative.
NonNeg(m) == IF IsBig(N) THEN m[1] >= 0 ELSE m >= 0
Opposite(m) == IF IsBig(N) THEN BigNeg(m) ELSE -m

TPut == IsEvent("put") /\ Put(Ev.d, Ev.k, Ev.raw, Ev.r)
TAdd == IsEvent("add") /\ Add(Ev.a, Ev.b, Ev.d, Ev.x, Ev.r)
TSub == IsEvent("sub") /\ Sub(Ev.a, Ev.b, Ev.d, Ev.x, Ev.r)
TNeg == IsEvent("neg") /\ Neg(Ev.a, Ev.d, Ev.x, Ev.r)
TMul == IsEvent("mul") /\ Mul(Ev.a, Ev.b, Ev.d, Ev.x, Ev.r)
TScale == IsEvent("smul") /\ Scale(Ev.a, Ev.c, Ev.d, Ev.x, Ev.r)
TUnscale == IsEvent("sdiv") /\ Unscale(Ev.a, Ev.c, Ev.d, Ev.x, Ev.r)
TPow == IsEvent("pow") /\ Pow(Ev.a, Ev.n, Ev.d, Ev.x, Ev.r)
TPowHuge == IsEvent("powbig") /\ PowHuge(Ev.a, Ev.n, Ev.d, Ev.x, Ev.r)
TShl == IsEvent("shl") /\ (IF NonNeg(Ev.n) THEN Shl(Ev.a, Ev.n, Ev.d, Ev.x, Ev.r)
                           ELSE Shr(Ev.a, Opposite(Ev.n), Ev.d, Ev.x, Ev.r))
TShr == IsEvent("shr") /\ (IF NonNeg(Ev.n) THEN Shr(Ev.a, Ev.n, Ev.d, Ev.x, Ev.r)
                           ELSE Shl(Ev.a, Opposite(Ev.n), Ev.d, Ev.x, Ev.r))
TDiv == IsEvent("div") /\ DivMod(Ev.a, Ev.b, Ev.d, Ev.e, Ev.x, Ev.q, Ev.r)
TSameAs == IsEvent("asdiv") /\ SameAs(Ev.a, Ev.b, Ev.s, Ev.d, Ev.x, Ev.r)
TEval == IsEvent("eval") /\ Eval(Ev.a, Ev.c, Ev.x, Ev.v)
TDerive == IsEvent("der") /\ Derive(Ev.a, Ev.d, Ev.x, Ev.r)
TIntegrate == IsEvent("int") /\ Integrate(Ev.a, Ev.d, Ev.x, Ev.r)
TArea == IsEvent("area") /\ Area(Ev.a, Ev.c, Ev.c2, Ev.x, Ev.v)
TReplaceC == IsEvent("repc") /\ ReplaceC(Ev.a, Ev.c, Ev.d, Ev.x, Ev.r)
TTryAdd == IsEvent("tadd") /\ TryTerm(Ev.a, Ev.n, Ev.c, Ev.g, TRUE, Ev.x, Ev.r)
\* fresh: a growable type stores nothing at that degree yet. Then no subtraction can overflow:
\* what cannot be negated has to be refused.
TTrySub == /\ IsEvent("tsub") /\ TryTerm(Ev.a, Ev.n, Ev.c, Ev.g, FALSE, Ev.x, Ev.r)
           /\ Ev.fresh => Ev.x # "panic"
TFromTerms == IsEvent("fterms")
    /\ LET res == ApplyTerms(Ev.k, 0, PZero, Ev.ts, TRUE)
       IN Yield(Ev.d, Ev.k, res.f, Ev.x, Ev.r, res.out # "ok") /\ (Ev.x = "ok" => res.out = "ok")
\* Sources are registers; their listings are applied in order.
Source(a) == Listing(N, reg[a])
TAddPoly == IsEvent("addp") /\ Present(Ev.a) /\ Accumulate(Ev.b, Ev.n, Source(Ev.a), TRUE, Ev.x, Ev.r)
TSubPoly == IsEvent("subp") /\ Present(Ev.a) /\ Accumulate(Ev.b, Ev.n, Source(Ev.a), FALSE, Ev.x, Ev.r)
TMulPoly == IsEvent("mulp") /\ Present(Ev.a) /\ Present(Ev.e)
    /\ Accumulate(Ev.b, Ev.n, CrossTerms(Source(Ev.a), Source(Ev.e)), TRUE, Ev.x, Ev.r)
\* poly_mul!(sink; x): the sink's terms are taken out and multiplied back in.
TMulSink == IsEvent("mulsink") /\ Present(Ev.a) /\ Present(Ev.b)
    /\ LET res == ApplyTerms(kind[Ev.b], Ev.n, PZero, CrossTerms(Source(Ev.a), Source(Ev.b)), TRUE)
       IN \/ res.out = Ev.x /\ Lists(N, Ev.r, res.f) /\ Set(Ev.b, kind[Ev.b], res.f)
          \/ res.out = "overflow" /\ Ev.x = "panic" /\ Drop(Ev.b)
\* poly_add!(a, b), poly_sub!(a, b), poly_mul!(a, b): through an empty dense sink.
\* A refused term ends that source; the value reached so far is returned.
Folded(a, b, plus) ==
    LET one == ApplyTerms("D", 0, PZero, Source(a), TRUE)
    IN IF one.out = "ok" THEN ApplyTerms("D", 0, one.f, Source(b), plus) ELSE one
TMacro == /\ pos <= Len(Events(hist)) /\ Ev.o \in {"padd", "psub", "pmul"}
    /\ Present(Ev.a) /\ Present(Ev.b)
    /\ LET res == IF Ev.o = "pmul" THEN ApplyTerms("D", 0, PZero, CrossTerms(Source(Ev.a), Source(Ev.b)), TRUE)
                  ELSE Folded(Ev.a, Ev.b, Ev.o = "padd")
       IN \/ res.out \in {"ok", "negative"} /\ Ev.x = "ok" /\ Lists(N, Ev.r, res.f) /\ Set(Ev.d, "D", res.f)
          \/ res.out \in {"overflow", "negative"} /\ Ev.x = "panic" /\ Drop(Ev.d)
\* The macros with three operands, and with a sink and two operands.
Chain(k, n, f, ts, plus) == LET res == ApplyTerms(k, n, f, ts, plus) IN [f |-> res.f, out |-> res.out, k |-> k, n |-> n]
More(one, ts, plus) == IF one.out = "ok" THEN Chain(one.k, one.n, one.f, ts, plus) ELSE one
Times(one, a) == IF one.out = "ok" THEN Chain(one.k, one.n, PZero, CrossTerms(Source(a), Listing(N, one.f)), TRUE) ELSE one
\* Once a summand was refused, what the others leave behind is not specified.
Reaches(d, k, res, out, r) ==
    \/ res.out = "ok" /\ out = "ok" /\ Lists(N, r, res.f) /\ Set(d, k, res.f)
    \/ res.out \in {"overflow", "negative"} /\ out = "panic" /\ Drop(d)
TMacro3 == /\ pos <= Len(Events(hist)) /\ Ev.o \in {"padd3", "psub3", "pmul3"}
    /\ Present(Ev.a) /\ Present(Ev.b) /\ Present(Ev.e)
    /\ LET res == IF Ev.o = "pmul3"
                  THEN Times(Chain("D", 0, PZero, CrossTerms(Source(Ev.a), Source(Ev.b)), TRUE), Ev.e)
                  ELSE More(More(Chain("D", 0, PZero, Source(Ev.a), TRUE), Source(Ev.b), Ev.o = "padd3"),
                            Source(Ev.e), Ev.o = "padd3")
       IN \/ Reaches(Ev.d, "D", res, Ev.x, Ev.r)
          \/ res.out = "negative" /\ Ev.x = "ok" /\ Canonical(N, Ev.r) /\ Set(Ev.d, "D", OfListing(N, Ev.r))
TSink2 == /\ pos <= Len(Events(hist)) /\ Ev.o \in {"addp2", "subp2", "mulsink2"}
    /\ Present(Ev.a) /\ Present(Ev.b) /\ Present(Ev.e)
    /\ LET k == kind[Ev.b]
           res == IF Ev.o = "mulsink2"
                  THEN Times(Times([f |-> reg[Ev.b], out |-> "ok", k |-> k, n |-> Ev.n], Ev.a), Ev.e)
                  ELSE More(Chain(k, Ev.n, reg[Ev.b], Source(Ev.a), Ev.o = "addp2"), Source(Ev.e), Ev.o = "addp2")
       IN \/ Reaches(Ev.b, k, res, Ev.x, Ev.r)
          \/ /\ res.out \in {"DegreeOutOfBounds", "TooManyTerms", "negative"}
             /\ Ev.x = IF res.out = "negative" THEN "CanNotNegate" ELSE res.out
             /\ Canonical(N, Ev.r) /\ Set(Ev.b, k, OfListing(N, Ev.r))
          \/ res.out \notin {"ok", "overflow", "negative"} /\ Ev.x = "panic" /\ Ev.o # "mulsink2" /\ Drop(Ev.b)
TTermNew == IsEvent("tnew") /\ Ev.x = "ok" /\ Lists(N, Ev.r, PTerm(N, Ev.c, Ev.g)) /\ Keep
TObserve == IsEvent("obs") /\ Observe(Ev.a, Ev.deg, Ev.z, Ev.it, Ev.tv, Ev.look)
\* A wider coefficient type: the converted polynomial is the same polynomial.
TConvert == IsEvent("conv") /\ Lists(N, Ev.r, reg[Ev.a]) /\ Observe(Ev.a, Ev.deg, Ev.z, Ev.it, Ev.tv, Ev.look)
\* How much a polynomial stores after it was trimmed (or built by new, which trims).
TLength == IsEvent("len") /\ Trimmed(Ev.a, Ev.x, Ev.m)
TEqual == IsEvent("eq") /\ Equal(Ev.a, Ev.b, Ev.v)
TZero == IsEvent("zero") /\ MakeZero(Ev.d, Ev.k, Ev.r)
TSetZero == IsEvent("setz") /\ Present(Ev.a) /\ MakeZero(Ev.a, kind[Ev.a], Ev.r)
TSame == IsEvent("same") /\ Same(Ev.a, Ev.d, Ev.r)

Step == \/ TPut \/ TAdd \/ TSub \/ TNeg \/ TMul \/ TScale \/ TUnscale \/ TPow \/ TPowHuge \/ TShl \/ TShr
        \/ TDiv \/ TSameAs \/ TEval \/ TDerive \/ TIntegrate \/ TArea \/ TReplaceC
        \/ TTryAdd \/ TTrySub \/ TFromTerms \/ TAddPoly \/ TSubPoly \/ TMulPoly \/ TMulSink \/ TMacro
        \/ TMacro3 \/ TSink2 \/ TTermNew
        \/ TObserve \/ TConvert \/ TLength \/ TEqual \/ TZero \/ TSetZero \/ TSame
Done == pos = Len(Events(hist)) + 1 /\ UNCHANGED tvars
TraceNext == \/ Step /\ pos' = pos + 1 /\ UNCHANGED hist
             \/ Done
\* For falsified histories: the falsified event (the last one) is never accepted.
FalsifiedRejected == pos <= Len(Events(hist))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
