------------------------------ MODULE TextLaws ------------------------------
(***************************************************************************)
(* Sanity of module Text: display and parsing, both as specified, are      *)
(* inverse to each other over every small polynomial, display is the only  *)
(* canonical text, and the order of terms in a text does not matter.       *)
(***************************************************************************)
EXTENDS Text

CONSTANTS Type,       \* "signed", "unsigned" or "float"
          Top
VARIABLES f, g
lvars == <<num, reg, kind, f, g>>

System == [k |-> "big", t |-> Type, p |-> 0, fx |-> IF Type = "float" THEN 2 ELSE 0,
           min |-> IF Type = "unsigned" THEN BZero ELSE BigOfInt(-128), max |-> BigOfInt(127),
           rel |-> -1, prec |-> 24]
Scalars == CASE Type = "signed" -> {BigOfInt(i) : i \in {-128, -2, -1, 0, 1, 10, 127}}
             [] Type = "unsigned" -> {BigOfInt(i) : i \in {0, 1, 2, 10, 127}}
             [] OTHER -> {BigShl(BigOfInt(i), 2) : i \in {-1, 0, 1, 12}}
                         \cup {BigShl(BigOfInt(2048), 1), BigNeg(BigShl(BigOfInt(4096 + 8192), 1))}   \* 1/4, -3/2
Degrees == {BigOfInt(d) : d \in 0..Top \cup {10}}
Polys == {PTrim(System, p) : p \in [Degrees -> Scalars]}
LInit == /\ num = System /\ reg = [r \in Regs |-> PZero] /\ kind = [r \in Regs |-> "none"]
         /\ f \in Polys /\ g \in Polys
LNext == UNCHANGED lvars

\* The texts of the terms, least degree first, each with an explicit sign.
Reversed(p) ==
    LET l == Listing(N, p)
    IN FoldLeft(LAMBDA acc, t : (IF Negative(t[1]) THEN <<Minus>> ELSE <<Plus>>) \o TermText(t[1], t[2]) \o acc, <<>>, l)
RoundTrip == /\ ParsePoly("D", Show(f)).e = "" /\ ParsePoly("D", Show(f)).f = f
             /\ ParsePoly("S", Show(f)).f = f
Injective == Show(f) = Show(g) => f = g
AnyOrder == ~PIsZero(f) /\ Type # "unsigned" => ParsePoly("D", Reversed(f)).f = f
\* White space around signs is irrelevant.
Spaces == ParsePoly("D", SelectSeq(Show(f), LAMBDA c : c # Space)) = ParsePoly("D", Show(f))
\* Texts with several terms of one degree denote their sum (where it does not overflow).
Sums == LET s == PAdd(N, f, g)
            text == Show(f) \o Joiner(BOne) \o Show(g)
            res == ParsePoly("D", text)
        IN (\A d \in DOMAIN g : ~Negative(g[d])) =>
           (res.e = "" => res.f = s) /\ (res.e = "overflow" \/ (res.e = "" /\ res.f = s))
\* The check of rounded texts, where nothing is rounded, accepts the canonical text and no other.
Nearly == ShownNearly(f, Show(f)) /\ (f # g => ~ShownNearly(g, Show(f)))
          /\ ~ShownNearly(f, Show(f) \o <<Space>>) /\ ~ShownNearly(f, <<48>> \o Show(f))
=============================================================================
