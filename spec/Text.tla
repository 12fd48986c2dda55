-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Polynomials as text.  Texts are sequences of Unicode code points, and   *)
(* coefficients are those of a "big" number system (module Num).           *)
(*                                                                         *)
(* Parsing is specified as two machines.  The splitter cuts the text       *)
(* before every sign that is not the first thing in it (white space        *)
(* aside).  The term reader walks over one piece and holds the digits it   *)
(* has collected, the coefficient, and whether it has met 'x' and '^'.     *)
(***************************************************************************)
EXTENDS Machine

Space == 32
Comma == 44
Underscore == 95
Plus == 43
Minus == 45
Dot == 46
LowerX == 120
Caret == 94
UpperC == 67
Digit(c) == c \in 48..57
IsSign(c) == c = Plus \/ c = Minus
\* White space as Unicode defines it.
White(c) == \/ c \in 9..13 \/ c \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
            \/ c \in 8192..8202

(***************************************************************************)
(* Numbers.                                                                *)
(***************************************************************************)
MagOfDigits(ds) ==
    MStrip(FoldLeft(LAMBDA m, d : MCarry([j \in 1..Len(m) |-> 10 * m[j]], 1, d - 48, <<>>), <<>>, ds))
\* The integer a sequence of digits denotes.
BigOfDigits(ds) == BigOf(1, MagOfDigits(ds))

RECURSIVE MDivSmall(_, _, _, _, _)
\* Schoolbook division of a magnitude by a small number, top limb first.
MDivSmall(m, s, i, rem, acc) ==
    IF i = 0 THEN [q |-> MStrip(acc), r |-> rem]
    ELSE LET v == rem * BASE + m[i]
         IN MDivSmall(m, s, i - 1, v % s, <<v \div s>> \o acc)
DivTen(a) == LET d == MDivSmall(Tail(a), 10, Len(a) - 1, 0, <<>>)
             IN [q |-> BigOf(a[1], d.q), r |-> d.r]

NotANumber == [ok |-> FALSE, v |-> BZero]
RECURSIVE ScaleDown(_, _)
\* a / 10^k in a fixed-point system that can hold it exactly, or truncated where results are
\* only compared up to rounding.
ScaleDown(a, k) == IF k = 0 \/ a = BZero THEN a
                   ELSE LET d == DivTen(a)
                        IN IF Exact(N) /\ d.r # 0 THEN Assert(FALSE, "Text: decimal is not a fixed-point number")
                           ELSE ScaleDown(d.q, k - 1)

\* What a sequence of digits, signs and dots means as a coefficient of N.
Number(cs) ==
    LET signed == Len(cs) > 0 /\ IsSign(cs[1])
        body == IF signed THEN Tail(cs) ELSE cs
        neg == signed /\ cs[1] = Minus
        dots == {i \in 1..Len(body) : body[i] = Dot}
        digits == SelectSeq(body, Digit)
        places == IF dots = {} THEN 0 ELSE Len(body) - (CHOOSE i \in dots : TRUE)
        mag == IF N.t = "float" THEN ScaleDown(BigShl(BigOfDigits(digits), N.fx), places)
               ELSE BigOfDigits(digits)
        val == IF neg THEN BigNeg(mag) ELSE mag
    IN IF \/ digits = <<>>
          \/ Len(digits) + Cardinality(dots) # Len(body)
          \/ Cardinality(dots) > (IF N.t = "float" THEN 1 ELSE 0)
          \/ neg /\ N.t = "unsigned"
       THEN NotANumber
       ELSE IF InRange(N, val) THEN [ok |-> TRUE, v |-> val] ELSE NotANumber
\* A plus sign in front of a degree can only be met when a term is read on its own:
\* in a polynomial it would start the next term.
DegreeNumber(held) ==
    LET cs == IF held # <<>> /\ held[1] = Plus THEN Tail(held) ELSE held IN
    IF cs = <<>> \/ \E i \in 1..Len(cs) : ~Digit(cs[i]) THEN NotANumber
    ELSE LET v == BigOfDigits(cs) IN IF DFits(N, v) THEN [ok |-> TRUE, v |-> v] ELSE NotANumber

(***************************************************************************)
(* One term.  A result is [e |-> error or "", u |-> offending character,   *)
(* c |-> coefficient, d |-> degree].                                       *)
(***************************************************************************)
Bad(e) == [e |-> e, u |-> 0, c |-> BZero, d |-> BZero]
Term(c, d) == [e |-> "", u |-> 0, c |-> c, d |-> d]

\* The end of a piece: digits are the degree after 'x', the coefficient otherwise.
FinishTerm(held, coeff, x, caret) ==
    IF x THEN IF held = <<>>
              THEN IF caret THEN Bad("CaretWithoutDegree") ELSE Term(coeff, BOne)
              ELSE LET d == DegreeNumber(held)
                   IN IF d.ok THEN Term(coeff, d.v) ELSE Bad("DegreeCouldNotBeParsed")
    ELSE LET c == Number(held)
         IN IF c.ok THEN Term(c.v, BZero) ELSE Bad("CoeffCouldNotBeParsed")

\* The reader: what it holds, the coefficient, whether 'x' and '^' were met, and the first error.
Start == [e |-> "", u |-> 0, held |-> <<>>, coeff |-> NOne(N), x |-> FALSE, caret |-> FALSE]
ReadChar(st, c) ==
    IF st.e # "" \/ c \in {Space, Comma, Underscore} THEN st
    ELSE IF IsSign(c) \/ c = Dot \/ Digit(c) THEN [st EXCEPT !.held = Append(@, c)]
    ELSE IF c = LowerX
    THEN IF st.x THEN [st EXCEPT !.e = "MoreThanOneX"]
         ELSE IF st.held = <<>> THEN [st EXCEPT !.x = TRUE]
         ELSE LET lone == Len(st.held) = 1 /\ IsSign(st.held[1])
                  k == Number(IF lone THEN Append(st.held, 49) ELSE st.held)
              IN IF k.ok THEN [st EXCEPT !.x = TRUE, !.held = <<>>, !.coeff = k.v]
                 ELSE [st EXCEPT !.e = "CoeffCouldNotBeParsed"]
    ELSE IF c = Caret
    THEN IF st.caret THEN [st EXCEPT !.e = "MultipleCarets"]
         ELSE IF ~st.x \/ st.held # <<>> THEN [st EXCEPT !.e = "CaretWithoutXInFront"]
         ELSE [st EXCEPT !.caret = TRUE]
    ELSE [st EXCEPT !.e = "UnexpectedChar", !.u = c]
TermOf(p) ==
    LET st == FoldLeft(ReadChar, Start, p)
    IN IF st.e # "" THEN [Bad(st.e) EXCEPT !.u = st.u]
       ELSE FinishTerm(st.held, st.coeff, st.x, st.caret)

\* A listing of f: exactly, or with each coefficient rounded (decimals a float cannot hold).
ListsNearly(r, f) ==
    IF Exact(N) THEN Lists(N, r, f)
    ELSE /\ Canonical(N, r)
         /\ LET g == OfListing(N, r)
            IN DOMAIN g = DOMAIN f /\ \A d \in DOMAIN f : Close(N, g[d], f[d], NAbs(N, f[d]))

\* Reading a single term (Term::from_str).
OneTerm(s, out, u, r) ==
    LET t == TermOf(s)
    IN /\ IF t.e = "" THEN out = "ok" /\ ListsNearly(r, PTerm(N, t.c, t.d)) ELSE out = t.e /\ u = t.u
       /\ Keep

(***************************************************************************)
(* The splitter and the whole text.                                        *)
(***************************************************************************)
\* Positions before which the text is cut.
Cuts(s) ==
    LET ink == {i \in 1..Len(s) : ~White(s[i])}
        first == IF ink = {} THEN Len(s) ELSE CHOOSE i \in ink : \A j \in ink : i <= j
    IN {i \in (first + 1)..Len(s) : IsSign(s[i])}
Pieces(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET b == SetToSortSeq({1} \cup Cuts(s), LAMBDA x, y : x < y)
         IN [i \in 1..Len(b) |-> SubSeq(s, b[i], IF i = Len(b) THEN Len(s) ELSE b[i + 1] - 1)]

\* [e, u, f]: error (or "" or "overflow"), offending character, and the sum reached.
AddPiece(k, st, p) ==
    LET t == TermOf(p)
        no == Refusal(k, 0, st.f, t.d)
        h == PAdd(N, st.f, PTerm(N, t.c, t.d))
    IN IF st.e # "" THEN st
       ELSE IF t.e # "" THEN [st EXCEPT !.e = t.e, !.u = t.u]
       ELSE IF NIsZero(N, t.c) THEN st
       ELSE IF no # "none" THEN [st EXCEPT !.e = no]
       ELSE IF CoeffOverflow(h) THEN [st EXCEPT !.e = "overflow"]
       ELSE [st EXCEPT !.f = h]
SumPieces(k, ps) == FoldLeft(LAMBDA st, p : AddPiece(k, st, p), [e |-> "", u |-> 0, f |-> PZero], ps)
ParsePoly(k, s) ==
    IF s = <<>> THEN [e |-> "NoTermsFound", u |-> 0, f |-> PZero]
    ELSE SumPieces(k, Pieces(s))

Parse(d, k, s, out, u, r) ==
    LET res == ParsePoly(k, s)
    IN IF res.e = "" THEN out = "ok" /\ ListsNearly(r, res.f) /\ Set(d, k, OfListing(N, r))
       ELSE IF res.e = "overflow" THEN out = "panic" /\ Drop(d)
       ELSE out = res.e /\ u = res.u /\ Drop(d)

(***************************************************************************)
(* Display.                                                                *)
(***************************************************************************)
RECURSIVE DigitsOf(_, _)
DigitsOf(a, acc) == IF a = BZero THEN acc
                    ELSE LET d == DivTen(a) IN DigitsOf(d.q, <<48 + d.r>> \o acc)
IntText(a) == IF a = BZero THEN <<48>> ELSE DigitsOf(a, <<>>)
RECURSIVE FracDigits(_, _)
\* Decimal places of a fixed-point fraction 0 <= a < 1.
FracDigits(a, acc) ==
    IF a = BZero THEN acc
    ELSE LET t == BigMul(a, BigOfInt(10))
             w == BigShr(t, N.fx)
         IN FracDigits(BigSub(t, BigShl(w, N.fx)), Append(acc, 48 + BigToInt(w)))
\* The magnitude of a coefficient.
MagText(c) ==
    LET a == BigAbs(c)
        whole == BigShr(a, N.fx)
        frac == BigSub(a, BigShl(whole, N.fx))
    IN IntText(whole) \o (IF frac = BZero THEN <<>> ELSE <<Dot>> \o FracDigits(frac, <<>>))
PowerText(d) == IF d = BZero THEN <<>>
                ELSE IF d = BOne THEN <<LowerX>>
                ELSE <<LowerX, Caret>> \o IntText(d)
\* A term without its sign.
TermText(c, d) ==
    (IF d # BZero /\ BigAbs(c) = NOne(N) THEN <<>> ELSE MagText(c)) \o PowerText(d)
Negative(c) == c[1] < 0
Joiner(c) == <<Space, IF Negative(c) THEN Minus ELSE Plus, Space>>
Show(f) ==
    IF PIsZero(f) THEN <<48>>
    ELSE LET l == Listing(N, f)
         IN FoldLeft(LAMBDA acc, t : acc \o Joiner(t[1]) \o TermText(t[1], t[2]),
                     (IF Negative(l[1][1]) THEN <<Minus>> ELSE <<>>) \o TermText(l[1][1], l[1][2]),
                     Tail(l))
ShowIntegral(f) == IF PIsZero(f) THEN <<UpperC>> ELSE Show(f) \o <<Space, Plus, Space, UpperC>>

(***************************************************************************)
(* Floats whose decimal expansion is long are shown by fewer digits that   *)
(* denote them up to rounding: everything but those digits is fixed.       *)
(***************************************************************************)
\* 10^k
RECURSIVE TenTo(_)
TenTo(k) == IF k = 0 THEN BOne ELSE IF k % 2 = 0 THEN LET h == TenTo(k \div 2) IN BigMul(h, h)
            ELSE BigMul(BigOfInt(10), TenTo(k - 1))
\* A plain decimal: no superfluous zeros, and near the magnitude m.
Denotes(ds, m) ==
    LET dots == {i \in 1..Len(ds) : ds[i] = Dot}
        digits == SelectSeq(ds, Digit)
        places == IF dots = {} THEN 0 ELSE Len(ds) - (CHOOSE i \in dots : TRUE)
        v == BigMul(m, TenTo(places))
    IN /\ Len(ds) > (IF dots = {} THEN 0 ELSE places + 1)
       /\ Cardinality(dots) <= 1
       /\ ds[1] = 48 => Len(ds) = 1 \/ ds[2] = Dot
       /\ places > 0 => ds[Len(ds)] # 48
       /\ ds[Len(ds)] # Dot
       /\ Close(N, BigShl(BigOfDigits(digits), N.fx), v, v)
ShownNearly(f, s) ==
    LET Starts(i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
        NumberEnd(i) == LET after == {j \in i..Len(s) : ~Digit(s[j]) /\ s[j] # Dot}
                        IN IF after = {} THEN Len(s) ELSE (CHOOSE j \in after : \A l \in after : j <= l) - 1
        \* at: the position after the terms so far, 0 if one was wrong
        Advance(at, t) ==
            LET first == at = 1
                sign == IF ~first THEN Joiner(t[1]) ELSE IF Negative(t[1]) THEN <<Minus>> ELSE <<>>
                i == at + Len(sign)
                j == NumberEnd(i)
                bare == t[2] # BZero /\ BigAbs(t[1]) = NOne(N)
                p == PowerText(t[2])
            IN IF at = 0 \/ ~Starts(at, sign) THEN 0
               ELSE IF ~(IF bare THEN j = i - 1 ELSE Denotes(SubSeq(s, i, j), BigAbs(t[1]))) THEN 0
               ELSE IF Starts(j + 1, p) THEN j + 1 + Len(p) ELSE 0
    IN IF PIsZero(f) THEN s = <<48>> ELSE FoldLeft(Advance, 1, Listing(N, f)) = Len(s) + 1

Display(a, out, s) ==
    /\ Present(a) /\ out = "ok"
    /\ IF Exact(N) THEN s = Show(reg[a]) ELSE ShownNearly(reg[a], s)
    /\ Keep
\* a holds the antiderivative; without one the call panics.
DisplayIntegral(a, out, s) ==
    /\ IF Present(a) THEN out = "ok" /\ s = ShowIntegral(reg[a]) ELSE out = "panic"
    /\ Keep
=============================================================================
