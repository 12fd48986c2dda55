------------------------------- MODULE Enum -------------------------------
(***************************************************************************)
(* Every short history: all sequences of Depth - 2 calls on two registers  *)
(* filled in every way from a few representations (with and without stored *)
(* zeros).  TLC explores them all; each is replayed into the library.      *)
(* The abstract state forgets how a value is stored, the log does not: two *)
(* histories that reach the same polynomial by different calls are two     *)
(* behaviours.                                                             *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS First, Second,    \* kinds of the two registers
          Wide              \* TRUE: more representations and parameters

Raws(k) ==
    CASE k = "D" -> {<<>>, <<0, 2>>, <<0, 0, 0, 0, 0, 1, -1>>, <<2, 0, -2>>}
                    \cup (IF Wide THEN {<<0>>, <<1, 0, 0, 0, 0, 4>>, <<1, 1>>} ELSE {})
      [] k = "S" -> {<<>>, <<<<2, 0>>, <<0, 3>>>>, <<<<-1, 0>>, <<1, 1>>>>, <<<<-2, 0>>, <<0, 1>>, <<2, 2>>>>}
                    \cup (IF Wide THEN {<<<<0, 4>>>>, <<<<4, 0>>, <<1, 5>>>>, <<<<1, 0>>, <<1, 1>>>>} ELSE {})
      [] k = "M" -> {<<<<0, 0>>>>, <<<<0, 2>>>>, <<<<2, 1>>>>, <<<<-1, 0>>>>, <<<<1, 2>>>>}
      [] k = "L" -> {<<0, 0>>, <<0, 2>>, <<1, -1>>, <<2, 0>>}
      [] k = "Q" -> {<<0, 0, 0>>, <<0, 0, 2>>, <<0, 1, -1>>, <<2, 0, -2>>}

Base == [a |-> 1, b |-> 2, d |-> 1, e |-> 2, k |-> "D", raw |-> <<>>, c |-> 1, n |-> 2, s |-> 1, g |-> 0]
Pairs == {[Base EXCEPT !.a = x[1], !.b = x[2]] : x \in {<<1, 2>>, <<2, 1>>, <<1, 1>>}}
Calls(o) ==
    CASE o \in {"add", "sub", "mul"} -> Pairs
      [] o \in {"neg", "der", "setz", "trim"} -> {Base}
      [] o = "clone" -> {[Base EXCEPT !.d = 2], [Base EXCEPT !.a = 2]}
      [] o = "smul" -> {[Base EXCEPT !.c = x] : x \in {0, -1} \cup (IF Wide THEN {3} ELSE {})}
      [] o = "sdiv" -> {[Base EXCEPT !.c = 2]}
      [] o = "pow" -> {[Base EXCEPT !.n = x] : x \in {2} \cup (IF Wide THEN {0, 3} ELSE {})}
      [] o = "shl" -> {[Base EXCEPT !.s = x] : x \in {1, -1} \cup (IF Wide THEN {0, 3} ELSE {})}
      [] o = "shr" -> {[Base EXCEPT !.s = x] : x \in {1, -2}}
      [] o = "div" -> {Base, [Base EXCEPT !.d = 2, !.e = 1]}
      [] o = "remas" -> {Base, [Base EXCEPT !.a = 2, !.b = 1]}
      [] o = "tadd" -> {[Base EXCEPT !.c = x, !.g = y] : x \in {1, -2}, y \in {0, 2}}
      [] o = "tsub" -> {[Base EXCEPT !.c = x, !.g = y] : x \in {2}, y \in {0, 1} \cup (IF Wide THEN {2, 6} ELSE {})}
      [] o \in {"addp", "subp"} -> {Base, [Base EXCEPT !.a = 2, !.b = 1]}
      [] OTHER -> {}

EInit ==
    \E r1 \in Raws(First), r2 \in Raws(Second) :
      LET f1 == AbsRaw(System, First, r1) f2 == AbsRaw(System, Second, r2)
      IN /\ num = System
         /\ reg = [r \in Regs |-> IF r = 1 THEN f1 ELSE f2]
         /\ kind = [r \in Regs |-> IF r = 1 THEN First ELSE Second]
         /\ log = <<[o |-> "put", d |-> 1, k |-> First, raw |-> r1, r |-> Listing(System, f1)],
                    [o |-> "put", d |-> 2, k |-> Second, raw |-> r2, r |-> Listing(System, f2)]>>
ENext == /\ Len(log) < Depth
         /\ \E o \in Ops : \E P \in Calls(o) : Able(o, P) /\ Do(o, P)
=============================================================================
