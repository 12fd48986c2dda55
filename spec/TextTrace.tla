----------------------------- MODULE TextTrace -----------------------------
(* Trace validation for histories that also parse and display.             *)
EXTENDS Text, Trace

XParse == IsEvent("parse") /\ Parse(Ev.d, Ev.k, Ev.s, Ev.x, Ev.u, Ev.r)
XDisplay == IsEvent("disp") /\ Display(Ev.a, Ev.x, Ev.s)
XDisplayIntegral == IsEvent("idisp") /\ DisplayIntegral(Ev.a, Ev.x, Ev.s)
XTerm == IsEvent("term") /\ OneTerm(Ev.s, Ev.x, Ev.u, Ev.r)
TextNext == \/ (XParse \/ XTerm \/ XDisplay \/ XDisplayIntegral) /\ pos' = pos + 1 /\ UNCHANGED hist
            \/ TraceNext
TextSpec == TraceInit /\ [][TextNext]_tvars
=============================================================================
