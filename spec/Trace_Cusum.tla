----------------------------- MODULE Trace_Cusum ----------------------------
EXTENDS Cusum, TraceKit
VARIABLE l
tvars == <<h, xs, up, dn, sel, l>>
TInit == l = 1 /\ h = 0 /\ xs = <<>> /\ up = 0 /\ dn = 0 /\ sel = <<>>
E == Trace[l]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ Start(E.h)
            \/ E.e = "bar" /\ Feed(E.x)
            \/ /\ E.e = "query" /\ UNCHANGED cvars
               /\ Clause(E.c, "selected times", E.sel = sel, E.sel, sel)
TSpec == TInit /\ [][TNext]_tvars
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
TShape == Shape /\ Bounded
=============================================================================
