------------------------------- MODULE Trace_Csw ----------------------------
EXTENDS Csw, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ cfg = [side |-> 0, m |-> 1] /\ ys = <<>> /\ ss = 0 /\ csw = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ cfg' = E.cfg /\ ys' = <<>> /\ ss' = 0 /\ csw' = <<>>
            \/ E.e = "bar" /\ AppendBar(E.y)
            \/ E.e = "query" /\ UNCHANGED cwvars /\
               Say("ANSWER", [c |-> E.c, csw |-> [i \in 1..Len(csw) |-> CswAnswer(i)],
                              chow |-> LET B == SortSet(ChowBreaks) IN [i \in 1..Len(B) |-> Chow(B[i])]])
TSpec == TInit /\ [][TNext]_<<cfg, ys, ss, csw, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
