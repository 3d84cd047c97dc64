--------------------------- MODULE Trace_TrendScan --------------------------
EXTENDS TrendScan, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ cfg = [w |-> 4, m |-> 3, step |-> 1] /\ ys = <<>> /\ evs = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ cfg' = E.cfg /\ ys' = <<>> /\ evs' = <<>>
            \/ E.e = "bar" /\ AppendBar(E.y)
            \/ E.e = "query" /\ UNCHANGED tsvars /\ Say("ANSWER", [c |-> E.c, out |-> [i \in 1..Len(evs) |-> Answer(evs[i])]])
TSpec == TInit /\ [][TNext]_<<cfg, ys, evs, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
