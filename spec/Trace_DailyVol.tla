---------------------------- MODULE Trace_DailyVol --------------------------
EXTENDS DailyVol, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ day = 1 /\ ts = <<>> /\ ptr = 0 /\ refs = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ Start(E.day)
            \/ E.e = "bar" /\ AppendBar(E.t)
            \/ /\ E.e = "query" /\ UNCHANGED dvvars
               /\ Say("ANSWER", [c |-> E.c, refs |-> refs])
TSpec == TInit /\ [][TNext]_<<ts, ptr, refs, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
