------------------------------ MODULE Trace_Sadf ----------------------------
EXTENDS Sadf, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ cfg = [model |-> "sm_exp", lags |-> <<>>, min |-> 3, const |-> TRUE] /\ ys = <<>> /\ out = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ cfg' = E.cfg /\ ys' = <<>> /\ out' = <<>>
            \/ E.e = "bar" /\ AppendBar(E.y)
            \/ E.e = "query" /\ UNCHANGED savars /\
               Say("ANSWER", [c |-> E.c, logy |-> LogY, logx |-> cfg.model = "sm_power", absolute |-> ~Standard,
                              X |-> [r \in 1..Rows(Len(ys)) |-> X(r)], Y |-> [r \in 1..Rows(Len(ys)) |-> Y(r)], out |-> out])
TSpec == TInit /\ [][TNext]_<<cfg, ys, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
