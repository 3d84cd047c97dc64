---------------------------- MODULE Trace_BetSize ---------------------------
EXTENDS BetSize, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ cfg = [K |-> 2, meta |-> FALSE] /\ rows = <<>> /\ out = <<>>
Bad == {i \in 1..Len(E.x) : ~OnGrid(E.x[i], E.step, E.got[i], E.eps)}
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ cfg' = E.cfg /\ rows' = <<>> /\ out' = <<>>
            \/ E.e = "row" /\ AppendRow(E.r)
            \/ E.e = "query" /\ Say("ANSWER", [c |-> E.c, out |-> out]) /\ UNCHANGED bzvars
            \/ /\ E.e = "grid" /\ UNCHANGED bzvars
               /\ Clause(E.c, "nearest multiple of the step, three decimals, at most one", Bad = {},
                         IF Bad = {} THEN 0 ELSE [x |-> E.x[SetMin(Bad)], step |-> E.step, got |-> E.got[SetMin(Bad)]], "")
TSpec == TInit /\ [][TNext]_<<cfg, rows, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
