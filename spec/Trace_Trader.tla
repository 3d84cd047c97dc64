---------------------------- MODULE Trace_Trader ----------------------------
EXTENDS Trader, TraceKit
VARIABLE l
E == Trace[l]
TInit == /\ l = 1 /\ cfg = [adj |-> FALSE] /\ data = <<>> /\ valid = "unknown" /\ log = <<>>
Rs(seq) == {seq[i] : i \in 1..Len(seq)}
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ E.e = "start" /\ cfg' = E.cfg /\ data' = E.data /\ valid' = "unknown" /\ log' = <<>>
            \/ /\ E.e = "call" /\ Call(E.op, E.x)
               /\ LET want == Result(E.op, E.x) IN
                  /\ Clause(E.c, "kind of answer", E.kind = want.kind, [op |-> E.op, x |-> E.x, got |-> E.kind], want.kind)
                  /\ E.kind = want.kind =>
                     /\ Clause(E.c, "answer of the closing model", E.ans = want.ans, E.ans, want.ans)
                     /\ Clause(E.c, "rows: " \o E.op, Rs(E.rows) = want.rows /\ Len(E.rows) = Cardinality(want.rows), E.rows, want.rows)
               /\ Clause(E.c, "validity flag", E.valid = valid', [op |-> E.op, x |-> E.x, got |-> E.valid], valid')
               /\ Clause(E.c, "the caller's frames are not modified", E.pure, E.op, "")
TSpec == TInit /\ [][TNext]_<<cfg, data, valid, log, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
