----------------------------- MODULE Trace_Flow -----------------------------
(* Drives the composed machine over recorded bars and says what every stage  *)
(* decided; "work" lines let it finish the stages after the last bar.        *)
EXTENDS Flow, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ FlowInit([h |-> 1, n |-> 1, pt |-> <<1, 1>>, sl |-> <<1, 1>>, fast |-> 1, slow |-> 2, explab |-> TRUE, withbars |-> TRUE, G |-> 2, k |-> 1, emb |-> 0])
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ FlowReset(E.cfg)
            \/ E.e = "bar" /\ Bar(E.x)
            \/ E.e = "collect" /\ Collect
            \/ E.e = "work" /\ IF phase = "done" THEN UNCHANGED flowvars ELSE Inside
            \/ /\ E.e = "ask" /\ UNCHANGED flowvars
               /\ Assert(phase = "done", "the stages are not finished")
               /\ Say("ANSWER", [c |-> E.c, out |-> Answer])
TSpec == TInit /\ [][TNext]_<<flowvars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
