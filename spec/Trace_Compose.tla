---------------------------- MODULE Trace_Compose ----------------------------
(* One history on one object; the specification answers what every call      *)
(* returns and what the estimator is given.                                  *)
EXTENDS Compose, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ top = "union" /\ tree = <<>> /\ fitted = <<>> /\ saw = <<>> /\ out = [self |-> FALSE, rows |-> <<>>]
Tell == Say("ANSWER", [c |-> E.c, res |-> out', saw |-> saw'])
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ top' = E.top /\ tree' = E.tree /\ fitted' = <<>> /\ saw' = <<>> /\ out' = [self |-> FALSE, rows |-> <<>>]
            \/ E.e = "fit" /\ DoFit(E.X, E.y, E.w) /\ Tell
            \/ E.e = "fit_transform" /\ DoFitTransform(E.X, E.y) /\ Tell
            \/ E.e = "transform" /\ DoTransform(E.X) /\ Tell
            \/ E.e = "predict" /\ DoPredict(E.X) /\ Tell
TSpec == TInit /\ [][TNext]_<<covars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
