---------------------------- MODULE Trace_MaCross ---------------------------
EXTENDS MaCross, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ cfg = [fast |-> 1, slow |-> 1] /\ xs = <<>> /\ rel = 9 /\ held = 0 /\ out = <<>>
Want == [i \in 1..Len(out) |-> IF E.fill THEN out[i].fill ELSE out[i].cross]
Diff == {i \in 1..Min2(Len(E.sig), Len(out)) : E.sig[i] # Want[i]}
OneHot(s) == IF s = -1 THEN <<1, 0, 0>> ELSE IF s = 0 THEN <<0, 1, 0>> ELSE <<0, 0, 1>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ E.e = "start" /\ cfg' = E.cfg /\ xs' = <<>> /\ rel' = 9 /\ held' = 0 /\ out' = <<>>
            \/ E.e = "bar" /\ AppendBar(E.x)
            \/ /\ E.e = "query" /\ UNCHANGED mcvars
               /\ Clause(E.c, "one signal per bar", Len(E.sig) = Len(out), Len(E.sig), Len(out))
               /\ Clause(E.c, "crossing signal", Diff = {}, IF Diff = {} THEN 0 ELSE [bar |-> SetMin(Diff), got |-> E.sig[SetMin(Diff)]],
                         IF Diff = {} THEN 0 ELSE Want[SetMin(Diff)])
               /\ Clause(E.c, "the predictor gives the same signal", E.pred = E.sig, E.pred, E.sig)
               /\ Clause(E.c, "probabilities are one-hot on the predicted class",
                         E.proba = [i \in 1..Len(E.pred) |-> OneHot(E.pred[i])], E.proba, E.pred)
               /\ Clause(E.c, "the input is not modified", E.pure, "modified", "")
TSpec == TInit /\ [][TNext]_<<cfg, xs, rel, held, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
