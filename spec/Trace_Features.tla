---------------------------- MODULE Trace_Features --------------------------
(* For recorded runs the exponential sums are kept in fixed point (1/16384).  *)
EXTENDS Features, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ cfg = [kind |-> "park", w |-> 1] /\ bars = <<>> /\ acc = NoAcc /\ out = <<>>
Step(n, x, span) == 16384 * x + (n * (span - 1)) \div (span + 1)
FixBar(x) == LET v == IF cfg.kind = "ewmd" THEN x.x ELSE x.b - x.s IN
    /\ bars' = Append(bars, x) /\ UNCHANGED cfg
    /\ acc' = [fn |-> Step(acc.fn, v, cfg.fast), fd |-> Step(acc.fd, 1, cfg.fast), sn |-> Step(acc.sn, v, cfg.slow), sd |-> Step(acc.sd, 1, cfg.slow)]
    /\ out' = Append(out, <<(100 * acc'.fn) \div acc'.fd, (100 * acc'.sn) \div acc'.sd>>)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ E.e = "start" /\ cfg' = E.cfg /\ bars' = <<>> /\ out' = <<>>
               /\ acc' = IF E.cfg.kind \in {"ewmd", "imb"} THEN [fn |-> 0, fd |-> 0, sn |-> 0, sd |-> 0] ELSE NoAcc
            \/ E.e = "bar" /\ IF Expo THEN FixBar(E.x) ELSE AppendBar(E.x)
            \/ E.e = "query" /\ UNCHANGED fevars /\ Say("ANSWER", [c |-> E.c, out |-> out])
TSpec == TInit /\ [][TNext]_<<cfg, bars, acc, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
