--------------------------- MODULE Trace_ActiveBets -------------------------
EXTENDS ActiveBets, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ bets = <<>> /\ now = -1 /\ open = {} /\ out = <<>>
Want(k) == [t |-> out[k].t, v |-> MeanOf(out[k].on)]
FirstBad == LET D == {k \in 1..Min2(Len(E.rows), Len(out)) : E.rows[k] # Want(k)}
            IN IF D = {} THEN 0 ELSE SetMin(D)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ bets' = E.bets /\ now' = -1 /\ open' = {} /\ out' = <<>>
            \/ E.e = "tick" /\ Tick
            \/ /\ E.e = "query" /\ UNCHANGED abvars /\ Later = {}
               /\ Clause(E.c, "one row per distinct time, in order",
                         [k \in 1..Len(E.rows) |-> E.rows[k].t] = [k \in 1..Len(out) |-> out[k].t],
                         [k \in 1..Len(E.rows) |-> E.rows[k].t], [k \in 1..Len(out) |-> out[k].t])
               /\ Clause(E.c, "average of the open bets", FirstBad = 0,
                         IF FirstBad = 0 THEN 0 ELSE E.rows[FirstBad], IF FirstBad = 0 THEN 0 ELSE Want(FirstBad))
               /\ Clause(E.c, "the input is not modified", E.pure, "modified", "")
            \/ /\ E.e = "ask" /\ UNCHANGED abvars /\ Later = {}
               /\ Say("ANSWER", [c |-> E.c, out |-> [k \in 1..Len(out) |-> [t |-> out[k].t, on |-> SortSet(out[k].on)]]])
TSpec == TInit /\ [][TNext]_<<bets, now, open, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
