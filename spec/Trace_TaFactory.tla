--------------------------- MODULE Trace_TaFactory --------------------------
(* Requests and calls of one history; the specification answers what every   *)
(* one of them is bound to. The table of functions comes first.              *)
EXTENDS TaFactory, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ table = <<>> /\ built = <<>> /\ applied = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ Start(E.table)
            \/ E.e = "create" /\ Create(E.req) /\ Say("ANSWER", [c |-> E.c, op |-> "create", res |-> LastOf(built')])
            \/ E.e = "apply" /\ IF E.k \in DOMAIN built /\ ~IsRefused(built[E.k])
                                THEN Apply(E.k, E.frame) /\ Say("ANSWER", [c |-> E.c, op |-> "apply", res |-> LastOf(applied')])
                                ELSE UNCHANGED tavars /\ Say("ANSWER", [c |-> E.c, op |-> "none"])
TSpec == TInit /\ [][TNext]_<<tavars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
