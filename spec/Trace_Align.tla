----------------------------- MODULE Trace_Align ----------------------------
EXTENDS Align, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ rows = <<>> /\ leads = <<>> /\ pend = <<>> /\ out = <<>>
(* E.rows: [k |-> leading bar, v |-> [mean, min, max] as far as configured]; *)
(* full: nothing may be missing; exact: missing exactly where undefined;     *)
(* undef: leading bars whose own row is undefined                            *)
Got == {E.rows[i].k : i \in 1..Len(E.rows)}
Def == {k \in 1..Len(out) : out[k] # Undef /\ k \notin {E.undef[i] : i \in 1..Len(E.undef)}}
Judge ==
    /\ Clause(E.c, "rows belong to leading bars, once, in order",
              /\ \A i \in 1..Len(E.rows) : E.rows[i].k \in 1..Len(leads)
              /\ \A i \in 1..(Len(E.rows) - 1) : E.rows[i].k < E.rows[i+1].k, E.rows, Len(leads))
    /\ E.full => Clause(E.c, "every leading bar has a row", Got = 1..Len(leads), Got, Len(leads))
    /\ E.exact => Clause(E.c, "exactly the defined rows are kept", Got = Def, Got, Def)
    /\ LET bad == {i \in 1..Len(E.rows) : E.rows[i].k \in 1..Len(leads)
                      /\ \E h \in DOMAIN E.rows[i].v : E.rows[i].v[h] # out[E.rows[i].k][h]}
       IN Clause(E.c, "aligned value", bad = {}, IF bad = {} THEN 0 ELSE E.rows[SetMin(bad)],
                 IF bad = {} THEN 0 ELSE out[E.rows[SetMin(bad)].k])
    /\ Clause(E.c, "the leading frame passes through", E.lead, "changed", E.view)
    /\ Clause(E.c, "the caller's frames are not modified", E.pure, "modified", E.view)
    /\ Say("STAT", [aligned_rows |-> Len(E.rows)])
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ Start
            \/ E.e = "row" /\ AppendRow([t |-> E.t, v |-> E.v])
            \/ E.e = "lead" /\ AppendLead(E.t)
            \/ E.e = "query" /\ Judge /\ UNCHANGED alvars
TSpec == TInit /\ [][TNext]_<<rows, leads, pend, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
