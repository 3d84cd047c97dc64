----------------------------- MODULE Trace_Purity ----------------------------
(* Rows of an answer are recorded as value numbers: two rows of the same      *)
(* configuration and position carry the same number when their values are     *)
(* equal (up to rounding). -1 stands for a row the answer does not have.      *)
EXTENDS Purity, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ objs = <<>> /\ calls = <<>>
Differ(o, fr, rows) == {j \in DOMAIN calls : ~Fits(o, fr, rows, j)}
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ objs' = <<>> /\ calls' = <<>>
            \/ E.e = "new" /\ New(E.cfg)
            \/ /\ E.e = "call"
               /\ Clause(E.c, "input left unmodified", E.pure, E.o, E.fr)
               /\ Clause(E.c, "one answer row per input row, in order", E.aligned /\ Len(E.rows) = E.fr.cut, Len(E.rows), E.fr.cut)
               /\ Clause(E.c, "answer depends on the configuration and the used data alone", Differ(E.o, E.fr, E.rows) = {},
                         [call |-> Len(calls) + 1, differs_from |-> Differ(E.o, E.fr, E.rows)], E.fr)
               /\ Call(E.o, E.fr, E.rows)
TSpec == TInit /\ [][TNext]_<<puvars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
