-------------------------- MODULE Trace_Concurrency -------------------------
(* The matrix the code reports is judged here; uniqueness and weights are    *)
(* answered as counts, so that no large fraction has to be formed.           *)
EXTENDS Concurrency, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ CInit
RECURSIVE SweepAll(_, _, _, _)
SweepAll(r, act, cn, cl) ==
    IF r > Len(grid) THEN [conc |-> cn, cols |-> cl]
    ELSE LET o == act \cup {i \in DOMAIN evs : evs[i].s = grid[r]}
         IN SweepAll(r + 1, {i \in o : evs[i].e > grid[r]}, Append(cn, Cardinality(o)),
                     [i \in DOMAIN evs |-> IF i \in o THEN Append(cl[i], r) ELSE cl[i]])
BadCol == {i \in DOMAIN evs : i > Len(E.cols) \/ E.cols[i] # cols[i]}
JudgeMatrix ==
    /\ Clause(E.c, "time grid", E.grid = grid, E.grid, grid)
    /\ Clause(E.c, "indicator matrix", BadCol = {} /\ Len(E.cols) = Len(evs) /\ E.rows = Len(grid),
              [event |-> IF BadCol = {} THEN 0 ELSE SetMin(BadCol), rows |-> E.rows, cols |-> E.cols],
              [rows |-> Len(grid), cols |-> cols])
    /\ Clause(E.c, "input unmodified", E.pure, "", "")
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ Reset
            \/ E.e = "ev" /\ AddEvent(E.x)
            \/ E.e = "bars" /\ bars' = {E.ts[i] : i \in 1..Len(E.ts)} /\ UNCHANGED <<evs, grid, pos, active, conc, cols>>
            \/ E.e = "seal" /\ Seal
            \/ /\ E.e = "sweep"
               /\ LET S == SweepAll(1, {}, <<>>, [i \in DOMAIN evs |-> <<>>])
                  IN conc' = S.conc /\ cols' = S.cols
               /\ pos' = Len(grid) /\ active' = {} /\ UNCHANGED <<evs, bars, grid>>
            \/ E.e = "matrix" /\ UNCHANGED ccvars /\ JudgeMatrix
            \/ E.e = "uniq" /\ UNCHANGED ccvars
               /\ Say("ANSWER", [c |-> E.c, conc |-> [i \in DOMAIN evs |-> ConcOf(i)]])
            \/ E.e = "weights" /\ UNCHANGED ccvars
               /\ Say("ANSWER", [c |-> E.c, conc |-> [i \in DOMAIN evs |-> ConcOf(i)],
                                 terms |-> [i \in DOMAIN evs |-> RetTerms(i)]])
TSpec == TInit /\ [][TNext]_<<ccvars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
