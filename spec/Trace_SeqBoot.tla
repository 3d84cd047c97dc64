---------------------------- MODULE Trace_SeqBoot ---------------------------
(* Before every draw the specification answers the odds in force, as the     *)
(* counts 1 + (earlier draws active on the bar), bar by bar of every event.  *)
EXTENDS SeqBoot, TraceKit
VARIABLE l
E == Trace[l]
S(seq) == {seq[i] : i \in 1..Len(seq)}
TInit == /\ l = 1 /\ mat = <<>> /\ want = 0 /\ batch = 1 /\ draws = <<>> /\ seen = 0 /\ cnt = <<>> /\ au = <<>>
\* the uniqueness fractions are not formed in long traces; counts are enough
TBegin == /\ mat' = [i \in 1..Len(E.cols) |-> S(E.cols[i])] /\ want' = E.want /\ batch' = E.batch
          /\ draws' = <<>> /\ seen' = 0 /\ cnt' = [t \in UNION Range(mat') |-> 0] /\ au' = <<>>
TRefresh == LET new == SubSeq(draws, seen + 1, Len(draws))
            IN /\ cnt' = [t \in Bars |-> cnt[t] + Cardinality({k \in 1..Len(new) : t \in mat[new[k]]})]
               /\ seen' = Len(draws)
Answer == Say("ANSWER", [c |-> E.c, k |-> E.k, terms |-> [i \in DOMAIN mat |->
              LET s == SortSet(mat[i]) IN [k \in 1..Len(s) |-> 1 + cnt'[s[k]]]]])
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ TBegin
            \/ /\ E.e = "odds"     \* odds in force before draw number Len(draws) + 1
               /\ IF NeedRefresh THEN TRefresh ELSE UNCHANGED <<cnt, seen>>
               /\ Answer /\ UNCHANGED <<mat, want, batch, draws, au>>
            \/ /\ E.e = "draw"
               /\ Clause(E.c, "a draw is an event position", E.i \in DOMAIN mat, E.i, Len(mat))
               /\ draws' = IF E.i \in DOMAIN mat THEN Append(draws, E.i) ELSE draws
               /\ UNCHANGED <<mat, want, batch, seen, cnt, au>>
            \/ /\ E.e = "result"
               /\ Clause(E.c, "number of draws", Len(E.out) = want, Len(E.out), want)
               /\ Clause(E.c, "every draw is an event position", \A i \in 1..Len(E.out) : E.out[i] \in DOMAIN mat, E.out, Len(mat))
               /\ Clause(E.c, "result is the drawn events", draws = <<>> \/ E.out = draws, E.out, draws)
               /\ Clause(E.c, "same matrix and seed, same draws; matrix unchanged", E.pure, "", "")
               /\ UNCHANGED sbvars
TSpec == TInit /\ [][TNext]_<<sbvars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
