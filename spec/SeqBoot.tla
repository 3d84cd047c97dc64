------------------------------- MODULE SeqBoot ------------------------------
(* Sequential bootstrap. mat[i] is the set of bars of event i. Draw(e) picks *)
(* an event; after every `batch` draws the concurrency of the bars touched   *)
(* and the average uniqueness of the events touching them are refreshed.     *)
EXTENDS Util, Rat
VARIABLES mat,     \* sequence of bar sets
          want,    \* number of draws to make
          batch,   \* draws per probability update
          draws,   \* events drawn so far
          seen,    \* draws reflected in cnt / au
          cnt,     \* bar -> number of reflected draws active there
          au       \* event -> average uniqueness given the reflected draws
sbvars == <<mat, want, batch, draws, seen, cnt, au>>
Bars == UNION Range(mat)
Mean(S, c) == RDiv(LET s == SortSet(S) IN RSum([k \in 1..Len(s) |-> <<1, 1 + c[s[k]]>>]), RInt(Cardinality(S)))
Begin(m, w, b) == /\ mat' = m /\ want' = w /\ batch' = b /\ draws' = <<>> /\ seen' = 0
                  /\ cnt' = [t \in UNION Range(m) |-> 0]
                  /\ au' = [i \in DOMAIN m |-> <<1, 1>>]
NeedRefresh == Len(draws) > seen /\ Len(draws) % batch = 0
Refresh == /\ NeedRefresh /\ Len(draws) < want
           /\ LET new == SubSeq(draws, seen + 1, Len(draws))
                  hit == UNION {mat[new[k]] : k \in 1..Len(new)}
              IN /\ cnt' = [t \in Bars |-> cnt[t] + Cardinality({k \in 1..Len(new) : t \in mat[new[k]]})]
                 /\ au' = [i \in DOMAIN mat |-> IF mat[i] \cap hit = {} THEN au[i] ELSE Mean(mat[i], cnt')]
           /\ seen' = Len(draws) /\ UNCHANGED <<mat, want, batch, draws>>
Draw(e) == /\ Len(draws) < want /\ ~NeedRefresh
           /\ e \in DOMAIN mat
           /\ draws' = Append(draws, e) /\ UNCHANGED <<mat, want, batch, seen, cnt, au>>
Finished == Len(draws) = want
Odds(i) == RDiv(au[i], RSum(au))
---------------------------------------------------------------------------
CountFrom(t) == Cardinality({k \in 1..seen : t \in mat[draws[k]]})
AuDecl(i) == Mean(mat[i], [t \in Bars |-> CountFrom(t)])
Incremental == /\ \A t \in Bars : cnt[t] = CountFrom(t)
               /\ \A i \in DOMAIN mat : au[i] = AuDecl(i)
OddsSane == /\ \A i \in DOMAIN mat : RLt(<<0, 1>>, au[i]) /\ RLe(au[i], <<1, 1>>)
            /\ RSum([i \in DOMAIN mat |-> Odds(i)]) = <<1, 1>>
            /\ seen = 0 => \A i \in DOMAIN mat : Odds(i) = <<1, Len(mat)>>
            /\ \A i \in DOMAIN mat : (\A k \in 1..seen : mat[draws[k]] \cap mat[i] = {}) => au[i] = <<1, 1>>
Batches == seen % batch = 0 /\ Len(draws) - seen <= batch /\ Len(draws) <= want
\* drawing an event lowers the odds of what overlaps it, never raises its uniqueness
Lowering == [][seen' > seen => \A i \in DOMAIN mat : RLe(au'[i], au[i])]_sbvars
=============================================================================
