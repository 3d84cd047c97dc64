--------------------------- MODULE MC_Concurrency ---------------------------
EXTENDS Concurrency, Json
CONSTANTS NEv, Starts, MaxEnd, BarSets
Init == CInit
Next == \/ /\ Len(evs) < NEv
           /\ \E s \in Starts, e \in 1..MaxEnd : e >= s /\ (IF evs = <<>> THEN TRUE ELSE s >= LastOf(evs).s) /\ AddEvent([s |-> s, e |-> e])
        \/ /\ Len(evs) = NEv /\ grid = <<>>
           /\ \E B \in BarSets : /\ bars' = B
                                 /\ UNCHANGED <<evs, pos, active, conc>>
                                 /\ grid' = SortSet({evs[i].s : i \in DOMAIN evs} \cup {evs[i].e : i \in DOMAIN evs}
                                                    \cup {t \in B : First <= t /\ t <= Last})
                                 /\ cols' = [i \in DOMAIN evs |-> <<>>]
        \/ Step
Spec == Init /\ [][Next]_ccvars
Emit == Swept => PrintT("CASE " \o ToJson([evs |-> evs, bars |-> SortSet(bars), grid |-> grid, cols |-> cols,
                                          uniq |-> [i \in DOMAIN evs |-> Uniq(i)]]))
Bs == SUBSET {0, 2, 3, 7}
=============================================================================
