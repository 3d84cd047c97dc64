------------------------------ MODULE MC_SeqBoot ----------------------------
EXTENDS SeqBoot, Json
CONSTANTS NEv, NBar, Wants, Batches0
VARIABLE odds    \* odds in force at every draw
Ivals == {a..b : a \in 1..NBar, b \in 1..NBar} \ {{}}
Mats == {m \in [1..NEv -> Ivals] : \A i \in 1..(NEv - 1) : SetMin(m[i]) <= SetMin(m[i + 1])}
Init == /\ mat \in Mats /\ want \in Wants /\ batch \in Batches0 /\ draws = <<>> /\ seen = 0
        /\ cnt = [t \in Bars |-> 0] /\ au = [i \in DOMAIN mat |-> <<1, 1>>] /\ odds = <<>>
Next == \/ Refresh /\ UNCHANGED odds
        \/ \E e \in 1..NEv : Draw(e) /\ odds' = Append(odds, [i \in DOMAIN mat |-> Odds(i)])
Spec == Init /\ [][Next]_<<sbvars, odds>>
Emit == Finished => PrintT("CASE " \o ToJson([cols |-> [i \in DOMAIN mat |-> SortSet(mat[i])], want |-> want,
                              batch |-> batch, draws |-> draws, odds |-> odds]))
=============================================================================
