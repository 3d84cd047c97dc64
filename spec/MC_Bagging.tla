----------------------------- MODULE MC_Bagging -----------------------------
EXTENDS Bagging
CONSTANTS MaxN, MaxJobs, MaxFits
VARIABLE fits
Init == members = <<>> /\ phase = "idle" /\ todo = <<>> /\ built = <<>> /\ goal = 0 /\ fits = 0
Next == \/ /\ fits < MaxFits /\ fits' = fits + 1
           /\ \E n \in 1..MaxN, w \in BOOLEAN, j \in 1..MaxJobs : StartFit(n, w, j)
        \/ (Join \/ \E j \in DOMAIN todo : Work(j)) /\ UNCHANGED fits
Spec == Init /\ [][Next]_<<bgvars, fits>>
=============================================================================
