------------------------------ MODULE MC_Cusum ------------------------------
EXTENDS Cusum, Json
CONSTANTS MaxLen, MaxVal, Thresholds
Init == /\ h \in Thresholds /\ xs = <<>> /\ up = 0 /\ dn = 0 /\ sel = <<>>
Next == Len(xs) < MaxLen /\ \E x \in 0..MaxVal : Feed(x)
Spec == Init /\ [][Next]_cvars
Emit == Len(xs) = MaxLen => PrintT("CASE " \o ToJson([h |-> h, xs |-> xs, sel |-> sel]))
=============================================================================
