----------------------------- MODULE MC_DailyVol ----------------------------
EXTENDS DailyVol, Json
CONSTANTS Day, MaxLen, Gaps
Init == day = Day /\ ts = <<>> /\ ptr = 0 /\ refs = <<>>
Next == Len(ts) < MaxLen /\ \E g \in Gaps : AppendBar(IF ts = <<>> THEN g ELSE LastOf(ts) + g)
Spec == Init /\ [][Next]_dvvars
Emit == Len(ts) = MaxLen => PrintT("CASE " \o ToJson([ts |-> ts, refs |-> refs,
                                                     def |-> [i \in 1..MaxLen |-> Defined(i)]]))
=============================================================================
