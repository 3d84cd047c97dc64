---------------------------- MODULE MC_TrendScan ----------------------------
EXTENDS TrendScan, Json
CONSTANTS MaxLen, Vals, Cfgs, Every
Init == cfg \in {[w |-> c[1], m |-> c[2], step |-> c[3]] : c \in Cfgs} /\ ys = <<>> /\ evs = <<>>
Next == Len(ys) < MaxLen /\ \E y \in Vals : AppendBar(y)
Spec == Init /\ [][Next]_tsvars
Code == LET F[i \in 0..Len(ys)] == IF i = 0 THEN 3 ELSE (F[i - 1] * 31 + ys[i] * 7) % 10007 IN F[Len(ys)]
Emit == (Len(ys) = MaxLen /\ Code % Every = 0) => PrintT("CASE " \o ToJson([cfg |-> cfg, ys |-> ys, out |-> [i \in 1..Len(evs) |-> Answer(evs[i])]]))
CQ == {<<5, 3, 1>>, <<6, 3, 2>>, <<4, 3, 1>>}
CT == {<<5, 3, 1>>, <<6, 3, 2>>, <<7, 3, 1>>, <<7, 3, 3>>, <<6, 4, 1>>}
=============================================================================
