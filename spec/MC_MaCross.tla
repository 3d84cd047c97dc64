------------------------------ MODULE MC_MaCross ----------------------------
EXTENDS MaCross, Json
CONSTANTS MaxLen, Vals, Pairs
Init == cfg \in {[fast |-> p[1], slow |-> p[2]] : p \in Pairs} /\ xs = <<>> /\ rel = 9 /\ held = 0 /\ out = <<>>
Next == Len(xs) < MaxLen /\ \E x \in Vals : AppendBar(x)
Spec == Init /\ [][Next]_mcvars
Emit == Len(xs) = MaxLen => PrintT("CASE " \o ToJson([cfg |-> cfg, xs |-> xs, out |-> out]))
PQ == {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 3>>}
PT == {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 3>>, <<2, 4>>, <<3, 4>>}
=============================================================================
