------------------------------- MODULE MC_Cpcv ------------------------------
EXTENDS Cpcv, Json
CONSTANTS MaxN, Gaps, Hor, Embs, GK
Init == cfg \in {[G |-> g[1], k |-> g[2], emb |-> m] : g \in GK, m \in Embs}
        /\ smp = <<>> /\ splits = <<>> /\ used = {} /\ paths = <<>>
NextCombo == IF splits = <<>> THEN FirstCombo
             ELSE CHOOSE F \in Combos : \A s \in Range(splits) : s.test # TestOf(F)
Next == \/ N < MaxN /\ \E g \in Gaps, h \in Hor :
                LET t == IF smp = <<>> THEN 0 ELSE LastOf(smp).p + g
                IN (smp = <<>> => g = 1) /\ AddSample([p |-> t, e |-> t + h])
        \/ N = MaxN /\ ~AllSplit /\ DoSplit(NextCombo)
Spec == Init /\ [][Next]_cvvars
Emit == AllSplit /\ N = MaxN => PrintT("CASE " \o ToJson(
          [cfg |-> cfg, p |-> [i \in 1..N |-> smp[i].p], ev |-> [i \in 1..N |-> smp[i].e],
           splits |-> [s \in 1..Len(splits) |-> [test |-> SortSet(splits[s].test), train |-> SortSet(splits[s].train)]]]))
GKs == {<<2, 1>>, <<3, 1>>, <<3, 2>>, <<4, 2>>}
GKt == {<<2, 1>>, <<3, 1>>, <<3, 2>>, <<4, 2>>, <<5, 2>>, <<5, 3>>}
=============================================================================
