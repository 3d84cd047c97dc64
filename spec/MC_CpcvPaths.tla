----------------------------- MODULE MC_CpcvPaths ---------------------------
(* Path building: every way of drawing predictions leads to PathCount paths. *)
EXTENDS Cpcv, Json
CONSTANTS GK
Init == cfg \in {[G |-> g[1], k |-> g[2], emb |-> 0] : g \in GK}
        /\ smp = <<>> /\ splits = <<>> /\ used = {} /\ paths = <<>>
NextCombo == IF splits = <<>> THEN FirstCombo
             ELSE CHOOSE F \in Combos : \A s \in Range(splits) : s.test # TestOf(F)
Next == \/ N < cfg.G /\ AddSample([p |-> N, e |-> N])
        \/ N = cfg.G /\ ~AllSplit /\ DoSplit(NextCombo)
        \/ AllSplit /\ \E ch \in [Folds -> 1..Len(splits)] : (\A f \in Folds : ch[f] \in Avail(f)) /\ TakePath(ch)
Spec == Init /\ [][Next]_cvvars
View == <<cfg, smp, splits, used>>
AllUsed == Len(paths) = PathCount => \A f \in Folds : Avail(f) = {}
Counted == AllSplit /\ N = cfg.G /\ paths = <<>> =>
             PrintT("CASE " \o ToJson([G |-> cfg.G, k |-> cfg.k, npaths |-> PathCount]))
GKs == {<<2, 1>>, <<3, 1>>, <<3, 2>>, <<4, 1>>, <<4, 2>>, <<4, 3>>, <<5, 1>>}
=============================================================================
