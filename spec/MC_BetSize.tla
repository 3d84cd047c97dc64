------------------------------ MODULE MC_BetSize ----------------------------
EXTENDS BetSize, Json
CONSTANTS Den, MaxRows, Ks
Init == cfg \in [K : Ks, meta : BOOLEAN] /\ rows = <<>> /\ out = <<>>
Next == Len(rows) < MaxRows /\ \E n \in 0..Den, pred \in {-1, 0, 1}, side \in {-1, 0, 1} :
           (~cfg.meta => side = 1) /\ AppendRow([n |-> n, d |-> Den, pred |-> pred, side |-> side])
Spec == Init /\ [][Next]_bzvars
Emit == Len(rows) = MaxRows => PrintT("CASE " \o ToJson([cfg |-> cfg, rows |-> rows, out |-> out]))
=============================================================================
