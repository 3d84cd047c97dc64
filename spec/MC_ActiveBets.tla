---------------------------- MODULE MC_ActiveBets ---------------------------
EXTENDS ActiveBets, Json
CONSTANTS NumBets, Starts, Ends, Sizes
B == [s : Starts, e : Ends, z : {R(k - 2, 8) : k \in Sizes}]
Code(b) == b.s * 1000 + b.e * 100 + (b.z[1] * (8 \div b.z[2])) + 10
Init == /\ bets \in [1..NumBets -> B] /\ \A i \in 1..(NumBets - 1) : Code(bets[i]) <= Code(bets[i+1])
        /\ now = -1 /\ open = {} /\ out = <<>>
Next == Tick
Spec == Init /\ [][Next]_abvars
Emit == Later = {} => PrintT("CASE " \o ToJson([bets |-> bets, out |-> [k \in 1..Len(out) |->
           [t |-> out[k].t, on |-> SortSet(out[k].on), mean |-> MeanOf(out[k].on)]]]))
=============================================================================
