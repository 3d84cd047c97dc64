--------------------------- MODULE MC_LogUniform ----------------------------
EXTENDS LogUniform, Json, TLC
CONSTANTS Span, MaxObj, MaxAsk
Lows == {0 - 2, 0, 1}
Init == objs = <<>> /\ log = <<>>
Next == \/ Len(objs) < MaxObj /\ \E lo \in Lows, w \in 1..Span : Make(lo, lo + w)
        \/ /\ objs # <<>> /\ Len(log) < MaxAsk
           /\ \E i \in DOMAIN objs : LET o == objs[i] IN
                \/ \E m \in {"cdf", "sf"}, k \in (o.lo - 1)..(o.hi + 1) : Ask(i, [m |-> m, k |-> k])
                \/ \E u \in {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<1, 1>>} : Ask(i, [m |-> "ppf", u |-> u])
                \/ \E k \in o.lo..o.hi : Ask(i, [m |-> "mass", j |-> o.lo + 1, k |-> k])
Spec == Init /\ [][Next]_luvars
Emit == Len(log) = MaxAsk /\ Len(objs) = MaxObj => PrintT("CASE " \o ToJson([objs |-> objs, log |-> log]))
=============================================================================
