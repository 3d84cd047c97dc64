------------------------------- MODULE MC_Flow -------------------------------
EXTENDS Flow, Json
CONSTANTS MaxLen, Levels, Ns, Gs
Pars == {[h |-> hh, n |-> n, pt |-> f, sl |-> g, fast |-> 1, slow |-> s, explab |-> x, withbars |-> b, G |-> gk[1], k |-> gk[2], emb |-> m] :
           hh \in {2}, n \in Ns, f \in {<<1, 2>>, <<0, 1>>}, g \in {<<1, 2>>}, s \in {2}, x \in BOOLEAN, b \in {TRUE}, gk \in {<<3, 1>>}, m \in {0}}
        \cup {[h |-> 3, n |-> n, pt |-> <<1, 1>>, sl |-> <<1, 2>>, fast |-> 1, slow |-> 3, explab |-> TRUE, withbars |-> FALSE, G |-> gk[1], k |-> gk[2], emb |-> m] :
           n \in Ns, gk \in Gs, m \in {0, 1}}
Init == \E c \in Pars : FlowInit(c)
Next == \/ Len(xs) < MaxLen /\ \E x \in Levels : Bar(x)
        \/ Len(xs) = MaxLen /\ Collect
        \/ Inside
Spec == Init /\ [][Next]_flowvars
\* the composed machines keep their own invariants
Parts == Done => /\ Filter!SelIsDeclarative /\ Sides!CrossDeclarative /\ Barrier!EndIsFirstBarrier
                 /\ Sweep!MatrixDeclarative /\ Cv!NoLeak /\ Cv!OnlyNeeded /\ Bets!ActiveDeclarative
Emit == Done => PrintT("CASE " \o ToJson([par |-> par, xs |-> xs, out |-> Answer]))
N2 == {2, 3}
N3 == {2, 3, 5}
G1 == {<<3, 1>>, <<3, 2>>}
G2 == {<<3, 1>>, <<3, 2>>, <<4, 2>>}
L2x == {8, 16}
=============================================================================
