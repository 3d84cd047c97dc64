-------------------------- MODULE MC_TripleBarrier --------------------------
EXTENDS TripleBarrier, Json
CONSTANTS MaxLen, Closes, Sides, Ns, Factors
Params == {[n |-> n, ptn |-> a[1], ptd |-> a[2], sln |-> b[1], sld |-> b[2], u |-> 1, s |-> 1, exact |-> TRUE] :
             n \in Ns, a \in Factors, b \in Factors}
Init == p \in Params /\ bars = <<>> /\ ev = <<>>
Next == Len(bars) < MaxLen /\ \E c \in Closes, d \in Sides : AppendBar([c |-> c, sd |-> d, v |-> 1])
Spec == Init /\ [][Next]_tbvars
Combos == <<<<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>>>
Emit == Len(bars) = MaxLen => PrintT("CASE " \o ToJson(
    [p |-> p, c |-> [i \in 1..MaxLen |-> bars[i].c], sd |-> [i \in 1..MaxLen |-> bars[i].sd],
     end |-> [i \in 1..MaxLen |-> EndOf(i)], st |-> [i \in 1..MaxLen |-> ev[i].st],
     ret |-> [k \in 1..2 |-> [i \in 1..MaxLen |-> RetOf(i, k = 2)]],
     lab |-> [k \in 1..4 |-> [i \in 1..MaxLen |-> LabelOf(i, Combos[k][1], Combos[k][2])]]]))
F3 == {<<0, 1>>, <<1, 4>>, <<1, 2>>}
F2 == {<<0, 1>>, <<1, 4>>}
C4 == {2, 3, 4, 5}
C3 == {2, 3, 4}
SOne == {1}
SAll == {-1, 0, 1, NoSide}
=============================================================================
