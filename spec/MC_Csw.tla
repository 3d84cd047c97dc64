------------------------------- MODULE MC_Csw -------------------------------
EXTENDS Csw, Json
CONSTANTS MaxLen, Vals, Ms, Every
Init == cfg \in [side : {-1, 0, 1}, m : Ms] /\ ys = <<>> /\ ss = 0 /\ csw = <<>>
Next == Len(ys) < MaxLen /\ \E y \in Vals : AppendBar(y)
Spec == Init /\ [][Next]_cwvars
Code == LET F[i \in 0..Len(ys)] == IF i = 0 THEN 3 ELSE (F[i - 1] * 31 + ys[i] * 7) % 10007 IN F[Len(ys)]
Emit == (Len(ys) = MaxLen /\ Code % Every = 0) =>
          PrintT("CASE " \o ToJson([cfg |-> cfg, ys |-> ys, csw |-> [i \in 1..Len(csw) |-> CswAnswer(i)],
                 chow |-> LET B == SortSet(ChowBreaks) IN [i \in 1..Len(B) |-> Chow(B[i])]]))
=============================================================================
