------------------------------- MODULE MC_Grid ------------------------------
(* The grid relation always has an answer, and only one away from ties, and they are *)
(* the multiples nearest to x; every x and step (in thousandths) at once.    *)
EXTENDS BetSize, Json
CONSTANTS XDen, Steps
VARIABLES x, step
Init == /\ cfg = [K |-> 2, meta |-> FALSE] /\ rows = <<>> /\ out = <<>>
        /\ x \in {i * (1000000 \div XDen) : i \in (-XDen)..XDen} /\ step \in Steps
Next == FALSE /\ UNCHANGED <<cfg, rows, out, x, step>>
Spec == Init /\ [][Next]_<<cfg, rows, out, x, step>>
Near(v) == Max2(-1000, (v \div 1000) - (step \div 2000) - 2)..Min2(1000, (v \div 1000) + (step \div 2000) + 2)
AnswersOf(v) == {g \in Near(v) : OnGrid(v, step, g, 0)}
Answers == AnswersOf(x)
FewAnswers == Cardinality(Answers) \in 1..(IF step % 1000 = 0 THEN 2 ELSE 4)
Symmetric == {-g : g \in Answers} = AnswersOf(-x)
Nearest == \A g \in Answers : 2 * Abs(x - g * 1000) <= step + 2000 \/ Abs(g) = 1000
Emit == PrintT("CASE " \o ToJson([x |-> x, step |-> step, ans |-> SortSet(Answers)]))
=============================================================================
