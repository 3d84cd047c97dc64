-------------------------------- MODULE MC_Oob ------------------------------
(* Every choice of bags and of one-hot votes of a few members on three rows; *)
(* the bags are forced on the real ensemble through its random state.        *)
EXTENDS Bagging, Json
CONSTANTS Rows, Members, Draws
VARIABLES bags, votes
Bags == [1..Draws -> 1..Rows]
Sorted(b) == \A i \in 1..(Draws - 1) : b[i] <= b[i + 1]
OneHot(k) == [q \in 1..2 |-> IF q = k THEN 1 ELSE 0]
Init == bags = <<>> /\ votes = <<>> /\ members = <<>> /\ phase = "idle" /\ todo = <<>> /\ built = <<>> /\ goal = 0
Next == /\ Len(bags) < Members /\ UNCHANGED bgvars
        /\ \E b \in {x \in Bags : Sorted(x)}, v \in [1..Rows -> 1..2] :
             /\ bags' = Append(bags, b) /\ votes' = Append(votes, v)
Spec == Init /\ [][Next]_<<bgvars, bags, votes>>
BS == [m \in 1..Len(bags) |-> Range(bags[m])]
VS == [m \in 1..Len(votes) |-> [r \in 1..Rows |-> OneHot(votes[m][r])]]
\* a row in no bag is judged by all, a row in every bag by none; the rest sums to one
Shape == Len(bags) = Members => \A r \in 1..Rows :
    LET d == Decision(BS, VS, r, 2) IN
    /\ (d[1] = RNaN) <=> \A m \in 1..Members : r \in BS[m]
    /\ d[1] # RNaN => RAdd(d[1], d[2]) = <<1, 1>>
Emit == Len(bags) = Members => PrintT("CASE " \o ToJson([bags |-> bags, votes |-> votes,
            dec |-> [r \in 1..Rows |-> Decision(BS, VS, r, 2)], win |-> [r \in 1..Rows |-> SortSet(Winners(BS, VS, r, 2))]]))
=============================================================================
