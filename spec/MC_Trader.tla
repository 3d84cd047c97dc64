------------------------------ MODULE MC_Trader -----------------------------
EXTENDS Trader, Json
CONSTANTS MaxCalls, Ops, Closes
B(v, sig) == [v |-> v, sig |-> sig]
S(a, z) == <<RInt(a), z>>
Data == << [dup |-> FALSE, bars |-> <<B(FALSE, <<>>), B(TRUE, S(1, R(1, 2))), B(TRUE, S(-1, RInt(1))), B(TRUE, <<>>)>>],
           [dup |-> FALSE, bars |-> <<B(FALSE, <<>>), B(TRUE, S(1, R(5, 4))), B(TRUE, S(0, RInt(0)))>>],
           [dup |-> FALSE, bars |-> <<B(FALSE, S(2, R(1, 4))), B(TRUE, S(1, R(1, 4)))>>],
           [dup |-> FALSE, bars |-> <<B(FALSE, <<>>), B(TRUE, S(-1, R(-1, 8)))>>],
           [dup |-> FALSE, bars |-> <<B(FALSE, <<>>), B(FALSE, <<>>)>>],
           [dup |-> TRUE, bars |-> <<B(FALSE, S(1, R(1, 2))), B(TRUE, S(1, R(1, 2)))>>] >>
Init == /\ cfg \in {[sl |-> RInt(2), pt |-> R(3, 2), n |-> 7, adj |-> a, close |-> c] : a \in BOOLEAN, c \in Closes}
        /\ data = Data /\ valid = "unknown" /\ log = <<>>
Next == Len(log) < MaxCalls /\ \E op \in Ops, x \in 1..Len(data) : Call(op, x)
Spec == Init /\ [][Next]_tdvars
Brief(e) == [op |-> e.op, x |-> e.x]
Emit == Len(log) = MaxCalls => PrintT("CASE " \o ToJson([cfg |-> cfg, calls |-> [i \in 1..Len(log) |-> Brief(log[i])], valid |-> valid]))
ClosesQ == {"nomodel", "long", "bogus"}
ClosesT == {"nomodel", "none", "all", "long", "short", "bogus", "ALL"}
=============================================================================
