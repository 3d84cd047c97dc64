------------------------------ MODULE MC_Align ------------------------------
(* Slot after slot: nothing, a row, a leading bar, or both at the same time. *)
EXTENDS Align, Json
CONSTANTS Slots, Vals
VARIABLE s
vars == <<rows, leads, pend, out, s>>
V(x) == IF x = 99 THEN RNaN ELSE RInt(x)
(* undefined values form a warm-up prefix *)
Warm(x) == x = 99 => \A i \in 1..Len(rows) : ~RIsNum(rows[i].v)
Init == rows = <<>> /\ leads = <<>> /\ pend = <<>> /\ out = <<>> /\ s = 0
NextSlot == s' = s + 1
Two(x) == /\ rows' = Append(rows, [t |-> s, v |-> V(x)])
          /\ leads' = Append(leads, s) /\ pend' = <<>>
          /\ out' = Append(out, Agg(Append(pend, [t |-> s, v |-> V(x)])))
Next == s < Slots /\ NextSlot /\
        \/ UNCHANGED alvars
        \/ \E x \in Vals : Warm(x) /\ AppendRow([t |-> s, v |-> V(x)])
        \/ AppendLead(s)
        \/ \E x \in Vals : Warm(x) /\ Two(x)
Spec == Init /\ [][Next]_vars
Emit == s = Slots /\ rows # <<>> /\ leads # <<>> => PrintT("CASE " \o ToJson(
           [rows |-> rows, leads |-> leads, out |-> out]))
=============================================================================
