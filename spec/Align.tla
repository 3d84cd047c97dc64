-------------------------------- MODULE Align -------------------------------
(* Aligning a feature frame on a leading frame. Two clocks: AppendRow is a   *)
(* new row of the feature frame, AppendLead a new bar of the leading frame.  *)
(* A leading bar consumes every row that arrived since the last bar that     *)
(* consumed any; a bar with nothing new repeats the previous answer.         *)
(* A row at the very time of a leading bar arrives before it.                *)
EXTENDS Util, Rat
VARIABLES rows,   \* [t |-> time, v |-> rational or RNaN]
          leads,  \* leading times
          pend,   \* rows not yet consumed
          out     \* per leading bar: [mean, min, max]
alvars == <<rows, leads, pend, out>>

Undef == [mean |-> RNaN, min |-> RNaN, max |-> RNaN]
Agg(s) == IF \E i \in 1..Len(s) : ~RIsNum(s[i].v) THEN Undef
          ELSE LET V == {s[i].v : i \in 1..Len(s)}
               IN [mean |-> RDiv(RSum([i \in 1..Len(s) |-> s[i].v]), RInt(Len(s))),
                   min |-> CHOOSE x \in V : \A y \in V : RLe(x, y),
                   max |-> CHOOSE x \in V : \A y \in V : RLe(y, x)]
Start == rows' = <<>> /\ leads' = <<>> /\ pend' = <<>> /\ out' = <<>>
AppendRow(r) == /\ IF rows = <<>> THEN TRUE ELSE r.t >= LastOf(rows).t
                /\ IF leads = <<>> THEN TRUE ELSE r.t > LastOf(leads)
                /\ rows' = Append(rows, r) /\ pend' = Append(pend, r)
                /\ UNCHANGED <<leads, out>>
Previous == IF out = <<>> THEN Undef ELSE LastOf(out)
AppendLead(t) == /\ IF rows = <<>> THEN TRUE ELSE t >= LastOf(rows).t
                 /\ IF leads = <<>> THEN TRUE ELSE t > LastOf(leads)
                 /\ leads' = Append(leads, t)
                 /\ out' = Append(out, IF pend = <<>> THEN Previous ELSE Agg(pend))
                 /\ pend' = <<>> /\ UNCHANGED rows
---------------------------------------------------------------------------
(* Properties, stated on the finished frames only                            *)
Between(a, b) == SelectSeq(rows, LAMBDA r : r.t > a /\ r.t <= b)
Before(k) == {j \in 1..(k-1) : Between(IF j = 1 THEN -1 ELSE leads[j-1], leads[j]) # <<>>}
LastConsumer(k) == IF Before(k) = {} THEN -1 ELSE leads[SetMax(Before(k))]
Declared(k) == LET new == Between(LastConsumer(k), leads[k])
               IN IF new # <<>> THEN Agg(new) ELSE IF k = 1 THEN Undef ELSE out[k-1]
AlignedDeclarative == \A k \in 1..Len(leads) : out[k] = Declared(k)
(* an answer only mentions rows already known: later rows and bars change nothing *)
NeverRevised == [][IsPrefixOf(rows, rows') => IsPrefixOf(out, out')]_alvars
Bounded == \A k \in 1..Len(out) : RIsNum(out[k].mean) =>
              RLe(out[k].min, out[k].mean) /\ RLe(out[k].mean, out[k].max)
UndefinedOnlyFirst == \A k \in 2..Len(out) : out[k] = Undef =>
              \/ out[k-1] = Undef \/ \E i \in 1..Len(rows) : ~RIsNum(rows[i].v)
=============================================================================
