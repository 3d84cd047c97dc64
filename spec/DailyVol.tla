------------------------------- MODULE DailyVol -----------------------------
(* Which bars the daily volatility looks at. Each AppendBar advances a       *)
(* pointer to the last bar strictly earlier than one day before the new bar. *)
(* The volatility at a bar is the exponentially weighted standard deviation  *)
(* of the returns <<ref, bar>> collected so far, undefined below two.        *)
EXTENDS Util
VARIABLES day,   \* length of a day in the bars' time unit
          ts,    \* bar times
          ptr,   \* last bar strictly earlier than (current time - day), 0 if none
          refs   \* reference bar of each bar, 0 if none
dvvars == <<day, ts, ptr, refs>>
Start(d) == day' = d /\ ts' = <<>> /\ ptr' = 0 /\ refs' = <<>>
RECURSIVE Advance(_, _)
Advance(q, t) == IF q + 1 <= Len(ts) /\ ts[q + 1] < t - day THEN Advance(q + 1, t) ELSE q
AppendBar(t) == /\ (ts # <<>> => t > LastOf(ts))
                /\ ptr' = Advance(ptr, t)
                /\ ts' = Append(ts, t)
                /\ refs' = Append(refs, ptr')
                /\ UNCHANGED day
---------------------------------------------------------------------------
RefDecl(i) == LET S == {j \in 1..Len(ts) : ts[j] < ts[i] - day} IN IF S = {} THEN 0 ELSE SetMax(S)
RefsDeclarative == \A i \in 1..Len(ts) : refs[i] = RefDecl(i)
OnlyPast == \A i \in 1..Len(ts) : refs[i] < i
\* once there is a reference bar, every later bar has one: the return series is a suffix of the bars
Suffix == \A i \in 1..(Len(ts)-1) : refs[i] > 0 => refs[i+1] >= refs[i]
NeverRevised == [][Len(ts') > Len(ts) => IsPrefixOf(refs, refs')]_dvvars
\* number of returns available at bar i
NumReturns(i) == Cardinality({j \in 1..i : refs[j] > 0})
Defined(i) == NumReturns(i) >= 2
=============================================================================
