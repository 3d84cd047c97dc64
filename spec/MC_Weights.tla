------------------------------ MODULE MC_Weights ----------------------------
(* Rows at times 2, 4, ..: every choice of end times (on and off bars) and   *)
(* of base-2 log prices.                                                     *)
EXTENDS Concurrency, Json
CONSTANTS NEv, MaxEnd, Logs
VARIABLE xs
Init == CInit /\ xs = <<>>
Next == \/ /\ Len(evs) < NEv
           /\ LET s == 2 * (Len(evs) + 1) IN
              \E e \in s..MaxEnd, x \in Logs : AddEvent([s |-> s, e |-> e]) /\ xs' = Append(xs, x)
        \/ Len(evs) = NEv /\ Seal /\ UNCHANGED xs
        \/ Step /\ UNCHANGED xs
Spec == Init /\ [][Next]_<<ccvars, xs>>
Ds == <<<<1, 1>>, <<3, 4>>, <<1, 2>>, <<0, 1>>, <<-1, 4>>, <<-1, 2>>, <<-3, 4>>>>
DecayOk == Swept /\ (\A i \in DOMAIN xs : xs[i] = 0) => \A k \in 1..Len(Ds) : DecayShape(Ds[k])
\* one concurrency-weighted return per bar: the weights never exceed the path's variation
Emit == Swept => PrintT("CASE " \o ToJson([evs |-> evs, xs |-> xs, w |-> [i \in DOMAIN evs |-> RetWeight(i, xs)],
          ds |-> Ds, decay |-> IF \A i \in DOMAIN xs : xs[i] = 0 THEN [k \in 1..Len(Ds) |-> Decay(Ds[k])] ELSE <<>>]))
=============================================================================
