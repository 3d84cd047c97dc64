------------------------------- MODULE MC_Sadf ------------------------------
EXTENDS Sadf, Json
CONSTANTS Vals, Cfgs, Every
Init == cfg \in Cfgs /\ ys = <<>> /\ out = <<>>
Next == Len(ys) < cfg.n /\ \E y \in Vals : AppendBar(y)
Spec == Init /\ [][Next]_savars
Code == LET F[i \in 0..Len(ys)] == IF i = 0 THEN 3 ELSE (F[i - 1] * 31 + ys[i] * 7) % 10007 IN F[Len(ys)]
Answer == [i \in 1..Len(out) |-> LET S == Stats(out[i].row) m == SupOf(S, Len(S)) IN
             [time |-> out[i].time, ok |-> Noisy(S), sgn |-> m.sgn, t2 |-> m.t2]]
Emit == (Len(ys) = cfg.n /\ Code % Every = 0 /\ \A i \in 1..Len(out) : Regular(Stats(out[i].row))) =>
          PrintT("CASE " \o ToJson([cfg |-> cfg, ys |-> ys, out |-> Answer]))
Cf(m, l, k, c, n) == [model |-> m, lags |-> l, min |-> k, const |-> c, n |-> n]
CQ == {Cf("no_trend", <<>>, 3, FALSE, 6), Cf("no_trend", <<>>, 3, TRUE, 6), Cf("no_trend", <<1>>, 3, FALSE, 7),
       Cf("no_trend", <<2>>, 3, FALSE, 7), Cf("linear", <<>>, 3, FALSE, 6)}
CT == CQ \cup {Cf("no_trend", <<1, 2>>, 4, FALSE, 8), Cf("linear", <<1>>, 4, FALSE, 7), Cf("linear", <<>>, 4, TRUE, 7)}
=============================================================================
