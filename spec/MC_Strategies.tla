---------------------------- MODULE MC_Strategies ---------------------------
EXTENDS Strategies, Json
CONSTANTS MaxLen, Levels, Kind
Q(n, d) == R(n, d)
Configs ==
    CASE Kind = "mr" -> {[kind |-> "mr", n |-> 3, thr |-> t] : t \in {Q(1, 8), Q(1, 4), Q(0, 1)}} \cup {[kind |-> "mr", n |-> 1, thr |-> Q(0, 1)]}
      [] Kind = "conf" -> {[kind |-> "conf", n |-> 2, thr |-> RInt(t), k |-> k, w |-> w] : t \in {50, 75}, k \in {1, 2}, w \in {1, 2}}
      [] Kind = "arr" -> {[kind |-> "arr", n |-> 2, lo |-> RInt(25), hi |-> RInt(h), blo |-> Q(-1, 8), bhi |-> Q(b, 8), fast |-> 1, slow |-> 2, max |-> RInt(4)]
                            : h \in {75, 101}, b \in {1, 2}}
      [] OTHER -> {[kind |-> "macd", fast |-> 2, slow |-> 3, signal |-> s] : s \in {1, 2}}
Price == {RInt(6 * v) : v \in Levels}
GapSet == IF Kind = "arr" THEN {1, 2, 3} ELSE {1}
Init == cfg \in Configs /\ bars = <<>> /\ ind = InitInd(cfg.kind) /\ hist = <<>> /\ out = <<>>
Next == Len(bars) < MaxLen /\ \E x \in Price, g \in GapSet : AppendBar(x, IF bars = <<>> THEN RInt(0) ELSE RInt(g))
Spec == Init /\ [][Next]_stvars
CONSTANT Every
Code == LET F[i \in 0..Len(bars)] == IF i = 0 THEN 7 ELSE (F[i - 1] * 31 + bars[i].x[1] * 5 + bars[i].gap[1]) % 10007 IN F[Len(bars)]
Emit == (Len(bars) = MaxLen /\ Code % Every = 0) => PrintT("CASE " \o ToJson([cfg |-> cfg, bars |-> bars, out |-> out]))
=============================================================================
