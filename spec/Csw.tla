-------------------------------- MODULE Csw ---------------------------------
(* Chu-Stinchcombe-White and Chow-type Dickey-Fuller statistics, exact on    *)
(* integers. CSW: a streaming machine that keeps the sum of squared changes; *)
(* Chow: the full-sample regression of the change on the level after a break.*)
EXTENDS Util, Rat, Frac
VARIABLES cfg,   \* [side: 1 positive, -1 negative, 0 two-sided; m: smallest number of samples for Chow]
          ys, ss, csw
cwvars == <<cfg, ys, ss, csw>>
Dist(t, n) == LET d == ys[t] - ys[n] IN IF cfg.side = 0 THEN Abs(d) ELSE cfg.side * d
(* squared departure of t from n, standardised: d^2 (t - 1) / (ss (t - n)) *)
Dep(t, n, s) == LET d == Dist(t, n) IN [n |-> n, sgn |-> Sgn(d), t2 |-> IF d = 0 THEN <<0, 1>> ELSE RMul(R(d * d, s), R(t - 1, t - n))]
RECURSIVE Best(_, _, _)
Best(t, n, s) == IF n = 1 THEN Dep(t, 1, s)
                 ELSE LET b == Best(t, n - 1, s) d == Dep(t, n, s) IN IF SLt(b.sgn, b.t2, d.sgn, d.t2) THEN d ELSE b
Ties(t, s, b) == {n \in 1..(t - 1) : LET d == Dep(t, n, s) IN ~SLt(d.sgn, d.t2, b.sgn, b.t2)}
AppendBar(y) ==
    /\ ys' = Append(ys, y)
    /\ UNCHANGED cfg
    /\ ss' = IF ys = <<>> THEN 0 ELSE ss + (y - LastOf(ys)) * (y - LastOf(ys))
    /\ csw' = IF ys = <<>> THEN csw
              ELSE Append(csw, LET t == Len(ys) + 1 IN [time |-> t, s |-> ss', ok |-> ss' > 0])
(* answers (a function of the recorded sums) *)
CswAnswer(i) == LET o == csw[i] IN
    IF ~o.ok THEN [time |-> o.time, ok |-> FALSE, sgn |-> 0, t2 |-> <<0, 1>>, lags |-> <<>>]
    ELSE LET b == Best(o.time, o.time - 1, o.s) IN
         [time |-> o.time, ok |-> TRUE, sgn |-> b.sgn, t2 |-> b.t2,
          lags |-> SortSet({o.time - n : n \in Ties(o.time, o.s, b)})]
(* Chow: break index b (0-based position), levels y[k-1] of the changes k = b+2.. (1-based) *)
ChowBreaks == cfg.m .. (Len(ys) - cfg.m - 1)
Chow(b) == LET N == Len(ys)
               lev(k) == IF k - 1 > b THEN ys[k - 1] ELSE 0
               ch(k) == ys[k] - ys[k - 1]
               xy == SumSeq([i \in 1..(N - 1) |-> lev(i + 1) * ch(i + 1)])
               xx == SumSeq([i \in 1..(N - 1) |-> lev(i + 1) * lev(i + 1)])
               yy == SumSeq([i \in 1..(N - 1) |-> ch(i + 1) * ch(i + 1)])
               rss == xx * yy - xy * xy
           IN [at |-> b, ok |-> rss > 0, sgn |-> Sgn(xy), t2 |-> IF rss = 0 THEN <<0, 0>> ELSE IF xy = 0 THEN <<0, 1>> ELSE RMul(R(xy, rss), R(xy * (N - 2), 1))]
---------------------------------------------------------------------------
SumOfSquares == ss = SumSeq([i \in 1..(IF ys = <<>> THEN 0 ELSE Len(ys) - 1) |-> (ys[i + 1] - ys[i]) * (ys[i + 1] - ys[i])])
EachTimeOnce == \A i \in 1..Len(csw) : csw[i].time = i + 1
SupremumOverAllEarlier == \A i \in {k \in {Len(csw)} : k > 0} : csw[i].ok =>
    LET a == CswAnswer(i) IN \A n \in 1..(a.time - 1) :
        LET d == Dep(a.time, n, csw[i].s) IN ~SLt(a.sgn, a.t2, d.sgn, d.t2) /\ ((a.time - n) \in Range(a.lags) <=> (d.t2 = a.t2 /\ d.sgn = a.sgn))
TwoSidedIsNonnegative == cfg.side = 0 => \A i \in 1..Len(csw) : csw[i].ok => CswAnswer(i).sgn >= 0
NeverRevised == [][\A i \in 1..Len(csw) : csw'[i] = csw[i]]_cwvars
=============================================================================
