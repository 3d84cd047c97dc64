------------------------------ MODULE Strategies ----------------------------
(* Rule-based strategies: streaming indicators (EMA, Wilder's RSI, MACD      *)
(* histogram, bar-arrival speed) and the rules that turn them into signals.  *)
(* A rule works on three-valued codes: 1 holds, 0 does not, 2 cannot be told *)
(* (only used for recorded runs, when an indicator is within rounding of its *)
(* threshold); a rule's answer is therefore the set of signals it allows.    *)
EXTENDS Util, Rat
VARIABLES cfg,   \* [kind, ...] kind in "mr", "conf", "arr", "macd"
          bars,  \* [x: close, gap: time since the previous bar]
          ind,   \* indicator state after the last bar
          hist,  \* indicator values per bar
          out    \* allowed answers per bar (sets)
stvars == <<cfg, bars, ind, hist, out>>
NA == 9          \* undefined answer
---------------------------------------------------------------------------
(* rules over codes *)
And3(S) == IF 0 \in S THEN 0 ELSE IF 2 \in S THEN 2 ELSE 1
Allowed(c) == IF c = 2 THEN {0, 1} ELSE {c}
MrAnswer(up, dn) == IF up = 1 THEN {-1} ELSE IF dn = 1 THEN {1}
                    ELSE {0} \cup (IF up = 2 THEN {-1} ELSE {}) \cup (IF dn = 2 THEN {1} ELSE {})
(* below: code per bar of "RSI below its threshold"; inc: "RSI average increased" *)
ConfAnswer(below, k, inc) ==
    IF Len(below) < k THEN {0}
    ELSE Allowed(And3({below[j] : j \in (Len(below) - k + 1)..Len(below)} \cup {inc}))
ArrAnswer(lo, hi, blo, bhi) == Allowed(And3({lo, hi, blo, bhi}))
(* S, T: possible histogram signs before and now ({} undefined); twice the feature *)
MacdAnswer(S, T) == IF S = {} \/ T = {} THEN {NA} ELSE {t - s : s \in S, t \in T}
B(p) == IF p THEN 1 ELSE 0
---------------------------------------------------------------------------
(* streaming indicators, exact *)
MeanLast(s, w) == RDiv(RSum(SubSeq(s, Len(s) - w + 1, Len(s))), RInt(w))
EmaStep(e, s, n) ==   \* s: inputs so far (the seed is the plain mean of the first n)
    IF Len(s) < n THEN RNaN ELSE IF Len(s) = n THEN MeanLast(s, n)
    ELSE RAdd(e, RMul(R(2, n + 1), RSub(LastOf(s), e)))
Xs(b) == [i \in 1..Len(b) |-> b[i].x]
Gaps(b) == [i \in 1..Len(b) |-> b[i].gap]
Chg(b) == RSub(LastOf(b).x, b[Len(b) - 1].x)
Pos(r) == IF r[1] > 0 THEN r ELSE <<0, 1>>
RsiInit == [ag |-> RNaN, al |-> RNaN, sg |-> <<0, 1>>, sl |-> <<0, 1>>]
RsiStep(w, b, n) ==
    LET m == Len(b) - 1 IN   \* number of changes so far
    IF m < 1 THEN w
    ELSE LET g == Pos(Chg(b))  l == Pos(RNeg(Chg(b))) IN
         IF m < n THEN [w EXCEPT !.sg = RAdd(@, g), !.sl = RAdd(@, l)]
         ELSE IF m = n THEN [w EXCEPT !.ag = RDiv(RAdd(w.sg, g), RInt(n)), !.al = RDiv(RAdd(w.sl, l), RInt(n))]
         ELSE [w EXCEPT !.ag = RDiv(RAdd(RMul(@, RInt(n - 1)), g), RInt(n)), !.al = RDiv(RAdd(RMul(@, RInt(n - 1)), l), RInt(n))]
Rsi(w) == IF ~RIsNum(w.ag) THEN RNaN
          ELSE IF RAdd(w.ag, w.al)[1] = 0 THEN <<0, 1>>
          ELSE RMul(RInt(100), RDiv(w.ag, RAdd(w.ag, w.al)))
MacdInit == [f |-> RNaN, s |-> RNaN, line |-> <<>>, sig |-> RNaN, h |-> RNaN]
(* both averages start where the slow one does *)
MacdStep(w, b, c) ==
    LET n == Len(b)
        s == EmaStep(w.s, Xs(b), c.slow)
        f == IF n < c.slow THEN RNaN ELSE EmaStep(w.f, SubSeq(Xs(b), c.slow - c.fast + 1, n), c.fast)
        line == IF n < c.slow THEN <<>> ELSE Append(w.line, RSub(f, s))
        sig == IF n < c.slow THEN RNaN ELSE EmaStep(w.sig, line, c.signal)
    IN [f |-> f, s |-> s, line |-> line, sig |-> sig, h |-> IF RIsNum(sig) THEN RSub(LastOf(line), sig) ELSE RNaN]
ArrDiff(b, c) == IF Len(b) - 1 < Max2(c.fast, c.slow) THEN RNaN
                 ELSE RDiv(RSub(MeanLast(Gaps(b), c.fast), MeanLast(Gaps(b), c.slow)), c.max)
---------------------------------------------------------------------------
InitInd(k) == IF k = "mr" THEN [e |-> RNaN] ELSE IF k = "macd" THEN MacdInit ELSE RsiInit
Lt3(a, b) == IF RIsNum(a) /\ RIsNum(b) THEN B(RLt(a, b)) ELSE 0
Signs(h, b) == IF ~RIsNum(h) THEN {} ELSE IF h[1] # 0 THEN {RSign(h)}
               ELSE IF \A i \in 1..Len(b) : b[i].x = b[1].x THEN {0} ELSE {-1, 0, 1}
(* the moving average of the last w RSI values rises iff the newest exceeds the one that left; *)
(* when they are equal the real sums may differ by rounding unless all of them are equal        *)
Inc(h, w) == LET n == Len(h) IN
    IF n - w < 1 THEN 0
    ELSE IF ~RIsNum(h[n - w].v) THEN 0
    ELSE IF h[n].v = h[n - w].v THEN (IF \A j \in (n - w)..n : h[j].v = h[n].v THEN 0 ELSE 2)
    ELSE B(RLt(h[n - w].v, h[n].v))
AppendBar(x, gap) ==
    /\ bars' = Append(bars, [x |-> x, gap |-> gap])
    /\ UNCHANGED cfg
    /\ CASE cfg.kind = "mr" ->
              /\ ind' = [e |-> EmaStep(ind.e, Xs(bars'), cfg.n)]
              /\ hist' = Append(hist, [v |-> ind'.e])
              /\ LET d == IF RIsNum(ind'.e) THEN RDiv(RSub(x, ind'.e), ind'.e) ELSE RNaN IN
                 out' = Append(out, MrAnswer(Lt3(cfg.thr, d), Lt3(d, RNeg(cfg.thr))))
         [] cfg.kind = "conf" ->
              /\ ind' = RsiStep(ind, bars', cfg.n)
              /\ hist' = Append(hist, [v |-> Rsi(ind')])
              /\ out' = Append(out, ConfAnswer([i \in 1..Len(hist') |-> Lt3(hist'[i].v, cfg.thr)], cfg.k, Inc(hist', cfg.w)))
         [] cfg.kind = "arr" ->
              /\ ind' = RsiStep(ind, bars', cfg.n)
              /\ LET v == Rsi(ind') d == ArrDiff(bars', cfg) IN
                 /\ hist' = Append(hist, [v |-> v, d |-> d])
                 /\ out' = Append(out, ArrAnswer(Lt3(cfg.lo, v), Lt3(v, cfg.hi), Lt3(cfg.blo, d), Lt3(d, cfg.bhi)))
         [] OTHER ->
              /\ ind' = MacdStep(ind, bars', cfg)
              /\ hist' = Append(hist, [v |-> ind'.h])
              /\ LET n == Len(hist') IN
                 out' = Append(out, IF n = 1 THEN {NA} ELSE MacdAnswer(Signs(hist'[n - 1].v, bars), Signs(hist'[n].v, bars')))
---------------------------------------------------------------------------
(* declarative readings *)
EmaDecl(t, n) == LET a == R(2, n + 1)
                     q[k \in 0..t] == IF k = 0 THEN <<1, 1>> ELSE RMul(q[k - 1], RSub(<<1, 1>>, a))
                 IN IF t < n THEN RNaN
                    ELSE RAdd(RMul(q[t - n], RDiv(RSum(SubSeq(Xs(bars), 1, n)), RInt(n))),
                              RSum([j \in 1..(t - n) |-> RMul(a, RMul(q[t - n - j], bars[n + j].x))]))
EmaIsWeightedSum == cfg.kind = "mr" => \A t \in 1..Len(hist) : hist[t].v = EmaDecl(t, cfg.n)
EmaWithinRange == cfg.kind = "mr" => \A t \in 1..Len(hist) : RIsNum(hist[t].v) =>
                    \E i, j \in 1..t : RLe(bars[i].x, hist[t].v) /\ RLe(hist[t].v, bars[j].x)
RsiBounded == cfg.kind \in {"conf", "arr"} => \A t \in 1..Len(hist) :
                (RIsNum(hist[t].v) <=> t > cfg.n) /\ (t > cfg.n => RLe(<<0, 1>>, hist[t].v) /\ RLe(hist[t].v, <<100, 1>>))
(* rises only: RSI 100; falls or nothing only: RSI 0 *)
RsiExtremes == cfg.kind \in {"conf", "arr"} => \A t \in 1..Len(hist) : t > cfg.n =>
    /\ (\A i \in 2..t : RLe(bars[i - 1].x, bars[i].x)) /\ (\E i \in 2..t : RLt(bars[i - 1].x, bars[i].x)) => hist[t].v = <<100, 1>>
    /\ (\A i \in 2..t : RLe(bars[i].x, bars[i - 1].x)) => hist[t].v = <<0, 1>>
WarmUpIsSilent == \A t \in 1..Len(out) :
    /\ cfg.kind = "mr" /\ t < cfg.n => out[t] = {0}
    /\ cfg.kind = "conf" /\ t < Max2(cfg.n + cfg.w + 1, cfg.n + cfg.k) => out[t] = {0}
    /\ cfg.kind = "arr" /\ t < 1 + Max2(cfg.n, Max2(cfg.fast, cfg.slow)) => out[t] = {0}
    /\ cfg.kind = "macd" => ((t < cfg.slow + cfg.signal) <=> (out[t] = {NA}))
FlatNeverTrades == (\A i \in 1..Len(bars) : bars[i].x = bars[1].x) =>
                     \A t \in 1..Len(out) : cfg.kind = "mr" => out[t] = {0}
ConfDecl == cfg.kind = "conf" => \A t \in 1..Len(out) :
    1 \in out[t] => /\ \A j \in (t - cfg.k + 1)..t : IF j < 1 THEN FALSE ELSE RIsNum(hist[j].v) /\ RLt(hist[j].v, cfg.thr)
                    /\ RLe(RSum([j \in 1..cfg.w |-> hist[t - j].v]), RSum([j \in 1..cfg.w |-> hist[t - j + 1].v]))
MacdTelescopes == cfg.kind = "macd" => \A t \in 1..Len(out) : (out[t] # {NA} /\ Cardinality(out[t]) = 1) =>
                    LET a == CHOOSE a \in out[t] : TRUE IN
                    IF hist[t].v[1] = 0 \/ hist[t - 1].v[1] = 0 THEN TRUE ELSE a = RSign(hist[t].v) - RSign(hist[t - 1].v)
NeverRevised == [][IsPrefixOf(bars, bars') => IsPrefixOf(out, out')]_stvars
=============================================================================
