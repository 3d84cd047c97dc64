-------------------------------- MODULE Sadf --------------------------------
(* Supremum ADF: which regression rows exist, what they contain, which       *)
(* windows compete at each time, how a window's statistic is penalised, and  *)
(* (for small integers) the exact statistic by Gram determinants.            *)
EXTENDS Util, Rat, Frac
VARIABLES cfg,   \* [model, lags, min, const]
          ys, out
savars == <<cfg, ys, out>>
Standard == cfg.model \in {"no_trend", "linear", "quadratic"}
LogY == cfg.model \in {"sm_poly_2", "sm_exp", "sm_power"}
MaxLag == IF Standard /\ cfg.lags # <<>> THEN SetMax(Range(cfg.lags)) ELSE 0
Off == IF Standard THEN MaxLag + 1 ELSE 0     \* row r describes time r + Off
Rows(n) == n - Off
D(t) == ys[t] - ys[t - 1]
X(r) == LET t == r + Off  c == IF cfg.const THEN <<1>> ELSE <<>> IN
    CASE cfg.model = "no_trend" -> <<ys[t - 1]>> \o [i \in 1..Len(cfg.lags) |-> D(t - cfg.lags[i])] \o c
      [] cfg.model = "linear" -> <<ys[t - 1]>> \o [i \in 1..Len(cfg.lags) |-> D(t - cfg.lags[i])] \o <<r>> \o c
      [] cfg.model = "quadratic" -> <<ys[t - 1]>> \o [i \in 1..Len(cfg.lags) |-> D(t - cfg.lags[i])] \o <<r, r * r>> \o c
      [] cfg.model \in {"sm_poly_1", "sm_poly_2"} -> <<r * r, r, 1>>
      [] OTHER -> <<r, 1>>                     \* sm_exp; sm_power uses the logarithm of r
Y(r) == IF Standard THEN D(r + Off) ELSE ys[r + Off]
(* windows of rows ending at row e; a window of length w is divided by (w - 1)^phi *)
Windows(e) == [i \in 1..(e - cfg.min + 1) |-> [start |-> i, pen |-> IF Standard THEN 0 ELSE e - i]]
AppendBar(y) ==
    /\ ys' = Append(ys, y)
    /\ UNCHANGED cfg
    /\ LET e == Rows(Len(ys')) IN
       out' = IF e > cfg.min THEN Append(out, [time |-> Len(ys'), row |-> e, wins |-> Windows(e)]) ELSE out
---------------------------------------------------------------------------
(* exact t-statistic of the first coefficient over rows s..e: with the Gram matrix G of the *)
(* regressors, C = det(G with its first column replaced by X'y), A = det of the Gram matrix *)
(* of (X, y) and B the first principal minor,  t^2 = C^2 (n - k) / (A B),  sign t = sign C   *)
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE SumSeq([j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] *
                 Det([a \in 1..(Len(M) - 1) |-> [b \in 1..(Len(M) - 1) |-> M[a + 1][IF b < j THEN b ELSE b + 1]]])])
Full(r) == Append(X(r), Y(r))
Gram(s, e) == LET rows == [i \in 1..(e - s + 1) |-> Full(s + i - 1)]  k == Len(rows[1]) IN
              [a \in 1..k |-> [b \in 1..k |-> SumSeq([i \in 1..Len(rows) |-> rows[i][a] * rows[i][b]])]]
Stat(s, e) == LET GA == Gram(s, e)
                  k == Len(GA) - 1
                  G == [a \in 1..k |-> [b \in 1..k |-> GA[a][b]]]
                  C == Det([a \in 1..k |-> [b \in 1..k |-> IF b = 1 THEN GA[a][k + 1] ELSE GA[a][b]]])
                  A == Det(GA)
                  B == Det([a \in 1..(k - 1) |-> [b \in 1..(k - 1) |-> GA[a + 1][b + 1]]])
                  n == e - s + 1
              IN [g |-> Det(G), a |-> A, sgn |-> Sgn(C),
                  t2 |-> IF A = 0 \/ B = 0 THEN <<0, 0>> ELSE RMul(R(C, A), R(C * (n - k), B))]
Stats(e) == [i \in 1..(e - cfg.min + 1) |-> Stat(i, e)]
Regular(S) == \A i \in 1..Len(S) : S[i].g > 0
Noisy(S) == \A i \in 1..Len(S) : S[i].a > 0
RECURSIVE SupOf(_, _)
SupOf(S, i) == IF i = 1 THEN S[1] ELSE LET m == SupOf(S, i - 1) IN
               IF SLt(m.sgn, m.t2, S[i].sgn, S[i].t2) THEN S[i] ELSE m
---------------------------------------------------------------------------
OneResultPerTime == \A i \in 1..Len(out) : out[i].time = cfg.min + Off + i
WindowsAreAllLongEnough == \A i \in 1..Len(out) : LET o == out[i] IN
    {o.wins[k].start : k \in 1..Len(o.wins)} = {s \in 1..o.row : o.row - s + 1 >= cfg.min}
NothingLater == \A i \in 1..Len(out) : out[i].row + Off = out[i].time
RowsUseThePast == \A r \in 1..Rows(Len(ys)) : Standard => Len(Full(r)) = Len(X(r)) + 1
SupIsAttained == \A i \in {k \in {Len(out)} : k > 0} : LET S == Stats(out[i].row) m == SupOf(S, Len(S)) IN
    (Regular(S) /\ Noisy(S)) => /\ \E k \in 1..Len(S) : S[k] = m
                                /\ \A k \in 1..Len(S) : ~SLt(m.sgn, m.t2, S[k].sgn, S[k].t2)
NeverRevised == [][IsPrefixOf(out, out')]_savars
=============================================================================
