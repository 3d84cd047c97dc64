------------------------------ MODULE TrendScan -----------------------------
(* Trend scanning as a streaming machine. Every bar opens an event; an open  *)
(* event keeps running sums of its own window and, at each length of the     *)
(* grid, the squared t-value of the OLS slope as an exact fraction; it is    *)
(* resolved when look_forward_window bars of it have been seen.              *)
EXTENDS Util, Frac
VARIABLES cfg,   \* [w, m, step]
          ys,    \* closes (integers)
          evs    \* per bar: [n, sy, sxy, syy, best, cand, flat, done]
tsvars == <<cfg, ys, evs>>
(* squared t-value of the slope from the sums of n observations at x = 0..n-1 *)
Sxx(n) == (n * n * (n * n - 1)) \div 12
Num(e) == e.n * e.sxy - ((e.n * (e.n - 1)) \div 2) * e.sy
Den(e) == e.n * e.syy - e.sy * e.sy
T2(e) == LET N == Num(e) S == Sxx(e.n) D == Den(e) IN
         IF N = 0 THEN <<0, 1>> ELSE <<N * N * (e.n - 2), S * D - N * N>>
OnGrid(n) == n >= cfg.m /\ n < cfg.w /\ (n - cfg.m) % cfg.step = 0
(* y is taken relative to the first bar of the window: the slope's t-value does not change *)
Extend(e, y) ==
    LET n == e.n + 1
        z == y - e.y0
        f == [e EXCEPT !.n = n, !.sy = @ + z, !.sxy = @ + (n - 1) * z, !.syy = @ + z * z]
        t == T2(f)
        c == [len |-> n, sgn |-> Sgn(Num(f)), flat |-> Den(f) = 0]
    IN IF n = cfg.w THEN [f EXCEPT !.done = TRUE]
       ELSE IF ~OnGrid(n) THEN f
       ELSE IF f.cand = <<>> THEN [f EXCEPT !.best = t, !.cand = <<c>>]
       ELSE IF Lt(f.best, t) THEN [f EXCEPT !.best = t, !.cand = <<c>>]
       ELSE IF Lt(t, f.best) THEN f ELSE [f EXCEPT !.cand = Append(@, c)]
Open(y) == [n |-> 0, y0 |-> y, sy |-> 0, sxy |-> 0, syy |-> 0, best |-> <<0, 1>>, cand |-> <<>>, done |-> FALSE]
AppendBar(y) ==
    /\ ys' = Append(ys, y)
    /\ evs' = [i \in 1..(Len(evs) + 1) |->
                LET e == IF i > Len(evs) THEN Open(y) ELSE evs[i] IN IF e.done THEN e ELSE Extend(e, y)]
    /\ UNCHANGED cfg
(* horizons the code may report: the first of the exact ties; ties between horizons whose *)
(* t-values are not the same float expression may go either way                            *)
Answer(e) == [done |-> e.done, t2 |-> e.best,
              cand |-> IF e.cand = <<>> THEN <<>> ELSE IF \A i \in 1..Len(e.cand) : e.cand[i].flat THEN <<e.cand[1]>> ELSE e.cand]
---------------------------------------------------------------------------
(* declarative: centred sums of squares of the window itself *)
Win(i, n) == [k \in 1..n |-> ys[i + k - 1]]
CN(i, n) == LET w == Win(i, n) IN SumSeq([k \in 1..n |-> (2 * (k - 1) - (n - 1)) * (n * w[k] - SumSeq(w))])    \* 2 n Sxy
CD(i, n) == LET w == Win(i, n) IN SumSeq([k \in 1..n |-> (n * w[k] - SumSeq(w)) * (n * w[k] - SumSeq(w))])     \* n^2 Syy
CX(n) == SumSeq([k \in 1..n |-> (2 * (k - 1) - (n - 1)) * (2 * (k - 1) - (n - 1))])                            \* 4 Sxx
DT2(i, n) == LET N == CN(i, n) IN IF N = 0 THEN <<0, 1>> ELSE <<N * N * (n - 2), CX(n) * CD(i, n) - N * N>>
Grid == {n \in cfg.m..(cfg.w - 1) : OnGrid(n)}
Resolved == \A i \in 1..Len(evs) : evs[i].done <=> i + cfg.w - 1 <= Len(ys)
BestIsMaximal == \A i \in 1..Len(evs) : evs[i].done =>
    /\ \A n \in Grid : ~Lt(evs[i].best, DT2(i, n))
    /\ \A n \in Grid : (\E k \in 1..Len(evs[i].cand) : evs[i].cand[k].len = n) <=> (~Lt(DT2(i, n), evs[i].best))
    /\ \A k \in 1..Len(evs[i].cand) : evs[i].cand[k].sgn = Sgn(CN(i, evs[i].cand[k].len))
DependsOnWindowOnly == \A i, j \in 1..Len(evs) :
    (evs[i].done /\ evs[j].done /\ \A k \in 0..(cfg.w - 1) : ys[i + k] = ys[j + k]) => Answer(evs[i]) = Answer(evs[j])
(* a rising line has an infinite positive t-value at every horizon *)
LinesAreCertain == \A i \in 1..Len(evs) :
    (evs[i].done /\ ys[i] # ys[i + 1] /\ \A k \in 1..(cfg.w - 1) : ys[i + k] - ys[i + k - 1] = ys[i + 1] - ys[i])
      => evs[i].best[2] = 0 /\ \A k \in 1..Len(evs[i].cand) : evs[i].cand[k].sgn = Sgn(ys[i + 1] - ys[i])
NeverRevised == [][\A i \in 1..Len(evs) : evs[i].done => evs'[i] = evs[i]]_tsvars
=============================================================================
