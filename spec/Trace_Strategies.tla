---------------------------- MODULE Trace_Strategies ------------------------
(* Recorded runs: the harness evaluates the indicator formulas in floating   *)
(* point and passes them scaled to integers; windows, conditions, warm-up,   *)
(* combination and the signal itself are judged here by the same rules.      *)
EXTENDS Strategies, TraceKit
VARIABLE l
E == Trace[l]
None == -2000000000
Tol == 20
Def(v) == v # None
L3(a, b) == IF ~Def(a) \/ ~Def(b) THEN 0 ELSE IF Abs(a - b) <= Tol THEN 2 ELSE B(a < b)
S3(h) == IF ~Def(h) THEN {} ELSE IF Abs(h) <= Tol THEN {-1, 0, 1} ELSE {Sgn(h)}
TInc(h, w) == LET n == Len(h) IN
    IF n - w < 1 THEN 0 ELSE IF ~Def(h[n - w].v) THEN 0
    ELSE IF h[n].flat > w THEN 0            \* the last w + 1 values are one and the same float
    ELSE IF Abs(h[n].v - h[n - w].v) <= Tol THEN 2 ELSE B(h[n - w].v < h[n].v)
TInit == l = 1 /\ cfg = [kind |-> "none"] /\ bars = <<>> /\ ind = 0 /\ hist = <<>> /\ out = <<>>
Answer(h) ==
    LET n == Len(h) e == h[n] IN
    CASE cfg.kind = "mr" -> MrAnswer(L3(cfg.thr, e.v), L3(e.v, -cfg.thr))
      [] cfg.kind = "conf" -> ConfAnswer([i \in 1..n |-> L3(h[i].v, cfg.thr)], cfg.k, TInc(h, cfg.w))
      [] cfg.kind = "arr" -> ArrAnswer(L3(cfg.lo, e.v), L3(e.v, cfg.hi), L3(cfg.blo, e.d), L3(e.d, cfg.bhi))
      [] OTHER -> IF n = 1 THEN {NA} ELSE MacdAnswer(S3(h[n - 1].v), S3(e.v))
Bad == {i \in 1..Min2(Len(E.pred), Len(out)) : E.pred[i] \notin out[i]}
OneHot(s) == [i \in 1..Len(cfg.classes) |-> B(cfg.classes[i] = s)]
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ E.e = "start" /\ cfg' = E.cfg /\ bars' = <<>> /\ ind' = 0 /\ hist' = <<>> /\ out' = <<>>
            \/ /\ E.e = "bar" /\ hist' = Append(hist, E) /\ out' = Append(out, Answer(hist')) /\ UNCHANGED <<cfg, bars, ind>>
            \/ /\ E.e = "query" /\ UNCHANGED stvars
               /\ Clause(E.c, "one signal per bar", Len(E.pred) = Len(out), Len(E.pred), Len(out))
               /\ Clause(E.c, "the signal follows the rule", Bad = {},
                         IF Bad = {} THEN 0 ELSE [bar |-> SetMin(Bad), got |-> E.pred[SetMin(Bad)]], IF Bad = {} THEN 0 ELSE out[SetMin(Bad)])
               /\ Clause(E.c, "probabilities are one-hot on the predicted class",
                         IF cfg.kind = "macd" THEN TRUE ELSE E.proba = [i \in 1..Len(E.pred) |-> OneHot(E.pred[i])], E.proba, E.pred)
               /\ Clause(E.c, "the input is not modified", E.pure, "modified", "")
               /\ Say("STAT", [decided_bars |-> Cardinality({i \in 1..Len(out) : Cardinality(out[i]) = 1}),
                               undecided_bars |-> Cardinality({i \in 1..Len(out) : Cardinality(out[i]) > 1}),
                               firing_bars |-> Cardinality({i \in 1..Min2(Len(E.pred), Len(out)) : E.pred[i] \notin {0, NA}})])
TSpec == TInit /\ [][TNext]_<<cfg, bars, ind, hist, out, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
