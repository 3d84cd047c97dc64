------------------------------- MODULE Refuse -------------------------------
(* Requests outside an operation's domain. A behaviour makes one object and  *)
(* then puts requests to it. Every request is answered, refused or (where    *)
(* the documentation is silent) free. have is what an object carries from    *)
(* one request to the next: the members of a grown ensemble. A refusal       *)
(* changes nothing: answers depend on the object, the request and have only. *)
EXTENDS Util
VARIABLES op, ctor,   \* kind of object and how it was made
          st,         \* "none", "made", "refused"
          have,       \* members grown so far
          log         \* requests: [q |-> request, out |-> verdict]
revars == <<op, ctor, st, have, log>>
---------------------------------------------------------------------------
(* Sizes: an integer, a share n/d of what there is, or a text                *)
I(n) == [k |-> "int", n |-> n, d |-> 1]
Fr(n, d) == [k |-> "share", n |-> n, d |-> d]
Text == [k |-> "text", n |-> 1, d |-> 1]
NRow == 8
NCol == 3
RowsAsked(s) == IF s.k = "int" THEN s.n ELSE (s.n * NRow) \div s.d
RowsOk(s) == s.k # "text" /\ (s.n >= 0 => RowsAsked(s) \in 1..NRow) /\ s.n >= 0
ColsOk(s) == \/ s.k = "int" /\ s.n \in 1..NCol
             \/ s.k = "share" /\ s.n > 0 /\ s.n <= s.d
---------------------------------------------------------------------------
Ops == {"bag", "events", "cv", "barriers", "trend", "strategy", "bets", "sadf", "make", "columns", "trader", "csw"}
(* Required columns of the transformers that read named columns              *)
Needs == [Roll |-> 1, RollImpact |-> 2, Parkinson |-> 2, Corwin |-> 2, Beckers |-> 2, Kyle |-> 2, Amihud |-> 2,
          Hasbrouck |-> 2, Vpin |-> 3, Weights |-> 2, Uniqueness |-> 1, Decay |-> 1, Barriers |-> 1, Bets |-> 2]
Ctors(o) ==
    CASE o = "bag" -> [ms : {Fr(1, 1), I(0), I(1), I(NRow), I(NRow + 1), I(0 - 1), Fr(0, 1), Fr(1, 20), Fr(1, 2), Fr(5, 4), Text},
                       mf : {Fr(1, 1), I(0), I(1), I(NCol), I(NCol + 1), I(0 - 1), Fr(0, 1), Fr(1, 20), Fr(1, 2), Fr(5, 4), Text},
                       oob : BOOLEAN, warm : BOOLEAN, takes : BOOLEAN]
      [] o = "events" -> [kind : {"uniqueness", "returns", "decay", "matrix"}, min : {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<0 - 1, 2>>, <<9, 8>>, <<4097, 4096>>, <<2, 1>>}]
      [] o = "cv" -> [pred : {"series", "array", "none"}, eval : {"series", "array", "none"}, g : {2, 3, 5}, k : {I(1), I(2), I(4), I(5), I(6), I(0), I(0 - 1), Fr(1, 1), Fr(3, 2), Text},
                      emb : {"zero", "positive", "negative", "tiny negative", "number"}]
      [] o = "barriers" -> [meta : BOOLEAN, name : {"side", "empty"}, pt : {1, 0, 0 - 1}, sl : {1, 0, 0 - 1}]
      [] o = "trend" -> [min : {2, 4, 5, 6}, ev : {"all", "some"}]
      [] o = "strategy" -> [meta : {"none", "fitted", "unfitted"}, proba : {"fine", "undefined"}]
      [] o = "bets" -> [disc : BOOLEAN, step : {<<1, 4>>, <<0, 1>>, <<1, 1>>, <<3, 2>>, <<0 - 1, 4>>, <<0, 0>>}, meta : BOOLEAN, avg : BOOLEAN]
      [] o = "sadf" -> [model : {"no_trend", "linear", "quadratic", "sm_poly_1", "sm_poly_2", "sm_exp", "sm_power", "nonsense"},
                        phi : {<<1, 2>>, <<0, 1>>, <<1, 1>>, <<9, 8>>, <<0 - 1, 8>>}, min : {4, 5, 6, 9}, lags : {"count", "list"}]
      [] o = "make" -> [what : {"cross", "crossing predictor", "difference", "macd"}, fast : {2, 3, 4}, slow : {3}]
                       \cup [what : {"imbalance", "z-score"}, fast : {2}, slow : {1, 2, 3}]     \* slow: the first or second known name, an unknown one
      [] o = "columns" -> [cls : DOMAIN Needs]
      [] o = "trader" -> [close : {"all", "long", "short", "nothing", "flat", "both"}, vol : BOOLEAN]
      [] o = "csw" -> [side : {"one_sided_positive", "one_sided_negative", "two_sided", "both"}]
Calls(o) ==
    CASE o = "bag" -> [x : {"frame", "array"}, y : {"series", "array"}, xi : {"time", "range"}, yi : {"time", "range"},
                       known : BOOLEAN, w : BOOLEAN, want : {3, 2, 4}]
      [] o = "events" -> [end : {"there", "undefined"}, again : BOOLEAN, close : BOOLEAN]
      [] o = "cv" -> [go : {TRUE}]
      [] o = "barriers" -> [data : {"frame", "series"}, close : BOOLEAN, side : BOOLEAN]
      [] o = "trend" -> [y : {"series", "frame"}, covers : BOOLEAN]
      [] o = "strategy" -> [m : {"predict", "proba", "side", "primary", "meta"}, keys : {"same", "less", "more"},
                            y : {"fine", "two", "half"}, reach : {"meets", "touches", "before"}]
      [] o = "bets" -> [prob : {"fine", "missing", "undefined", "above", "below"}, pred : {"fine", "missing", "big"}, side : {"fine", "half", "two", "missing"}, end : BOOLEAN]
      [] o = "sadf" -> [data : {"fine", "undefined", "negative"}]
      [] o = "make" -> [go : {TRUE}]
      [] o = "columns" -> [miss : 0..3]
      [] o = "trader" -> [m : {"signal", "bars", "position", "close"}, twice : {"none", "lead", "other"}, close : BOOLEAN]
      [] o = "csw" -> [data : {"series", "frame"}]
---------------------------------------------------------------------------
CtorVerdict(o, c) ==
    LET no(b) == IF b THEN "refuse" ELSE "answer" IN
    CASE o = "cv" -> no(c.pred # "series" \/ c.eval # "series" \/ c.k.k # "int" \/ c.k.n < 1 \/ c.k.n > c.g - 1
                        \/ c.emb \in {"negative", "tiny negative", "number"})
      [] o = "barriers" -> no(c.meta /\ c.name = "empty")
      [] o = "trend" -> no(c.min >= 5)                                   \* the window is five bars
      [] o = "bets" -> no(c.disc /\ ~(c.step[2] # 0 /\ c.step[1] > 0 /\ c.step[1] < c.step[2]))
      [] o = "sadf" -> no(c.phi[1] < 0 \/ c.phi[1] > c.phi[2] \/ c.min <= 5)   \* the highest lag is five
      [] o = "csw" -> no(c.side = "both")
      [] o = "make" -> IF c.what \in {"imbalance", "z-score"} THEN no(c.slow = 3)
                       ELSE IF c.fast = c.slow THEN "free" ELSE no(c.fast > c.slow)
      [] OTHER -> "answer"
CallVerdict(o, c, q, h) ==
    LET no(b) == IF b THEN "refuse" ELSE "answer" IN
    CASE o = "bag" -> IF q.x = "array" \/ q.y = "array" \/ q.xi = "range" \/ q.yi = "range" \/ ~q.known
                         \/ ~RowsOk(c.ms) \/ ~ColsOk(c.mf) \/ (c.warm /\ c.oob)
                         \/ (c.warm /\ q.want < h) THEN "refuse"
                      ELSE IF ~q.w \/ c.takes THEN "answer"
                      ELSE IF c.warm /\ q.want = h THEN "free"       \* no member left to refuse the weights
                      ELSE "refuse"
      [] o = "events" -> IF q.end = "undefined" \/ (c.kind = "returns" /\ ~q.close)
                            \/ (c.kind = "decay" /\ c.min[1] > c.min[2]) \/ (q.again /\ c.kind \in {"uniqueness", "decay"})
                         THEN "refuse" ELSE IF q.again THEN "free" ELSE "answer"
      [] o = "barriers" -> IF q.data = "series" \/ ~q.close \/ (c.meta /\ ~q.side) \/ (c.pt < 0 /\ c.sl < 0) THEN "refuse"
                           ELSE IF c.pt < 0 \/ c.sl < 0 THEN "free" ELSE "answer"
      [] o = "trend" -> no(q.y = "frame" \/ (c.ev = "some" /\ ~q.covers))
      [] o = "strategy" -> IF q.keys # "same" \/ (q.y # "fine" /\ q.m \in {"primary", "meta"})
                              \/ (c.meta = "unfitted" /\ q.m \in {"predict", "proba", "side"})
                              \/ (q.reach = "before" /\ q.m \in {"predict", "side"})
                              \/ (c.proba = "undefined" /\ q.reach # "before" /\ (q.m = "meta" \/ (c.meta = "fitted" /\ q.m \in {"predict", "proba", "side"})))
                           THEN "refuse"
                           ELSE IF q.reach = "before" \/ c.proba = "undefined" THEN "free" ELSE "answer"
      [] o = "bets" -> IF q.prob # "fine" \/ q.pred = "missing" \/ (c.meta /\ q.side # "fine") \/ (c.avg /\ ~q.end)
                          \/ (q.pred = "big" /\ ~c.disc) THEN "refuse"
                       ELSE IF q.pred = "big" THEN "free" ELSE "answer"
      [] o = "sadf" -> IF c.model = "nonsense" \/ (q.data = "undefined" /\ c.model \in {"sm_poly_1", "sm_poly_2", "sm_exp", "sm_power"})
                          \/ (q.data = "negative" /\ c.model \in {"sm_poly_2", "sm_exp", "sm_power"}) THEN "refuse"
                       ELSE IF q.data = "undefined" THEN "free" ELSE "answer"
      [] o = "trader" -> IF q.m = "close" THEN no(c.close \in {"flat", "both"})
                         ELSE no(q.twice # "none" \/ (q.m # "signal" /\ ~q.close /\ c.vol))
      [] o = "csw" -> IF q.data = "frame" THEN "free" ELSE "answer"
      [] o = "columns" -> no(q.miss \in 1..Needs[c.cls])
      [] OTHER -> "answer"
---------------------------------------------------------------------------
Make(o, c, out) == /\ op' = o /\ ctor' = c /\ have' = 0 /\ log' = <<>>
                   /\ st' = IF out = "answer" THEN "made" ELSE "refused"
Ask(q, out) == /\ st = "made" /\ log' = Append(log, [q |-> q, out |-> out])
               /\ have' = IF op = "bag" /\ out = "answer" THEN q.want ELSE have
               /\ UNCHANGED <<op, ctor, st>>
---------------------------------------------------------------------------
RefusalsLeaveNoTrace == [][(st = "made" /\ Len(log') > Len(log) /\ log'[Len(log')].out = "refuse") => have' = have]_revars
\* an ensemble that may only grow has never fewer members than an answered request asked for
Grown == (st = "made" /\ op = "bag" /\ ctor.warm) =>
            \A i \in DOMAIN log : log[i].out = "answer" => have >= log[i].q.want
=============================================================================
