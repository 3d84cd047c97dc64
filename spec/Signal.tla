------------------------------- MODULE Signal -------------------------------
(* The strategy signal: primary model, optional meta-model, optional bet     *)
(* sizer, as the stages a prediction goes through. Each stage works on a     *)
(* table of rows that are known only by their time; rows with undefined      *)
(* features are filtered out before a model sees them. A model is a table    *)
(* from feature key to prediction and class weights (in units of 1/mdl.den). *)
EXTENDS Util, Rat
CONSTANT NoY       \* the target is undefined
VARIABLES cfg,     \* [meta, sizer, usePred, useProba : BOOLEAN]
          mdl,     \* [pc |-> classes, pp |-> prediction by key, pq |-> weights by key, mp, mq (classes 0, 1), den]
          bars,    \* [p |-> primary key, m |-> meta key (0 undefined), y |-> target]
          stage,
          tab      \* tables produced by the stages
sgvars == <<cfg, mdl, bars, stage, tab>>
Stages == <<"bars", "primary", "meta", "size", "done">>
Empty == [prim |-> <<>>, meta |-> <<>>, sized |-> <<>>, signal |-> <<>>]

AppendBar(b) == stage = "bars" /\ bars' = Append(bars, b) /\ UNCHANGED <<cfg, mdl, stage, tab>>
Times == [i \in 1..Len(bars) |-> i]
(* primary features without undefined rows, then predictions on those rows   *)
PrimaryStage ==
    /\ stage = "bars" /\ stage' = "primary"
    /\ LET F(i) == bars[i].p # 0
           X == SelectSeq(Times, F)
       IN tab' = [tab EXCEPT !.prim = [j \in 1..Len(X) |->
              [t |-> X[j], side |-> mdl.pp[bars[X[j]].p], q |-> mdl.pq[bars[X[j]].p]]]]
    /\ UNCHANGED <<cfg, mdl, bars>>
Joined == cfg.usePred \/ cfg.useProba
(* meta features without undefined rows, inner-joined with what the primary  *)
(* model said at the same time; where = what is asked of this stage          *)
MetaTable(prim) ==
    LET F(i) == /\ bars[i].m # 0
                /\ Joined => \E j \in 1..Len(prim) : prim[j].t = i
        X == SelectSeq(Times, F)
        P(t) == prim[CHOOSE j \in 1..Len(prim) : prim[j].t = t]
    IN [j \in 1..Len(X) |-> [t |-> X[j], m |-> bars[X[j]].m,
                             pred |-> IF cfg.usePred THEN <<P(X[j]).side>> ELSE <<>>,
                             q |-> IF cfg.useProba THEN P(X[j]).q ELSE <<>>]]
MetaStage == /\ stage = "primary" /\ stage' = "meta"
             /\ tab' = [tab EXCEPT !.meta = IF cfg.meta THEN MetaTable(tab.prim) ELSE <<>>]
             /\ UNCHANGED <<cfg, mdl, bars>>
ArgMax(q) == CHOOSE k \in 1..Len(q) : \A h \in 1..Len(q) : q[k] >= q[h]
SideAt(prim, t) == IF \E j \in 1..Len(prim) : prim[j].t = t
                   THEN <<prim[CHOOSE j \in 1..Len(prim) : prim[j].t = t].side>> ELSE <<>>
(* what the sizer is shown: [t, pred, prob, side]                            *)
SizerTable == IF cfg.meta
    THEN LET F(j) == SideAt(tab.prim, tab.meta[j].t) # <<>>
             K == SelectSeq([j \in 1..Len(tab.meta) |-> j], F)
         IN [k \in 1..Len(K) |-> LET r == tab.meta[K[k]]
                                     q == mdl.mq[r.m] IN
            [t |-> r.t, pred |-> ArgMax(q) - 1, prob |-> q[ArgMax(q)], side |-> SideAt(tab.prim, r.t)]]
    ELSE [j \in 1..Len(tab.prim) |-> LET r == tab.prim[j] IN
            [t |-> r.t, pred |-> mdl.pc[ArgMax(r.q)], prob |-> r.q[ArgMax(r.q)], side |-> <<>>]]
(* the stand-in sizer: an injective code of what it was shown                *)
Sizer(r) == R(r.prob * 100 + (r.pred + 2) * 10 + (IF r.side = <<>> THEN 0 ELSE r.side[1] + 2), 10000)
SizeTable == IF cfg.sizer THEN [j \in 1..Len(tab.sized) |-> [t |-> tab.sized[j].t, z |-> Sizer(tab.sized[j])]]
             ELSE IF cfg.meta THEN [j \in 1..Len(tab.meta) |-> [t |-> tab.meta[j].t, z |-> R(mdl.mq[tab.meta[j].m][2], mdl.den)]]
             ELSE [j \in 1..Len(tab.prim) |-> [t |-> tab.prim[j].t, z |-> R(tab.prim[j].q[ArgMax(tab.prim[j].q)], mdl.den)]]
SizeStage == /\ stage = "meta" /\ stage' = "size"
             /\ tab' = [tab EXCEPT !.sized = SizerTable]
             /\ UNCHANGED <<cfg, mdl, bars>>
(* side and size are put together by time; incomplete rows are dropped       *)
JoinStage ==
    /\ stage = "size" /\ stage' = "done"
    /\ LET Z == SizeTable
           F(j) == SideAt(tab.prim, Z[j].t) # <<>>
           K == SelectSeq([j \in 1..Len(Z) |-> j], F)
       IN tab' = [tab EXCEPT !.signal = [k \in 1..Len(K) |->
              [t |-> Z[K[k]].t, side |-> SideAt(tab.prim, Z[K[k]].t)[1], size |-> Z[K[k]].z]]]
    /\ UNCHANGED <<cfg, mdl, bars>>
(* training sets *)
Keep(F(_)) == SelectSeq(Times, F)
DsPrimary == LET F(i) == bars[i].p # 0 /\ bars[i].y # NoY
                 X == Keep(F) IN [j \in 1..Len(X) |-> [t |-> X[j], p |-> bars[X[j]].p, y |-> bars[X[j]].y]]
DsMeta == LET F(i) == bars[i].p # 0 /\ bars[i].y # NoY /\ bars[i].m # 0
              X == Keep(F)
              prim == [j \in 1..Len(X) |-> [t |-> X[j], side |-> mdl.pp[bars[X[j]].p], q |-> mdl.pq[bars[X[j]].p]]]
          IN [j \in 1..Len(X) |-> [t |-> X[j], m |-> bars[X[j]].m,
                                   pred |-> IF cfg.usePred THEN <<prim[j].side>> ELSE <<>>,
                                   q |-> IF cfg.useProba THEN prim[j].q ELSE <<>>,
                                   y |-> IF prim[j].side = bars[X[j]].y THEN 1 ELSE 0]]
---------------------------------------------------------------------------
(* Properties: every answer at a time is a function of that time's bar only  *)
BarSignal(b) ==
    IF b.p = 0 \/ (cfg.meta /\ b.m = 0) THEN <<>>
    ELSE LET pq == mdl.pq[b.p]
             mq == mdl.mq[IF cfg.meta THEN b.m ELSE 1]
             win(q) == ArgMax(q)
             code(pred, prob, side) == R(prob * 100 + (pred + 2) * 10 + side, 10000)
         IN <<mdl.pp[b.p],
              IF cfg.sizer /\ cfg.meta THEN code(win(mq) - 1, mq[win(mq)], mdl.pp[b.p] + 2)
              ELSE IF cfg.sizer THEN code(mdl.pc[win(pq)], pq[win(pq)], 0)
              ELSE IF cfg.meta THEN R(mq[2], mdl.den)
              ELSE R(SetMax(Range(pq)), mdl.den)>>
SignalIsLocal == stage = "done" =>
    LET F(i) == BarSignal(bars[i]) # <<>>
        K == SelectSeq(Times, F)
    IN tab.signal = [k \in 1..Len(K) |-> [t |-> K[k], side |-> BarSignal(bars[K[k]])[1], size |-> BarSignal(bars[K[k]])[2]]]
TimesIncrease(s) == \A j \in 1..(Len(s) - 1) : s[j].t < s[j + 1].t
InOrder == TimesIncrease(tab.prim) /\ TimesIncrease(tab.meta) /\ TimesIncrease(tab.sized) /\ TimesIncrease(tab.signal)
MetaSeesOwnRow == \A j \in 1..Len(tab.meta) : LET r == tab.meta[j] IN
    /\ r.m = bars[r.t].m
    /\ cfg.usePred => r.pred = <<mdl.pp[bars[r.t].p]>>
    /\ cfg.useProba => r.q = mdl.pq[bars[r.t].p]
MetaLabelsAreHits == \A j \in 1..Len(DsMeta) : DsMeta[j].y = 1 <=> mdl.pp[bars[DsMeta[j].t].p] = bars[DsMeta[j].t].y
=============================================================================
