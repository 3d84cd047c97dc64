------------------------------ MODULE MC_Signal -----------------------------
EXTENDS Signal, Json
CONSTANTS MaxLen, PKeys, MKeys, Ys
(* predictions on purpose different from the most probable class *)
Model == [pc |-> <<-1, 0, 1>>, pp |-> <<-1, 1>>, pq |-> <<<<5, 1, 2>>, <<1, 4, 3>>>>,
          mp |-> <<1, 1>>, mq |-> <<<<3, 5>>, <<7, 1>>>>, den |-> 8]
Init == cfg \in [meta : BOOLEAN, sizer : BOOLEAN, usePred : BOOLEAN, useProba : BOOLEAN]
        /\ mdl = Model /\ bars = <<>> /\ stage = "bars" /\ tab = Empty
Next == \/ Len(bars) < MaxLen /\ \E p \in PKeys, m \in MKeys, y \in Ys : AppendBar([p |-> p, m |-> m, y |-> y])
        \/ Len(bars) = MaxLen /\ PrimaryStage
        \/ MetaStage \/ SizeStage \/ JoinStage
Spec == Init /\ [][Next]_sgvars
Emit == stage = "done" => PrintT("CASE " \o ToJson([cfg |-> cfg, mdl |-> mdl, bars |-> bars, prim |-> tab.prim,
              meta |-> tab.meta, sized |-> IF cfg.sizer THEN tab.sized ELSE <<>>, signal |-> tab.signal,
              dsp |-> DsPrimary, dsm |-> DsMeta]))
YQ == {-1, 1, 9}
YT == {1, 9}
=============================================================================
