---------------------------- MODULE Trace_Signal ----------------------------
EXTENDS Signal, TraceKit
VARIABLE l
E == Trace[l]
TInit == /\ l = 1 /\ cfg = [meta |-> FALSE, sizer |-> FALSE, usePred |-> FALSE, useProba |-> FALSE]
         /\ mdl = [pc |-> <<>>] /\ bars = <<>> /\ stage = "bars" /\ tab = Empty
Same(name, got, want) == Clause(E.c, name, got = want, got, want)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ E.e = "start" /\ cfg' = E.cfg /\ mdl' = E.mdl /\ bars' = <<>> /\ stage' = "bars" /\ tab' = Empty
            \/ E.e = "bar" /\ AppendBar(E.b)
            \/ E.e = "primary" /\ PrimaryStage
               /\ Same("primary predictions and probabilities", E.prim, tab'.prim)
            \/ E.e = "meta" /\ MetaStage
               /\ Same("rows the meta-model is shown", E.meta, tab'.meta)
               /\ Same("meta-model predictions and probabilities", E.mout,
                       [j \in 1..Len(tab'.meta) |-> [t |-> tab'.meta[j].t, p |-> mdl.mp[tab'.meta[j].m], q |-> mdl.mq[tab'.meta[j].m]]])
            \/ E.e = "sizer" /\ SizeStage
               /\ (cfg.sizer => Same("rows the bet sizer is shown", E.sized, tab'.sized))
            \/ E.e = "signal" /\ JoinStage /\ Same("side and size", E.signal, tab'.signal)
               /\ Say("STAT", [signal_rows |-> Len(E.signal)])
            \/ /\ E.e = "datasets" /\ UNCHANGED sgvars
               /\ Same("primary training set", E.dsp, DsPrimary)
               /\ (~E.skipmeta => Same("meta training set", E.dsm, DsMeta))
               /\ Clause(E.c, "the caller's frames are not modified", E.pure, "modified", "")
TSpec == TInit /\ [][TNext]_<<cfg, mdl, bars, stage, tab, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
