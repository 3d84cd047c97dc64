------------------------------ MODULE Trace_Cpcv ----------------------------
EXTENDS Cpcv, TraceKit
VARIABLE l
E == Trace[l]
S(seq) == {seq[i] : i \in 1..Len(seq)}
TInit == l = 1 /\ cfg = [G |-> 2, k |-> 1, emb |-> 0] /\ smp = <<>> /\ splits = <<>> /\ used = {} /\ paths = <<>>
One(X) == IF X = {} THEN 0 ELSE CHOOSE x \in X : TRUE
Positions(s) == s.test \subseteq 1..N /\ s.train \subseteq 1..N
JudgeSplit(s) ==
    /\ Clause(E.c, "positions are valid and reported once", Positions(s) /\ Len(E.test) = Cardinality(s.test)
              /\ Len(E.train) = Cardinality(s.train) /\ s.test # {}, [test |-> E.test, train |-> E.train], N)
    /\ (Positions(s) /\ s.test # {}) =>
       /\ (E.prop = "C10" =>
            /\ Clause(E.c, "train and test are disjoint", s.train \cap s.test = {}, s.train \cap s.test, {})
            /\ Clause(E.c, "no training interval meets a test interval", Leaks(s) = {}, One(Leaks(s)), 0)
            /\ Clause(E.c, "embargo after a test block", Embargoed(s) = {}, One(Embargoed(s)), 0))
       /\ (E.prop = "C11" =>
            Clause(E.c, "only conflicting samples are dropped", Overdropped(s) = {}, One(Overdropped(s)), 0))
JudgeAll ==
    /\ Clause(E.c, "number of splits", AllSplit, Len(splits), Cardinality(Combos))
    /\ AllSplit => Clause(E.c, "splits are all combinations of contiguous even folds, last folds first", FoldsAreFair,
                           [s \in 1..Len(splits) |-> splits[s].test], [G |-> cfg.G, k |-> cfg.k, n |-> N])
    /\ Say("STAT", [splits |-> Len(splits),
                    dropped |-> SumSeq([s \in 1..Len(splits) |-> N - Cardinality(splits[s].test) - Cardinality(splits[s].train)])])
(* ---- path building. E.fits: training positions of each fitted model, in order. *)
(* a path row: [i |-> sample, m |-> model that predicted it, x |-> row content is that sample's] *)
JudgeFits ==
    /\ Clause(E.c, "one model per split", Len(E.fits) = Len(splits), Len(E.fits), Len(splits))
    /\ Len(E.fits) = Len(splits) =>
       Clause(E.c, "each model is fitted on its split's training samples",
              \A s \in 1..Len(splits) : S(E.fits[s]) = splits[s].train /\ Len(E.fits[s]) = Cardinality(splits[s].train),
              E.fits, [s \in 1..Len(splits) |-> splits[s].train])
RowsOk == \A r \in S(E.rows) : r.i \in 1..N /\ r.m \in 1..Len(splits)
JudgePath ==
    /\ Clause(E.c, "a path has every sample exactly once",
              Len(E.rows) = N /\ {r.i : r \in S(E.rows)} = 1..N, [i \in 1..Len(E.rows) |-> E.rows[i].i], N)
    /\ Clause(E.c, "path rows belong to real models", RowsOk, E.rows, Len(splits))
    /\ RowsOk =>
       /\ Clause(E.c, "a prediction comes from a model that had the sample in its test set",
                 \A r \in S(E.rows) : r.i \in splits[r.m].test, E.rows, "")
       /\ Clause(E.c, "the row carries its own prediction, probability and target", \A r \in S(E.rows) : r.x, E.rows, "")
       /\ Clause(E.c, "a fold-level prediction is used in one path only",
                 \A r \in S(E.rows) : <<r.i, r.m>> \notin used, E.rows, "")
JudgePaths == Clause(E.c, "number of backtest paths", Len(paths) = PathCount /\ E.n = PathCount, [got |-> Len(paths), fn |-> E.n], PathCount)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ /\ E.e = "start" /\ cfg' = E.cfg /\ smp' = <<>> /\ splits' = <<>> /\ used' = {} /\ paths' = <<>>
            \/ E.e = "smp" /\ AddSample([p |-> E.p, e |-> E.ev])
            \/ /\ E.e = "split"
               /\ splits' = Append(splits, [test |-> S(E.test), train |-> S(E.train)])
               /\ JudgeSplit(splits'[Len(splits')]) /\ UNCHANGED <<cfg, smp, used, paths>>
            \/ E.e = "splits" /\ JudgeAll /\ UNCHANGED cvvars
            \/ E.e = "fits" /\ JudgeFits /\ UNCHANGED cvvars
            \/ /\ E.e = "path" /\ JudgePath
               /\ paths' = Append(paths, 0) /\ used' = used \cup {<<r.i, r.m>> : r \in S(E.rows)}
               /\ UNCHANGED <<cfg, smp, splits>>
            \/ E.e = "paths" /\ JudgePaths /\ UNCHANGED cvvars
TSpec == TInit /\ [][TNext]_<<cfg, smp, splits, used, paths, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
