-------------------------------- MODULE Cpcv --------------------------------
(* Combinatorial purged cross-validation. Samples arrive in prediction-time  *)
(* order (AddSample); each DoSplit takes one combination of folds as the     *)
(* test set and purges / embargoes the training positions block by block;    *)
(* each TakePath assembles one backtest path out of fold-level predictions   *)
(* that no earlier path used. Positions are 1-based.                         *)
EXTENDS Util
VARIABLES cfg,     \* [G |-> groups, k |-> test folds per split, emb |-> embargo]
          smp,     \* samples: [p |-> prediction time, e |-> evaluation time]
          splits,  \* splits so far: [test |-> set, train |-> set]
          used,    \* fold-level predictions consumed: <<fold, split>>
          paths    \* paths so far: function fold -> split
cvvars == <<cfg, smp, splits, used, paths>>

N == Len(smp)
AddSample(s) == /\ splits = <<>>
                /\ s.e >= s.p /\ (smp # <<>> => s.p >= LastOf(smp).p)
                /\ smp' = Append(smp, s) /\ UNCHANGED <<cfg, splits, used, paths>>

(* contiguous folds whose sizes differ by at most one, larger ones first     *)
FoldStart(f) == LET q == N \div cfg.G
                    r == N % cfg.G IN (f - 1) * q + Min2(f - 1, r) + 1
Fold(f) == FoldStart(f)..(FoldStart(f + 1) - 1)
Folds == 1..cfg.G
Combos == {F \in SUBSET Folds : Cardinality(F) = cfg.k}
FirstCombo == (cfg.G - cfg.k + 1)..cfg.G
TestOf(F) == UNION {Fold(f) : f \in F}
(* blocks of adjacent test positions: their first and last positions         *)
Blocks(T) == LET first == {i \in T : i - 1 \notin T}
                 last == {i \in T : i + 1 \notin T}
             IN {b \in first \X last : b[1] <= b[2] /\ (b[1]..b[2]) \subseteq T}
BlockSeq(T) == LET ends == SortSet({b[2] : b \in Blocks(T)})
               IN [i \in 1..Len(ends) |-> CHOOSE b \in Blocks(T) : b[2] = ends[i]]

(* one block: drop what is evaluated too late before it, and what is         *)
(* predicted too early after it                                              *)
Purge(train, b) == {i \in train : i > b[2] \/ smp[i].e < smp[b[1]].p}
LastEval(T, b) == SetMax({smp[j].e : j \in {x \in T : x <= b[2]}})
Embargo(train, T, b) == {i \in train : i < b[1] \/ smp[i].p > LastEval(T, b) + cfg.emb}
TrainMachine(T) ==
    LET bs == BlockSeq(T)
        F[i \in 0..Len(bs)] == IF i = 0 THEN (1..N) \ T
                               ELSE Embargo(Purge(F[i-1], bs[i]), T, bs[i])
    IN F[Len(bs)]
DoSplit(F) == /\ F \in Combos /\ N >= cfg.G
              /\ splits = <<>> => F = FirstCombo
              /\ \A s \in Range(splits) : s.test # TestOf(F)
              /\ splits' = Append(splits, [test |-> TestOf(F), train |-> TrainMachine(TestOf(F))])
              /\ UNCHANGED <<cfg, smp, used, paths>>

AllSplit == Len(splits) = Cardinality(Combos)
Avail(f) == {s \in 1..Len(splits) : Fold(f) \subseteq splits[s].test} \ {u[2] : u \in {v \in used : v[1] = f}}
TakePath(ch) == /\ AllSplit /\ DOMAIN ch = Folds
                /\ \A f \in Folds : ch[f] \in Avail(f)
                /\ paths' = Append(paths, ch)
                /\ used' = used \cup {<<f, ch[f]>> : f \in Folds}
                /\ UNCHANGED <<cfg, smp, splits>>
---------------------------------------------------------------------------
(* Properties, written on what the caller sees only: test and train sets     *)
Meet(i, j) == smp[i].p <= smp[j].e /\ smp[j].p <= smp[i].e
Leaks(s) == {x \in s.train \X s.test : Meet(x[1], x[2])}
(* a training position after a block, inside that block's embargo period     *)
Embargoed(s) == UNION {LET until == LastEval(s.test, b) + cfg.emb
                       IN {<<i, b>> : i \in {j \in s.train : j > b[2] /\ smp[j].p <= until}} : b \in Blocks(s.test)}
(* the samples in conflict with one block of the test set                    *)
InConflict(T, b) == LET until == LastEval(T, b) + cfg.emb
                    IN {i \in 1..N : \/ i < b[1] /\ smp[i].e >= smp[b[1]].p
                                     \/ i > b[2] /\ smp[i].p <= until}
Overdropped(s) == ((1..N) \ (s.test \cup s.train)) \ UNION {InConflict(s.test, b) : b \in Blocks(s.test)}

NoLeak == \A s \in Range(splits) : s.train \cap s.test = {} /\ Leaks(s) = {} /\ Embargoed(s) = {}
OnlyNeeded == \A s \in Range(splits) : Overdropped(s) = {}
(* folds recovered from the splits: positions with the same memberships      *)
Sig(i) == {s \in 1..Len(splits) : i \in splits[s].test}
Classes == {{j \in 1..N : Sig(j) = Sig(i)} : i \in 1..N}
Contig(S) == \A a \in SetMin(S)..SetMax(S) : a \in S
FoldsAreFair == AllSplit =>
    /\ Cardinality(Classes) = cfg.G
    /\ \A S \in Classes : Contig(S)
    /\ \A S, T \in Classes : Abs(Cardinality(S) - Cardinality(T)) <= 1
    /\ {s.test : s \in Range(splits)} = {UNION F : F \in {x \in SUBSET Classes : Cardinality(x) = cfg.k}}
    /\ Cardinality({s.test : s \in Range(splits)}) = Len(splits)
    /\ splits[1].test = (SetMin(splits[1].test))..N
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE IF k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
PathCount == Binom(cfg.G - 1, cfg.k - 1)
PathsDisjoint == Len(paths) <= PathCount
(* the builder can always go on until every prediction is used               *)
PathsComplete == AllSplit /\ N >= cfg.G => \A f \in Folds : Cardinality(Avail(f)) = PathCount - Len(paths)
=============================================================================
