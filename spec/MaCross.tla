------------------------------- MODULE MaCross ------------------------------
(* Moving-average crossover. Two sliding sums; the relation of the fast to   *)
(* the slow average on this bar and on the one before decides a crossing,    *)
(* and the last crossing is held. A value may be undefined (RNaN): averages  *)
(* over a window containing it are undefined.                                *)
EXTENDS Util, Rat
VARIABLES cfg,   \* [fast, slow]
          xs,    \* values (integers) or Hole
          rel,   \* relation on the last bar: -1, 0, 1, or 9 undefined
          held,  \* last crossing, 0 before the first
          out    \* [cross, fill] per bar
CONSTANT Hole
mcvars == <<cfg, xs, rel, held, out>>
SumLast(s, w) == SumSeq([i \in 1..w |-> s[Len(s) - w + i]])
Full(s, w) == IF Len(s) < w THEN FALSE ELSE \A i \in 1..w : s[Len(s) - w + i] # Hole
Relation(s) == IF Full(s, cfg.fast) /\ Full(s, cfg.slow)
               THEN Sgn(SumLast(s, cfg.fast) * cfg.slow - SumLast(s, cfg.slow) * cfg.fast) ELSE 9
AppendBar(x) ==
    /\ xs' = Append(xs, x)
    /\ rel' = Relation(xs')
    /\ LET c == IF rel = 9 \/ rel' = 9 THEN 0
                ELSE IF rel <= 0 /\ rel' = 1 THEN 1
                ELSE IF rel >= 0 /\ rel' = -1 THEN -1 ELSE 0
       IN /\ held' = IF c # 0 THEN c ELSE held
          /\ out' = Append(out, [cross |-> c, fill |-> held'])
    /\ UNCHANGED cfg
---------------------------------------------------------------------------
Avg(i, w) == IF i < w THEN RNaN
             ELSE IF \E j \in (i - w + 1)..i : xs[j] = Hole THEN RNaN
             ELSE R(SumSeq([k \in 1..w |-> xs[i - w + k]]), w)
Both(i) == IF i < 1 THEN FALSE ELSE RIsNum(Avg(i, cfg.fast)) /\ RIsNum(Avg(i, cfg.slow))
Above(i) == RLt(Avg(i, cfg.slow), Avg(i, cfg.fast))
Below(i) == RLt(Avg(i, cfg.fast), Avg(i, cfg.slow))
CrossDecl(i) == IF ~(Both(i) /\ Both(i - 1)) THEN 0
                ELSE IF Above(i) /\ ~Above(i - 1) THEN 1 ELSE IF Below(i) /\ ~Below(i - 1) THEN -1 ELSE 0
CrossDeclarative == \A i \in 1..Len(xs) : out[i].cross = CrossDecl(i)
FillHolds == \A i \in 1..Len(out) : LET C == {j \in 1..i : out[j].cross # 0} IN
                out[i].fill = IF C = {} THEN 0 ELSE out[SetMax(C)].cross
Alternates == \A i \in 1..Len(out) : out[i].cross # 0 =>
                LET C == {j \in 1..(i-1) : out[j].cross # 0} IN
                IF C = {} THEN TRUE ELSE out[SetMax(C)].cross # out[i].cross \/ \E j \in SetMax(C)..i : ~Both(j) \/ (~Above(j) /\ ~Below(j))
NeverRevised == [][IsPrefixOf(xs, xs') => IsPrefixOf(out, out')]_mcvars
=============================================================================
