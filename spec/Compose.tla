------------------------------- MODULE Compose -------------------------------
(* Feature unions and pipelines. A node is [k, f, m]: a leaf (k = "leaf",    *)
(* f its kind), a union or a pipeline of transformers (m its members).       *)
(* Matrices are sequences of rows of integers. Fitting gives every leaf what *)
(* it learns from the rows it is shown; a pipeline additionally ends in an   *)
(* estimator, which is the only one to be given the sample weights.          *)
EXTENDS Util
VARIABLES top,     \* "union": the object is tree; "pipe": steps tree.m and an estimator
          tree,
          fitted,  \* <<>>, or the tree with what its leaves learned
          saw,     \* what the estimator was given by the last fit: <<>> or [X, y, w]
          out      \* result of the last call: the object itself or rows
covars == <<top, tree, fitted, saw, out>>

Col1(X) == [i \in DOMAIN X |-> IF X[i] = <<>> THEN 0 ELSE X[i][1]]
HCat(ms, n) == [i \in 1..n |-> LET F[j \in 0..Len(ms)] == IF j = 0 THEN <<>> ELSE F[j - 1] \o ms[j][i] IN F[Len(ms)]]

Learn(f, X, y) ==
    CASE f = "max" -> SetMax(Range(Col1(X)))
      [] f = "first" -> Col1(X)[1]
      [] f = "sup" -> SumSeq([i \in DOMAIN X |-> y[i] * Col1(X)[i]])
      [] OTHER -> 0
ApplyLeaf(f, st, X) ==
    CASE f \in {"max", "first"} -> [i \in DOMAIN X |-> [j \in DOMAIN X[i] |-> X[i][j] - st]]
      [] f = "sup" -> [i \in DOMAIN X |-> <<Col1(X)[i] + st>>]
      [] f = "sum" -> [i \in DOMAIN X |-> <<SumSeq(X[i])>>]
      [] f = "dup" -> [i \in DOMAIN X |-> X[i] \o [j \in DOMAIN X[i] |-> 2 * X[i][j] + 1]]
      [] f = "lag" -> [i \in DOMAIN X |-> IF i = 1 THEN X[i] ELSE [j \in DOMAIN X[i] |-> X[i][j] - X[i - 1][j]]]
      [] f = "drop" -> [i \in DOMAIN X |-> <<>>]
      [] OTHER -> X          \* "pass"

RECURSIVE Apply(_, _), Fit(_, _, _)
Apply(n, X) ==
    CASE n.k = "leaf" -> TLCEval(ApplyLeaf(n.f, n.st, X))
      [] n.k = "union" -> TLCEval(HCat(TLCEval([j \in DOMAIN n.m |-> Apply(n.m[j], X)]), Len(X)))
      [] n.k = "pipe" -> FoldSeqL(LAMBDA Z, s : Apply(s, Z), X, n.m)
Fit(n, X, y) ==
    CASE n.k = "leaf" -> [k |-> "leaf", f |-> n.f, m |-> <<>>, st |-> Learn(n.f, X, y)]
      [] n.k = "union" -> [k |-> "union", f |-> "", m |-> [j \in DOMAIN n.m |-> Fit(n.m[j], X, y)]]
      [] n.k = "pipe" -> [k |-> "pipe", f |-> "",
            m |-> LET F[j \in 0..Len(n.m)] ==       \* <<fitted steps, rows after them>>
                          IF j = 0 THEN <<<<>>, X>>
                          ELSE LET p == TLCEval(F[j - 1])
                                   g == TLCEval(Fit(n.m[j], p[2], y))
                               IN <<Append(p[1], g), Apply(g, p[2])>>
                  IN F[Len(n.m)][1]]

\* the estimator's answer for rows X after a fit on s: a number per row that shows all it was given
Weights(s) == IF s.w = <<>> THEN [i \in DOMAIN s.y |-> 1] ELSE s.w
Answer(s, X) == [i \in DOMAIN X |-> <<SumSeq(X[i]) + SumSeq([j \in DOMAIN s.y |-> Weights(s)[j] * s.y[j]])>>]

DoFit(X, y, w) ==
    /\ fitted' = Fit(tree, X, y)
    /\ saw' = IF top = "pipe" THEN [X |-> Apply(Fit(tree, X, y), X), y |-> y, w |-> w] ELSE <<>>
    /\ out' = [self |-> TRUE, rows |-> <<>>] /\ UNCHANGED <<top, tree>>
DoFitTransform(X, y) ==
    /\ top = "union" /\ fitted' = Fit(tree, X, y) /\ out' = [self |-> FALSE, rows |-> Apply(Fit(tree, X, y), X)]
    /\ UNCHANGED <<top, tree, saw>>
DoTransform(X) == top = "union" /\ fitted # <<>> /\ out' = [self |-> FALSE, rows |-> Apply(fitted, X)] /\ UNCHANGED <<top, tree, fitted, saw>>
DoPredict(X) == top = "pipe" /\ fitted # <<>> /\ out' = [self |-> FALSE, rows |-> Answer(saw, Apply(fitted, X))] /\ UNCHANGED <<top, tree, fitted, saw>>
------------------------------------------------------------------------------
\* what the answers must look like, independently of how they are computed
RECURSIVE Width(_, _)
Width(n, w) ==
    CASE n.k = "leaf" -> (CASE n.f \in {"sup", "sum"} -> 1 [] n.f = "dup" -> 2 * w [] n.f = "drop" -> 0 [] OTHER -> w)
      [] n.k = "union" -> SumSeq([j \in DOMAIN n.m |-> Width(n.m[j], w)])
      [] n.k = "pipe" -> FoldSeqL(LAMBDA v, s : Width(s, v), w, n.m)
RECURSIVE Flat(_)        \* a pipeline in a pipeline is its steps in place
Flat(n) == IF n.k # "pipe" THEN <<n>>
           ELSE LET F[j \in 0..Len(n.m)] == IF j = 0 THEN <<>> ELSE F[j - 1] \o Flat(n.m[j]) IN F[Len(n.m)]
LawsOn(X, y) ==
    LET g == Fit(tree, X, y)
        Z == Apply(g, X)
        flat == [k |-> "pipe", f |-> "", m |-> Flat(tree)]
    IN /\ Len(Z) = Len(X)
       /\ \A i \in DOMAIN Z : Len(Z[i]) = Width(tree, Len(X[1]))
       /\ Apply(Fit(flat, X, y), X) = Z
       /\ tree.k = "union" =>     \* every member alone, side by side
            \A j \in DOMAIN tree.m : LET a == SumSeq([q \in 1..(j - 1) |-> Width(tree.m[q], Len(X[1]))])
                                         alone == Apply(Fit(tree.m[j], X, y), X)
                                     IN \A i \in DOMAIN X : SubSeq(Z[i], a + 1, a + Width(tree.m[j], Len(X[1]))) = alone[i]
OnlyFitLearns == [][(~out'.self /\ top = "pipe") => UNCHANGED <<fitted, saw>>]_covars
=============================================================================
