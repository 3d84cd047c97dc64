----------------------------- MODULE MC_Compose -----------------------------
EXTENDS Compose, Json
CONSTANTS MaxOps, Depth
Leaf(f) == [k |-> "leaf", f |-> f, m |-> <<>>]
U(m) == [k |-> "union", f |-> "", m |-> m]
P(m) == [k |-> "pipe", f |-> "", m |-> m]
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
L1 == {Leaf(f) : f \in {"max", "sup", "dup", "lag"}}
L2 == {Leaf(f) : f \in {"first", "sum", "pass"}}
Small == L1 \cup L2
Unions == {U(m) : m \in Seqs(Small, 1, 2)} \cup {U(<<Leaf("max"), Leaf("drop"), Leaf("sup")>>), U(<<Leaf("drop")>>)}
Pipes == {P(m) : m \in Seqs(L1, 2, 2)}
Deep == {U(<<a, b>>) : a \in Pipes, b \in {Leaf("max"), Leaf("sup")}}
Trees1 == Unions \cup (IF Depth > 1 THEN Deep ELSE {})
Trees2 == {P(<<>>)} \cup {P(m) : m \in Seqs(L1, 1, 2)} \cup
          (IF Depth > 1 THEN {P(<<a, b>>) : a \in {u \in Unions : Len(u.m) = 2 /\ \A j \in 1..2 : u.m[j] \in L1}, b \in L1 \cup {P(<<Leaf("lag"), Leaf("max")>>)}} ELSE {})
Data == << [X |-> <<<<1, 4>>, <<3, 0>>, <<2, 2>>>>, y |-> <<1, 0, 2>>, w |-> <<3, 1, 2>>],
           [X |-> <<<<5, 1>>, <<0, 7>>>>, y |-> <<2, 1>>, w |-> <<0, 0>>] >>
VARIABLE hist
vars == <<covars, hist>>
Init == /\ \/ top = "union" /\ tree \in Trees1
           \/ top = "pipe" /\ tree \in Trees2
        /\ fitted = <<>> /\ saw = <<>> /\ out = [self |-> FALSE, rows |-> <<>>] /\ hist = <<>>
Note(op, d, w) == hist' = Append(hist, [op |-> op, d |-> d, w |-> w, res |-> out', saw |-> saw'])
Next == /\ Len(hist) < MaxOps
        /\ \E d \in DOMAIN Data :
             \/ DoFit(Data[d].X, Data[d].y, <<>>) /\ Note("fit", d, FALSE)
             \/ top = "pipe" /\ DoFit(Data[d].X, Data[d].y, Data[d].w) /\ Note("fit", d, TRUE)
             \/ DoFitTransform(Data[d].X, Data[d].y) /\ Note("fit_transform", d, FALSE)
             \/ DoTransform(Data[d].X) /\ Note("transform", d, FALSE)
             \/ DoPredict(Data[d].X) /\ Note("predict", d, FALSE)
Spec == Init /\ [][Next]_vars
Laws == hist = <<>> => \A d \in DOMAIN Data : LawsOn(Data[d].X, Data[d].y)
\* whatever happened before, what was learned is what the last fit shows
Fits == {i \in DOMAIN hist : hist[i].op \in {"fit", "fit_transform"}}
Forgets == fitted # <<>> => fitted = Fit(tree, Data[hist[SetMax(Fits)].d].X, Data[hist[SetMax(Fits)].d].y)
WeightOK == (top = "pipe" /\ fitted # <<>>) => saw.w = (IF hist[SetMax(Fits)].w THEN Data[hist[SetMax(Fits)].d].w ELSE <<>>)
Emit == (Len(hist) = MaxOps /\ hist[MaxOps].op # "fit") => PrintT("CASE " \o ToJson([top |-> top, tree |-> tree, data |-> Data, steps |-> hist]))
=============================================================================
