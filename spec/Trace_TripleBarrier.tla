------------------------ MODULE Trace_TripleBarrier -------------------------
EXTENDS TripleBarrier, TraceKit
VARIABLE l
tvars == <<p, bars, ev, l>>
E == Trace[l]
TInit == l = 1 /\ p = [n |-> 1, ptn |-> 0, ptd |-> 1, sln |-> 0, sld |-> 1, u |-> 1, s |-> 1, exact |-> TRUE]
         /\ bars = <<>> /\ ev = <<>>
Sure(i) == ev[i].st # "amb"
BadAt(S) == IF S = {} THEN 0 ELSE SetMin(S)
Row(seq, i) == IF i = 0 \/ i > Len(seq) THEN <<>> ELSE seq[i]
Judge ==
    LET n == Len(bars)
        okShape == Len(E.end) = n /\ Len(E.ret) = n /\ Len(E.lab) = n
        N == IF okShape THEN 1..n ELSE {}
        be == {i \in N : Sure(i) /\ E.end[i] # EndOf(i)}
        br == {i \in N : Sure(i) /\ E.ret[i] # RetOf(i, E.meta)}
        bl == {i \in N : Sure(i) /\ E.lab[i] # LabelOf(i, E.meta, E.explab)}
        e == BadAt(be)
        r == BadAt(br)
        x == BadAt(bl)
    IN /\ Clause(E.c, "one row per bar", okShape, Len(E.end), n)
       /\ Clause(E.c, "rows in input order, input unmodified", E.pure, "", "")
       /\ (E.do.end => Clause(E.c, "event end time", be = {}, [bar |-> e, got |-> Row(E.end, e)], Row(ev, e)))
       /\ (E.do.lab => Clause(E.c, "return", br = {}, [bar |-> r, got |-> Row(E.ret, r)], IF r = 0 THEN <<>> ELSE RetOf(r, E.meta)))
       /\ (E.do.lab => Clause(E.c, "label", bl = {}, [bar |-> x, got |-> Row(E.lab, x)], IF x = 0 THEN <<>> ELSE LabelOf(x, E.meta, E.explab)))
       /\ (E.last => Say("STAT", [pt |-> Cardinality({i \in 1..n : ev[i].st = "pt"}),
                                  sl |-> Cardinality({i \in 1..n : ev[i].st = "sl"}),
                                  expired |-> Cardinality({i \in 1..n : ev[i].st = "exp"}),
                                  unresolved |-> Cardinality({i \in 1..n : ev[i].st = "open"}),
                                  novol |-> Cardinality({i \in 1..n : ev[i].st = "novol"}),
                                  ambiguous |-> Cardinality({i \in 1..n : ev[i].st = "amb"})]))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ Start(E.p)
            \/ E.e = "bar" /\ AppendBar(E.b)
            \/ E.e = "query" /\ UNCHANGED tbvars /\ Judge
TSpec == TInit /\ [][TNext]_tvars
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
TStable == [][Len(bars') > Len(bars) => \A i \in 1..Len(ev) : ev[i].st # "open" => ev'[i] = ev[i]]_tvars
=============================================================================
