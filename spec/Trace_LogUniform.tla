-------------------------- MODULE Trace_LogUniform --------------------------
(* A recorded history of distributions and what they were asked. Numbers are *)
(* reported as exponents: cdf, sf and mass as fractions, ppf in millionths.  *)
EXTENDS LogUniform, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ objs = <<>> /\ log = <<>>
Near(x, w) == LET a == w[1] * (1000000 \div w[2]) + (w[1] * (1000000 % w[2])) \div w[2] IN a - x \in (0 - 100)..100
JudgeAsk == \E w \in {Answer(objs[E.i], E.q)} :
    Clause(E.c, IF E.q.m = "ppf" THEN "the place below which the given share lies" ELSE "probability in proportion to the share of the log range",
           IF E.q.m = "ppf" THEN Near(E.got, w) ELSE E.got = w, [i |-> E.i, q |-> E.q, got |-> E.got], w)
JudgeDraw ==
    /\ Clause(E.c, "draws lie within the range", E.inside, E.i, "")
    /\ Clause(E.c, "the asked number of draws", E.n = E.size, E.n, E.size)
    /\ Clause(E.c, "the same random state gives the same draws, any earlier request and copies included", E.again, E.i, "")
    /\ (E.n >= 100 => Clause(E.c, "equal ratios are drawn equally often", EvenCounts(E.counts, E.n, Len(E.counts)), E.counts, E.n))
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "start" /\ objs' = <<>> /\ log' = <<>>
            \/ E.e = "make" /\ Make(E.lo, E.hi)
            \/ E.e = "ask" /\ JudgeAsk /\ Ask(E.i, E.q)
            \/ E.e = "draw" /\ JudgeDraw /\ UNCHANGED luvars
TSpec == TInit /\ [][TNext]_<<luvars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
