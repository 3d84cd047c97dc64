----------------------------- MODULE Trace_Refuse ----------------------------
(* A recorded history of requests to one object. Every request reports what  *)
(* came of it (out: answer or refuse), whether the caller's data are as they *)
(* were (pure), the answer's number, and the number of the answer the same   *)
(* request gets in the same history without its refused requests (clean).    *)
EXTENDS Refuse, TraceKit
VARIABLE l
E == Trace[l]
TInit == l = 1 /\ op = "none" /\ ctor = <<>> /\ st = "none" /\ have = 0 /\ log = <<>>
Agree(v) == v = "free" \/ v = E.out
JudgeMake ==
    LET v == CtorVerdict(E.op, E.ctor)
    IN Clause(E.c, IF v = "refuse" THEN "an object that cannot work is refused" ELSE "a sound object is made", Agree(v), E.out, v)
JudgeAsk ==
    LET v == CallVerdict(op, ctor, E.q, have)
    IN /\ Clause(E.c, IF v = "refuse" THEN "a request outside the domain is refused" ELSE "a request inside the domain is answered",
                 Agree(v), [request |-> Len(log) + 1, out |-> E.out, why |-> E.why], v)
       /\ Clause(E.c, "the caller's data are left as they were", E.pure, Len(log) + 1, "")
       /\ (E.out = "answer" => Clause(E.c, "refusals leave no trace in later answers", E.ans = E.clean, [request |-> Len(log) + 1, ans |-> E.ans], E.clean))
       /\ Say("STAT", [answered |-> IF E.out = "answer" THEN 1 ELSE 0, refused |-> IF E.out = "refuse" THEN 1 ELSE 0,
                       free |-> IF v = "free" THEN 1 ELSE 0])
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ E.e = "make" /\ JudgeMake /\ Make(E.op, E.ctor, E.out)
            \/ E.e = "ask" /\ JudgeAsk /\ Ask(E.q, E.out)
TSpec == TInit /\ [][TNext]_<<revars, l>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
