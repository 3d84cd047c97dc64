------------------------------ MODULE TraceKit ------------------------------
(* Reading recorded events and reporting verdicts. Verdicts are total: a     *)
(* broken clause is printed and the rest of the trace is still checked.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Say(tag, v) == PrintT(tag \o " " \o ToJson(v))
(* Clause(c, name, ok, got, want): prints FAIL when the clause is broken *)
Clause(c, name, ok, got, want) ==
    \/ ok
    \/ ~ok /\ Say("FAIL", [c |-> c, clause |-> name, got |-> got, want |-> want])
=============================================================================
