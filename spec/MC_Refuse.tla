------------------------------ MODULE MC_Refuse ------------------------------
(* Histories that differ from the ordinary request in at most MaxOdd facts.   *)
EXTENDS Refuse, Json
CONSTANTS MaxOdd, MaxCall
OrdC == [bag |-> [ms |-> Fr(1, 1), mf |-> Fr(1, 1), oob |-> FALSE, warm |-> FALSE, takes |-> TRUE],
         events |-> [kind |-> "uniqueness", min |-> <<0, 1>>],
         cv |-> [pred |-> "series", eval |-> "series", g |-> 5, k |-> I(2), emb |-> "zero"],
         barriers |-> [meta |-> FALSE, name |-> "side", pt |-> 1, sl |-> 1],
         trend |-> [min |-> 2, ev |-> "all"],
         strategy |-> [meta |-> "none", proba |-> "fine"],
         bets |-> [disc |-> FALSE, step |-> <<1, 4>>, meta |-> FALSE, avg |-> FALSE],
         sadf |-> [model |-> "linear", phi |-> <<1, 2>>, min |-> 6, lags |-> "count"],
         make |-> [what |-> "cross", fast |-> 2, slow |-> 3],
         columns |-> [cls |-> "Roll"],
         trader |-> [close |-> "nothing", vol |-> TRUE], csw |-> [side |-> "one_sided_positive"]]
OrdQ == [bag |-> [x |-> "frame", y |-> "series", xi |-> "time", yi |-> "time", known |-> TRUE, w |-> FALSE, want |-> 3],
         events |-> [end |-> "there", again |-> FALSE, close |-> TRUE],
         cv |-> [go |-> TRUE], barriers |-> [data |-> "frame", close |-> TRUE, side |-> TRUE],
         trend |-> [y |-> "series", covers |-> TRUE],
         strategy |-> [m |-> "side", keys |-> "same", y |-> "fine", reach |-> "meets"],
         bets |-> [prob |-> "fine", pred |-> "fine", side |-> "fine", end |-> TRUE],
         sadf |-> [data |-> "fine"], make |-> [go |-> TRUE], columns |-> [miss |-> 0],
         trader |-> [m |-> "signal", twice |-> "none", close |-> TRUE], csw |-> [data |-> "series"]]
\* facts that do not count as odd: which operation is asked, and the kind of object
Free(o) == CASE o = "events" -> {"kind"} [] o = "make" -> {"what"} [] o = "columns" -> {"cls"} [] o = "strategy" -> {"m", "meta"}
             [] o = "sadf" -> {"model"} [] o = "bag" -> {"want", "warm"} [] o = "barriers" -> {"meta"} [] o = "bets" -> {"meta"} [] o = "trader" -> {"m"} [] OTHER -> {}
Odd(o, a, b) == Cardinality({f \in DOMAIN a \ Free(o) : a[f] # b[f]})
OddC == Odd(op, ctor, OrdC[op])
OddLog == SumSeq([i \in DOMAIN log |-> Odd(op, log[i].q, OrdQ[op])])
Init == op = "none" /\ ctor = <<>> /\ st = "none" /\ have = 0 /\ log = <<>>
Next == \/ st = "none" /\ \E o \in Ops : \E c \in Ctors(o) : Odd(o, c, OrdC[o]) <= MaxOdd /\ Make(o, c, CtorVerdict(o, c))
        \/ st = "made" /\ Len(log) < MaxCall /\ \E q \in Calls(op) :
              OddC + OddLog + Odd(op, q, OrdQ[op]) <= MaxOdd /\ Ask(q, CallVerdict(op, ctor, q, have))
Spec == Init /\ [][Next]_revars
Emit == (st = "refused" \/ (st = "made" /\ Len(log) = MaxCall)) =>
        PrintT("CASE " \o ToJson([op |-> op, ctor |-> ctor, made |-> CtorVerdict(op, ctor), log |-> log]))
=============================================================================
